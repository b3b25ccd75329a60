B = "every contract obligation generated from the current sources is discharged by z3/cvc5 for all inputs; doubles as reals; STL/Eigen contracts assumed; a bounded seeded harness on the real code only replays/searches failing inputs"
CLAIMS = {
 'C01': dict(claimed=True, note=B),
    'C02': dict(claimed=True, note=B),
    'C03': dict(claimed=True, note=B),
    'C04': dict(claimed=True, note=B),
    'C05': dict(claimed=True, note=B),
    'C06': dict(claimed=True, note=B),
    'C07': dict(claimed=True, note=B),
    'C08': dict(claimed=True, note=B),
    'C09': dict(claimed=True, note=B),
    'C10': dict(claimed=True, note=B),
    'C11': dict(claimed=True, note=B),
    'C12': dict(claimed=True, note=B),
    'C13': dict(claimed=True, note=B),
    'C14': dict(claimed=True, note=B),
    'C15': dict(claimed=True, note=B),
    'C17': dict(claimed=True, note=B),
    'C16': dict(claimed=True, note=B),
    'C18': dict(claimed=True, note=B),
    'C19': dict(claimed=True, note=B),
    'C20': dict(claimed=True, note=B),
}
