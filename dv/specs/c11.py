"""C11: run() advances time in contiguous bounded steps and never goes back.

The clear / callback / hooks / gather / step / load / evaluate protocol is a ghost state machine: every contract of a
callee proves that it is called in the right phase, at the right time and with the right state."""
from .blocks import *
from .c10 import SB, VSV, VPOS, ST, STO, STD, THIS, X0, FB, layout, member, asg, refs, is_at
IDLE, CALLED, INPUT, PRE, GOT, STEPPED, LOADED = range(7)
_g = {'phase': I, 'start': R, 'force': B, 'redo': B, 'limit': R, 'steps': I, 'vec': z3.ArraySort(I, R), 'len': I, 'inits': I}
def gh(e, n, st=None):
    if n == 'vec': return e.heap_get(('ghost::run_vec',), z3.ArraySort(Ref, _g[n]), st)[null]
    return select(e.heap_get(('ghost::run_' + n,), z3.ArraySort(Ref, _g[n]), st), null)
def gset(e, n, v): e.write_leaf(Loc(('H', null), (('f', 'ghost::run_' + n),), None), (), _g[n], v)
T1, HMIN, HMAX = z3.Const('arg:t', R), z3.Const('arg:min_time_step', R), z3.Const('arg:max_time_step', R)
TP = z3.Const('gh:previous', R); MODEL = z3.Const('gh:model', Ref); CB = z3.Const('gh:cb', Fn); STEPPER = z3.Const('gh:stepper', Ref)
W0 = z3.Const('sk:entry', I)
def val(e, a): return e.read(a) if isinstance(a, Loc) else a
def vec(e, a):
    v = val(e, a)
    if isinstance(v, Expr2): v = e.force(v)
    return v.lv[('[]',)], v.lv[('#len',)]
def remember(e, a): v, n = vec(e, a); gset(e, 'vec', v); gset(e, 'len', n)
def is_last(e, what, a):
    v, n = vec(e, a)
    e.prove(what, z3.And(n == gh(e, 'len'), z3.Implies(z3.And(W0 >= 0, W0 < n), select(v, W0) == select(gh(e, 'vec'), W0))))
def begun(e, what):
    e.prove('%s comes first' % what, gh(e, 'phase') == IDLE)
    e.prove('signals are cleared before %s' % what, z3.Implies(member(e, X0, VSV, VPOS), z3.Not(select(asg(e), X0))))
def k_callback(e, f, args, node):
    begun(e, 'the input callback')
    e.prove('it is the given input callback', f == CB)
    e.prove('the input callback gets the model', e.addr(args[0]) == MODEL)
    e.prove('the input callback gets the start time', val(e, args[1]) == gh(e, 'start'))
    gset(e, 'phase', z3.IntVal(CALLED)); havoc_signals(e)
def k_input(e, this, args, node):
    if e.choose(CB != fnnull): e.prove('the input hook follows the callback', gh(e, 'phase') == CALLED)
    else: begun(e, 'the input hook')
    e.prove('the input hook of the model', e.addr(this) == MODEL); e.prove('the input hook gets the start time', val(e, args[0]) == gh(e, 'start'))
    gset(e, 'phase', z3.IntVal(INPUT)); havoc_signals(e)
def k_pre(e, this, args, node):
    e.prove('the pre-step follows the input hook', gh(e, 'phase') == INPUT)
    e.prove('the pre-step of the model', e.addr(this) == MODEL); e.prove('the pre-step gets the start time', val(e, args[0]) == gh(e, 'start'))
    gset(e, 'phase', z3.IntVal(PRE)); havoc_signals(e)
def k_get(e, this, args, node):
    """C10"""
    e.prove('the state is gathered after the pre-step', gh(e, 'phase') == PRE)
    w = e.fresh_sv('gathered', ARR); e.assume(w.lv[('#len',)] == vec(e, args[0])[1])
    e.write(args[0], w); remember(e, w); gset(e, 'phase', z3.IntVal(GOT))
def k_step(e, this, args, node):
    """any stepper: any resulting state of the same size, any proposal"""
    e.prove('the given stepper', e.addr(this) == STEPPER)
    e.prove('a sub-step follows pre-step and gathering', gh(e, 'phase') == GOT)
    t0, t2 = val(e, args[1]), val(e, args[3]); h = t2 - t0
    e.prove('starts where the last accepted sub-step ended', t0 == gh(e, 'start'))
    e.prove('ends no later than asked', t2 <= T1); e.prove('of positive length', h > 0); e.prove('not longer than the maximal step', h <= HMAX)
    e.prove('a repeated sub-step is shorter but not below the minimal step', z3.Implies(gh(e, 'redo'), z3.And(h < gh(e, 'limit'), h >= HMIN)))
    is_last(e, 'starts from the gathered state', args[2])
    r = e.fresh_sv('stepped', ARR); e.assume(r.lv[('#len',)] == vec(e, args[2])[1])
    p = e.fresh('proposal', R)
    e.write(args[4], r); e.write(args[5], p); remember(e, r)
    b = e.obj(THIS, SB); d = e.fld(b, STD)
    w = e.fresh_sv('derivs', ARR); e.assume(w.lv[('#len',)] == e.read(d).lv[('#len',)]); e.write(d, w); havoc_signals(e)
    redo = z3.And(p < h, h > HMIN, z3.Not(gh(e, 'force')))
    gset(e, 'phase', z3.If(redo, z3.IntVal(IDLE), z3.IntVal(STEPPED)))
    gset(e, 'start', z3.If(redo, gh(e, 'start'), t2)); gset(e, 'force', z3.And(redo, p <= HMIN)); gset(e, 'redo', redo); gset(e, 'limit', h)
def k_reset(e, this, args, node):
    """C10"""
    ph = gh(e, 'phase'); mode = e.st.extra['mode']
    if mode == 'steps': e.prove('a state is loaded when its sub-step was accepted', ph == STEPPED)
    elif mode == 'repeat': e.prove('the state is loaded when it was gathered', ph == GOT)
    else: e.prove('nothing happens before', ph == IDLE)
    if mode != 'stateless': is_last(e, 'the loaded state is the last one', args[0])
    gset(e, 'phase', z3.IntVal(LOADED)); havoc_signals(e)
def k_pass(e, this, args, node):
    t, p, q = (val(e, a) for a in args)
    e.prove('the model is evaluated when the state is loaded', gh(e, 'phase') == LOADED)
    e.prove('at the time reached', t == (gh(e, 'start') if e.st.extra['mode'] == 'steps' else T1))
    e.prove('with pre-step only without states', p if e.st.extra['mode'] == 'stateless' else z3.Not(p)); e.prove('with post-step', q)
    gset(e, 'phase', z3.IntVal(IDLE)); gset(e, 'redo', F_); gset(e, 'steps', gh(e, 'steps') + 1); havoc_signals(e)
def k_init(e, this, args, node):
    e.prove('initialises itself', e.addr(this) == THIS); e.prove('at the given time', val(e, args[0]) == T1)
    gset(e, 'inits', gh(e, 'inits') + 1)
CONTRACTS = {**FULLN, 'callback': k_callback, 'virtual ' + BK + '::input_cb': k_input, 'virtual ' + BK + '::pre_step': k_pre, SB + '::get_state_variables': k_get, 'virtual pooya::StepperBase::step': k_step,
             SB + '::reset_with_state_variables': k_reset, 'virtual ' + SB + '::process_model': k_pass, 'virtual ' + SB + '::init': k_init}
def run_hint(L):
    e = L.eng; out = []; i = z3.Const('q:i', I)
    v = is_at(L, VSV)
    if v is not None:
        A, n = refs(e, VSV); a = asg(e)
        return [('cleared so far', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v), z3.Not(z3.Select(a, z3.Select(A, i)))), patterns=[z3.Select(A, i)]))]
    A, n = refs(e, VSV); a = asg(e)
    for c in [c for c, g, d, info in L.syms if c.sort() == I and info[0] == 'L']:
        for d, lo, hi in (('cleared so far (by index)', z3.IntVal(0), c), ('cleared backwards so far', c, n)):
            out.append((d, z3.And(c >= 0, c <= n, z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), z3.Not(z3.Select(a, z3.Select(A, i)))), patterns=[z3.Select(A, i)]))))
    ph = gh(e, 'phase')
    ls = [(c, d) for c, g, d, info in L.syms if info[0] == 'L']
    for fa, d in ls:
        if fa.sort() == B: out += [('forced (%s)' % d, fa == gh(e, 'force')), ('not forced (%s)' % d, fa == z3.Not(gh(e, 'force')))]
    reals = [x for x in ls if x[0].sort() == R]
    for t1, d1 in reals:       # whichever local plays the role
        out.append(('time reached (%s)' % d1, t1 == gh(e, 'start')))
        out.append(('not past the end (%s)' % d1, t1 <= T1))
        out.append(('phase (%s)' % d1, ph == z3.If(t1 < T1, z3.IntVal(IDLE), z3.IntVal(STEPPED))))
        for t2, d2 in reals:
            if t1 is t2: continue
            out.append(('next end (%s, %s)' % (d1, d2), z3.And(t2 <= T1, z3.Implies(t1 < T1, t2 > t1), t2 - t1 <= HMAX)))
            out.append(('repeated (%s, %s)' % (d1, d2), z3.Implies(gh(e, 'redo'), z3.And(t1 < T1, t2 - t1 < gh(e, 'limit'), t2 - t1 >= HMIN))))
            out.append(('next length (%s, %s)' % (d1, d2), z3.And(t1 + t2 <= T1, z3.Implies(t1 < T1, t2 > 0), t2 <= HMAX)))
            out.append(('repeated length (%s, %s)' % (d1, d2), z3.Implies(gh(e, 'redo'), z3.And(t1 < T1, t2 < gh(e, 'limit'), t2 >= HMIN))))
    for key in (ST, STO):
        out.append(('sizes', e.get(e.obj(THIS, SB), key).lv[('#len',)] == e.get(e.obj(THIS, SB), key, L.pre).lv[('#len',)]))
    out.append(('size of the state', z3.Implies(ph == STEPPED, gh(e, 'len') == e.get(e.obj(THIS, SB), ST).lv[('#len',)])))
    v = e.get(e.obj(THIS, SB), ST)
    out.append(('the last state', z3.Implies(ph == STEPPED, z3.Implies(z3.And(W0 >= 0, W0 < gh(e, 'len')), select(v.lv[('[]',)], W0) == select(gh(e, 'vec'), W0)))))
    return out
def start(e, states=None, init=True):
    b = e.this('pooya::Simulator', exact=False); layout(e)
    n = e.get(b, ST).lv[('#len',)]
    for k in (STO, STD): e.assume(e.get(b, k).lv[('#len',)] == n)
    if states is not None: e.assume(n > 0 if states else n == 0)
    e.assume(e.get(b, SB + '::_initialized') if init else z3.Not(e.get(b, SB + '::_initialized')))
    e.assume(e.get(b, SB + '::_t_prev') == TP); e.assume(e.get(b, SB + '::_inputs_cb') == CB); e.assume(e.get(b, SB + '::_stepper') == STEPPER)
    e.assume(e.get(b, SB + '::_model') == MODEL); e.assume(z3.And(MODEL != null, aid(MODEL) <= e.st.alloc))
    for k, v in (('phase', z3.IntVal(IDLE)), ('start', TP), ('force', F_), ('redo', F_), ('steps', z3.IntVal(0)), ('inits', z3.IntVal(0))): gset(e, k, v)
    return b
def run(e, b):
    pre = e.snap()
    return e.call(SB + '::run', b, [e.sym('t', REAL), e.sym('min_time_step', REAL), e.sym('max_time_step', REAL)])[0], pre
def quiet_return(e, k, pre, what):
    e.prove('%s: no evaluation' % what, gh(e, 'steps') == 0)
    frame_same(e, what, pre, {('ghost::run_' + x,) for x in _g})
def last(e, b, k):
    must_return(e, k)
    if k != 'ret': return False
    e.prove('ends with an evaluation', z3.And(gh(e, 'phase') == IDLE, gh(e, 'steps') >= 1)); e.prove('the time is remembered', e.get(b, SB + '::_t_prev') == T1)
    e.prove('does not initialise again', gh(e, 'inits') == 0)
    return True

@target('C11', 'SimulatorBase::run, first call', covers=('ret',), contracts=CONTRACTS)
def first(e):
    b = start(e, init=False); e.st.extra['mode'] = 'first'
    k, pre = run(e, b); must_return(e, k)
    if k != 'ret': return
    e.prove('initialises once', gh(e, 'inits') == 1); quiet_return(e, k, pre, 'the first call'); e.cover('ret')
@target('C11', 'SimulatorBase::run, back in time', covers=('throw',), contracts=CONTRACTS)
def back(e):
    b = start(e, True); e.st.extra['mode'] = 'back'; e.assume(T1 < TP)
    k, pre = run(e, b); e.prove('throws', z3.BoolVal(k == 'throw'))
    if k == 'throw': quiet_return(e, k, pre, 'going back'); e.prove('does not initialise', gh(e, 'inits') == 0); e.cover('throw')
@target('C11', 'SimulatorBase::run, repeated time', covers=('ret',), hints=[run_hint], contracts=CONTRACTS)
def repeat(e):
    b = start(e, True); e.st.extra['mode'] = 'repeat'; e.assume(T1 == TP)
    k, pre = run(e, b)
    if last(e, b, k): e.prove('one evaluation', gh(e, 'steps') == 1); e.cover('ret')
@target('C11', 'SimulatorBase::run, no state variables', covers=('ret',), hints=[run_hint], contracts=CONTRACTS)
def stateless(e):
    b = start(e, False); e.st.extra['mode'] = 'stateless'
    k, pre = run(e, b)
    if last(e, b, k): e.prove('one evaluation', gh(e, 'steps') == 1); e.cover('ret')
@target('C11', 'SimulatorBase::run, sub-steps', covers=('ret',), hints=[run_hint], contracts=CONTRACTS)
def steps(e):
    b = start(e, True); e.st.extra['mode'] = 'steps'; e.assume(T1 > TP)
    e.assume(z3.And(STEPPER != null, HMIN > 0, HMAX > HMIN))
    k, pre = run(e, b)
    if last(e, b, k): e.prove('the time is reached', gh(e, 'start') == T1); e.cover('ret')
also('C11', 'C10', 'SimulatorBase::reset_with_state_variables', 'SimulatorBase::get_state_variables')

META = {'assumptions': ['a stepper returns a vector of the size it was given (proved for the steppers of the library in C12); 0 < min_time_step < max_time_step']}
