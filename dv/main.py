"""./check Cxx : prove the contracts of one property on /repo's current sources, and run its bounded harness as replay/search."""
import os, sys, time, select, json, importlib, threading, subprocess, re, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def known_findings(pid):
    """entries that suppress a violation: 'known: property=<id> match=<regex> -- <what fails>' (fixed: entries suppress nothing)"""
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if not os.path.exists(p): return out
    for l in open(p):
        m = re.match(r'known:\s+property=(\S+)\s+match=(.*?)\s+--\s+(.*)$', l.strip())
        if m and m.group(1) == pid: out.append((re.compile(m.group(2)), m.group(3)))
    return out

def head(repo):
    try: return subprocess.run(['git', '-C', repo, 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    except Exception: return ''

def main(argv):
    if not argv: print('usage: check Cxx [--no-harness|--no-proof]'); return 2
    pid = argv[0]; t0 = time.time()
    tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import harness, spec, solve
    hres = {'status': 'none', 'cases': 0, 'reqs': 0, 'samples': [], 'detail': '', 'output': '', 'cmd': '', 'secs': 0}
    th = None
    if '--no-harness' not in argv:
        def go():
            nonlocal hres
            hres = harness.run(pid, tier, seed)
        th = threading.Thread(target=go)
        # fork pool first needs a quiet process: harness is started through a subprocess-only thread
    results = []; perr = None; targets = []; htxt = []
    pr = os.pipe()
    pidc = os.fork() if th else 0
    if th and pidc == 0:
        os.close(pr[0])
        try: r = harness.run(pid, tier, seed)
        except BaseException as x: r = dict(hres, status='broken', detail=str(x))
        with os.fdopen(pr[1], 'w') as f: json.dump(r, f)
        os._exit(0)
    os.close(pr[1])
    try:
        mod = importlib.import_module('dv.specs.' + pid.lower())
        targets = spec.TARGETS[pid]
        if '--no-proof' in argv: targets = []
        if tier == 'thorough':
            for t in targets: t.timeout_ms *= 3; t.budget = min(600, t.budget * 2)
        def found(r):
            if known_findings(pid): return False
            if r is not None: return any(spec.definite(o) for o in r['obls']) or bool(spec.confirmed(r))
            if th and not htxt and select.select([pr[0]], [], [], 0)[0]:
                with os.fdopen(os.dup(pr[0])) as f: htxt.append(f.read())
            return bool(htxt) and '"status": "fail"' in htxt[0]
        results = spec.run_all(targets, found=found)
    except Exception as x:
        perr = '%s: %s' % (type(x).__name__, x)
        if '-v' in argv: traceback.print_exc()
    if th:
        with os.fdopen(pr[0]) as f: txt = ''.join(htxt) + f.read()
        os.waitpid(pidc, 0)
        try: hres = json.loads(txt)
        except ValueError: hres['status'] = 'broken'
    # ------------------------------------------------------------------ verdict
    obls = [(r, o) for r in results if r for o in r['obls']]
    undec = [r for r in results if r['status'] != 'proved']
    # a violation: an obligation refuted outright, or one that is not discharged and fails again on the exact, unrolled paths
    refuted = [(r, o) for r, o in obls if spec.definite(o)] + [(r, o) for r in results for o in spec.confirmed(r)]
    soft = [(r, o) for r, o in obls if o['status'] != 'proved' and not spec.definite(o)]
    known = known_findings(pid)
    viol = []; rc = 0; lines = []
    def suppressed(text):
        for rx, desc in known:
            if rx.search(text): lines.append('KNOWN-FINDING: property=%s %s' % (pid, desc)); return True
        return False
    failing = hres['status'] == 'fail' and not suppressed(hres['detail'])
    if failing or refuted:
        os.makedirs(os.path.join(ROOT, 'replay'), exist_ok=True)
        rp = os.path.join(ROOT, 'replay', '%s.json' % pid)
        rep = {'property': pid, 'repo_head': head(harness.REPO), 'seed': seed, 'tier': tier,
               'failing_input': hres['detail'] if failing else None, 'replay_cmd': hres['cmd'] if failing else None, 'harness_output': hres['output'],
               'failed_obligations': [{'target': r['name'], 'obligation': o['name'], 'where': o['where'], 'path': o['path'], 'status': o['status'], 'backend': o['backend'],
                                       'goal': o.get('goal'), 'countermodel': o.get('model')} for r, o in (refuted + soft)[:30]],
               'undecided_functions': [{'target': r['name'], 'status': r['status'], 'reason': r['error']} for r in undec]}
        if failing: rc = 1
        elif not all(suppressed(r['name'] + ': ' + o['name']) for r, o in refuted): rc = 1
        if rc:
            json.dump(rep, open(rp, 'w'), indent=1, default=str)
            for r, o in (refuted or soft)[:5]: print('FAILED-OBLIGATION %s: %s at %s (%s by %s)' % (r['name'], o['name'], o['where'], 'refuted' if o['status'] == 'refuted' else 'not discharged', o['backend']))
            if failing: print('FAILING-INPUT ' + hres['detail'])
            lines.append('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if failing else ' no-failing-input-found'))
            viol.append(hres['detail'] if failing else refuted[0][1]['name'])
    nproved = sum(1 for r, o in obls if o['status'] == 'proved')
    complete = bool(results) and not undec and not perr
    if rc == 0 and not complete and hres['status'] != 'ok':
        rc = 2; lines.append('NO-ANSWER property=%s: proof incomplete (%s) and bounded harness %s (%s)' % (pid, perr or [(r['name'], r['error']) for r in undec][:3], hres['status'], hres['detail'][:300]))
    # ------------------------------------------------------------------ evidence
    stats = {}
    for r in results:
        for k, v in r['stats'].items(): stats[k] = round(stats.get(k, 0) + v, 3)
    trusted = sorted({x for r in results for x in r['trusted']})
    contracts = sorted({x for r in results for x in r['contracts']})
    fns = sorted({x for r in results for x in r['fns']})
    by = {}
    for r, o in obls: by[o['backend']] = by.get(o['backend'], 0) + (o['status'] == 'proved')
    bounded = [{'function': r['name'], 'reason': '%s: %s' % (r['status'], r['error'] or 'obligation not decided'), 'stand_in': stand_in(r)} for r in undec]
    meta = getattr(sys.modules.get('dv.specs.' + pid.lower()), 'META', {})
    bounded += meta.get('bounded', [])
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
          'coverage': {'obligations': len(obls) + len([r for r in undec if not r['obls']]), 'discharged': nproved,
                       'checker_cmd': 'cd /verif && ./check %s' % pid,
                       'trusted_base': ['clang 18 front end (AST)', 'dv/ verification-condition generator', 'z3 %s' % z3v(), 'cvc5 1.1.2'] + ['assumed library contract: ' + x for x in trusted],
                       'functions_under_contract': [r['name'] for r in results], 'functions_executed_from_source': fns,
                       'contracts_used_for_callees': contracts, 'discharged_by': by, 'solver': stats,
                       'targets': [{'name': r['name'], 'status': r['status'], 'paths': r['paths'], 'obligations': len(r['obls']), 'secs': r['secs'], 'covers': r['covers'], 'error': r['error']} for r in results],
                       'loop_invariants': [{'where': l['where'], 'kept': l['kept'][:40]} for r in results for l in r['loops']][:200],
                       'proof_complete': complete, 'bounded_not_proved': bounded, 'proof_error': perr,
                       'harness': {'status': hres['status'], 'cases': hres['cases'], 'comparisons': hres['reqs'], 'detail': hres['detail'][:500], 'secs': hres.get('secs', 0), 'cmd': hres['cmd'],
                                   'note': 'bounded, seeded search on the real code for a failing input; never counted as proof'},
                       'evaluations': hres['cases'], 'samples': (hres['samples'] or ['(no harness run)'])[:8]},
          'assumptions': ASSUMPTIONS + meta.get('assumptions', []),
          'wall_s': round(time.time() - t0, 1), 'violations': viol}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', '%s.json' % pid), 'w'), indent=1, default=str)
    print('%s: %d/%d obligations discharged over %d targets (%s), harness %s (%d cases, %d comparisons), %.1f s' % (
        pid, nproved, ev['coverage']['obligations'], len(results), 'complete' if complete else 'INCOMPLETE', hres['status'], hres['cases'], hres['reqs'], time.time() - t0))
    for r in undec: print('  not proved: %s: %s %s' % (r['name'], r['status'], r['error'] or [o['name'] for o in r['obls'] if o['status'] != 'proved'][:3]))
    if perr: print('  proof error:', perr)
    if hres['status'] == 'broken': print('  harness:', hres['detail'], hres['output'][:1500])
    for l in dict.fromkeys(lines): print(l)
    return rc

def stand_in(r):
    u = r.get('unrolled')
    s = 'bounded: the seeded harness on the real code'
    if u: s += '; bounded: every loop unrolled at most %d times, %d obligations on %d paths, %d not discharged (%s)' % (u['unrolled'], u['obligations'], u['paths'], len(u['failed']), u['error'] or u['status'])
    return s

def z3v():
    try:
        import z3; return z3.get_version_string()
    except Exception: return '?'

ASSUMPTIONS = [
 'machine doubles are treated as mathematical reals (rounding, overflow, NaN, infinities and signed zeros are outside the proofs; the harness samples them)',
 'signed integer overflow and sizes of 2^31 or more are not considered',
 'debug configuration (POOYA_DEBUG on, as built by /opt/vp/build.sh)',
 'exception message texts, trace information and console warnings are dropped',
 'contracts of the C++ standard library and Eigen are assumed as modelled in dv/lib.py',
 'single thread; user callbacks and user-defined blocks modify the library\'s objects only through its public interface',
]
