"""Specification targets: set-up of a symbolic pre-state, execution of the real function, obligations on every outcome."""
import os, sys, time, traceback, multiprocessing as mp, multiprocessing.connection
import z3
from .engine import *
from .values import *
from .types import *
from .exec import Exec
from .cxxast import AST, Unsupported
from . import solve, extract

class Target:
    def __init__(self, pid, name, body, contracts=None, hints=None, fn=None, covers=(), budget=200, timeout_ms=10000, handle_inv=True, axioms=None, alt_axioms=None, deep=True):
        self.deep = deep
        self.pid = pid; self.name = name; self.body = body; self.contracts = contracts or {}; self.hints = hints or []
        self.fn = fn; self.covers = tuple(covers); self.budget = budget; self.timeout_ms = timeout_ms
        self.handle_inv = handle_inv; self.axioms = axioms; self.alt_axioms = alt_axioms

TARGETS = {}
def target(pid, name=None, **kw):
    def d(f):
        t = Target(pid, name or f.__name__, f, **kw)
        TARGETS.setdefault(pid, []).append(t)
        return f
    return d

def field_decl(ast, qname):
    if not hasattr(ast, '_fields_q'):
        ast._fields_q = {}
        for r in ast.recs.values():
            for f in r.fields: ast._fields_q[ast.qname[f['id']]] = f
    return ast._fields_q.get(qname)

class E(Exec):
    """engine with the vocabulary used by specifications"""
    def ref(self, name, rec, nonnull=True):
        r = z3.Const('arg:' + name, Ref)
        self.type_fact(r, rec) if rec in self.ast.recs else None
        if nonnull: self.assume(r != null)
        self.fact(aid(r) <= self.st.alloc)
        return r
    def obj(self, r, rec): return Loc(('H', r), (), Ty('rec', rec=rec))
    def this(self, rec, exact=True):
        r = z3.Const('this', Ref)
        self.type_fact(r, rec)
        if exact: self.exact['this'] = rec
        self.assume(r != null)
        return self.obj(r, rec)
    def new(self, rec):
        return self.obj(self.alloc(rec), rec)
    def fld(self, loc, qname):
        """location of a member by qualified name Class::member (searches the class of the member)"""
        f = field_decl(self.ast, qname)
        if f is None: raise Unsupported('member %s not found' % qname)
        ft = self.T.field_type(f)
        return loc.f(qname, ft)
    def get(self, loc, qname, st=None):
        return self.read(self.fld(loc, qname), st)
    def call(self, q, this, args, sig=None, nparams=None):
        """run a function; -> ('ret', value) or ('throw', what)"""
        fs = self.ast.functions(q)
        if sig is not None: fs = [f for f in fs if sig in self.ast.sig(f)]
        if nparams is not None: fs = [f for f in fs if len(self.ast.params(f)) == nparams]
        if not fs: raise Unsupported('function %s %s not found' % (q, sig or ''))
        ids = {self.ast.canon.get(f['id'], f['id']) for f in fs}
        if len(ids) > 1: raise Unsupported('ambiguous function %s' % q)
        fn = None
        for f in fs:
            d = self.ast.def_of(f['id'])
            if d is not None: fn = d
        fn = fn or fs[0]
        c = self.contracts.pop(q, None)
        try:
            v = self.call_fn(fn, this, args)
            return 'ret', v
        except ThrowEx as t:
            return 'throw', t
        finally:
            if c is not None: self.contracts[q] = c
    def snap(self):
        s = self.st.copy(); s.log = None; return s
    def prove(self, name, goal): self.oblige(name, goal, kind='post')
    def cover(self, label): self.st.extra['cover'] = self.st.extra.get('cover', ()) + (label,)

def FULLN():
    from .specs.blocks import FULLN as F
    return F

_AST = None
def get_ast():
    global _AST
    if _AST is None:
        docs = extract.load_ast()
        _AST = AST(docs) if not isinstance(docs, tuple) else AST(*docs)
    return _AST

def run_target(t, seed=1, verbose=False, report=lambda r: None):
    """first with the invariant candidates of the contracts alone; what is then not proved is tried again with the
    automatic loop candidates and larger solver limits, and with the more expensive background axioms.  What remains is
    executed once more with every loop unrolled twice instead of cut at invariants: bounded, and exact on its paths"""
    import copy
    t0 = time.time(); limit = t0 + hard_limit(t)
    r = run_target1(t, seed, verbose, auto=False)
    if r['status'] == 'proved' or any(definite(o) for o in r['obls']): return r
    report(r)
    tries = [dict(auto=True, patience=3)]
    if t.alt_axioms: tries.insert(0, dict(auto=False, alt=True)); tries.append(dict(auto=True, alt=True, patience=3))
    best = r; room = min(150, t.budget)
    for k in tries:
        left = limit - time.time() - room
        if left < 20: break
        u = copy.copy(t); u.budget = min(t.budget, left)
        if k.pop('alt', False): u.axioms = t.alt_axioms
        r2 = run_target1(u, seed, verbose, **k)
        if r2['status'] == 'proved' or any(definite(o) for o in r2['obls']): best = r2; break
        if r2['obls'] and sum(o['status'] != 'proved' for o in r2['obls']) <= sum(o['status'] != 'proved' for o in best['obls']): best = r2
    best['secs'] = round(time.time() - t0, 2)
    if best['status'] != 'proved' and not any(definite(o) for o in best['obls']):
        report(best)
        end = min(time.time() + room, limit)
        for m in (1, 2):
            u = copy.copy(t); u.budget = end - time.time(); u.timeout_ms = 5000
            if u.budget < 10: break
            r2 = run_target1(u, seed, verbose, unroll=m, patience=2)
            best['unrolled'] = {'status': r2['status'], 'error': r2['error'], 'unrolled': m, 'obligations': len(r2['obls']), 'paths': r2['paths'], 'secs': r2['secs'],
                                'failed': [o for o in r2['obls'] if o['status'] != 'proved' and o['backend'] != 'budget']}
            if best['unrolled']['failed'] or r2['status'] == 'unsupported': break
        best['secs'] = round(time.time() - t0, 2)
    return best

def hard_limit(t): return min(2 * t.budget + 60, 600)

def definite(o):
    """a refuted obligation whose countermodel does not rest on weakened loop invariants"""
    return o['status'] == 'refuted' and (not o['loops'] or o.get('definite'))

def confirmed(r):
    """obligations that stay undischarged on the exact paths of the unrolled execution"""
    return (r.get('unrolled') or {}).get('failed', [])

def run_target1(t, seed=1, verbose=False, auto=False, patience=1, unroll=0):
    """-> result dictionary"""
    t0 = time.time()
    for k in solve.stats: solve.stats[k] = 0
    solve.DEEP = t.deep; solve.FEAS_MS = solve.BASE_MS * patience
    res = {'name': t.name, 'status': None, 'obls': [], 'error': None, 'fns': [], 'contracts': [], 'trusted': [], 'paths': 0, 'loops': [], 'covers': []}
    try:
        ast = get_ast()
        e = E(ast)
        e.contracts = {**FULLN(), **t.contracts}; e.handle_inv = t.handle_inv
        e.hints = list(t.hints); e.auto = auto; e.unroll = unroll; e.solver_ms *= patience
        e.deadline = time.time() + t.budget
        e.target = t
        if t.axioms: e.axioms = list(t.axioms(e))
        late = None
        if unroll: e.deadline -= 0.3 * t.budget
        try: rs = e.explore(lambda: t.body(e), 'top')
        except Unsupported as x:        # the obligations of the paths executed so far are exact
            if not unroll or 'time budget' not in str(x) or not e.obls: raise
            rs = []; late = x
        res['paths'] = len(rs)
        sax = str_axioms()
        live = 0; covers = set()
        for _, st in rs:
            if not solve.quick_unsat(e.axioms + sax + st.pc, 300):
                live += 1; covers |= set(st.extra.get('cover', ()))
        res['covers'] = sorted(covers)
        bad = []
        for o in e.obls:
            if time.time() - t0 > t.budget: o.status, o.backend, o.secs = 'unknown', 'budget', 0
            else:
                o.status, o.backend, o.secs, o.info = solve.prove(e.axioms + sax + o.pc, o.goal, t.timeout_ms)
            d = {'name': o.name, 'where': o.where, 'kind': o.kind, 'status': o.status, 'backend': o.backend, 'secs': round(o.secs, 3), 'path': o.path, 'loops': o.loops}
            if o.status != 'proved':
                d['goal'] = str(o.goal)[:2000]
                if o.status == 'refuted':
                    d['model'] = str(o.info)[:4000]
                    # does the countermodel rest on quantified facts or loop invariants?
                bad.append(d)
            res['obls'].append(d)
        for l in e.loop_reports:
            for k in l['kept']: res['obls'].append({'name': 'invariant:' + k, 'where': l['where'], 'kind': 'invariant', 'status': 'proved', 'backend': 'z3', 'secs': 0, 'path': '', 'loops': True})
        res['loops'] = e.loop_reports
        res['fns'] = sorted(e.used_fns); res['contracts'] = sorted(e.used_contracts); res['trusted'] = sorted(e.trusted)
        missing = [c for c in t.covers if c not in covers]
        if any(d['status'] == 'refuted' for d in bad): res['status'] = 'refuted'
        elif bad: res['status'] = 'unknown'
        elif late: res['status'] = 'unsupported'; res['error'] = str(late)
        elif live == 0 or missing:
            res['status'] = 'vacuous'; res['error'] = 'no live path' if live == 0 else 'not reached: %s' % missing
        else: res['status'] = 'proved'
    except (Unsupported, extract.ExtractError) as x:
        res['status'] = 'unsupported'; res['error'] = str(x)
        if verbose: res['trace'] = traceback.format_exc()
    except z3.Z3Exception as x:
        res['status'] = 'unsupported'; res['error'] = 'z3: %s' % x
        if verbose: res['trace'] = traceback.format_exc()
    except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, RecursionError, ReturnEx, BreakEx, ContinueEx, ThrowEx, NotImplementedError) as x:
        res['status'] = 'unsupported'; res['error'] = 'engine: %s: %s' % (type(x).__name__, x)
        res['trace'] = traceback.format_exc()
    res['secs'] = round(time.time() - t0, 2)
    res['stats'] = dict(solve.stats)
    return res

def _work(t, conn):
    try: conn.send(('last', run_target(t, report=lambda r: conn.send(('so far', r)))))
    finally: conn.close()

def run_all(targets, procs=8, total=float(os.environ.get('VERIF_PROOF_SECS', 780)), found=lambda r: False, grace=30):
    """run targets in parallel worker processes; one that overruns its budget (or the total) is ended and reported as undecided.
    found(r) (r: a result, or None when polled) says that the property is already known to be violated: the rest gets `grace` more seconds"""
    get_ast()
    targets = list(targets); out = [None] * len(targets); t0 = time.time()
    todo = sorted(range(len(targets)), key=lambda i: -targets[i].budget)
    ctx = mp.get_context('fork'); run = {}
    def lost(i, why): out[i] = {'name': targets[i].name, 'status': 'unsupported', 'obls': [], 'error': why, 'fns': [], 'contracts': [], 'trusted': [], 'paths': 0, 'loops': [], 'covers': [], 'secs': round(time.time() - t0, 2), 'stats': dict(solve.stats)}
    tf = None
    while todo or run:
        if tf is None and found(None): tf = time.time()
        late = time.time() - t0 > total or (tf is not None and time.time() - tf > grace)
        while todo and len(run) < procs and not late:
            i = todo.pop(0); a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(targets[i], b)); p.start(); b.close(); run[i] = (p, a, time.time())
        if late:
            for i in todo: lost(i, 'not started within the time for all targets' if tf is None else 'stopped: the property is already violated')
            todo = []
        mp.connection.wait([c for _, c, _ in run.values()], 1)
        for i, (p, c, t1) in list(run.items()):
            if c.poll():
                try:
                    w, out[i] = c.recv()
                    if tf is None and found(out[i]): tf = time.time()
                    if w != 'last': continue
                except EOFError: out[i] or lost(i, 'the prover process ended without a result')
            elif late or time.time() - t1 > hard_limit(targets[i]) + 30: p.kill(); out[i] or lost(i, 'out of time' if tf is None else 'stopped: the property is already violated')
            else: continue
            p.join(); c.close(); del run[i]
    return out

def also(pid, frm, *names):
    """the property rests on contracts whose functions another property verifies: verify those functions here as well"""
    import importlib, copy
    importlib.import_module('dv.specs.' + frm.lower())
    for t in TARGETS[frm]:
        if t.name in names or not names: u = copy.copy(t); u.pid = pid; u.name = '%s (%s)' % (t.name, frm); TARGETS.setdefault(pid, []).append(u)
