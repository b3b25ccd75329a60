"""Solver back ends: z3 (python API) first, cvc5 (CLI, SMT-LIB) as second opinion for what z3 cannot decide."""
import subprocess, tempfile, time, os
from fractions import Fraction
import z3
stats = {'z3': 0, 'cvc5': 0, 'z3_s': 0.0, 'cvc5_s': 0.0, 'feas': 0, 'feas_s': 0.0}
FEAS_MS = BASE_MS = 400
DEEP = True      # second attempts of invariant checks with more instantiation

def set_rlimits():
    z3.set_param('smt.random_seed', 0)

def skolem(f, neg=False):
    """replace the outermost existentially read quantifiers of an assertion by fresh constants"""
    if z3.is_not(f): return skolem(f.children()[0], not neg)
    if z3.is_quantifier(f) and not f.is_lambda() and f.is_forall() == neg:
        vs = [z3.FreshConst(f.var_sort(i), 'sk') for i in range(f.num_vars())]
        return skolem(z3.substitute_vars(f.body(), *reversed(vs)), neg)
    if neg and z3.is_implies(f):
        a, b = f.children(); return z3.And(skolem(a), skolem(b, True))
    if neg and z3.is_or(f): return z3.And(*[skolem(c, True) for c in f.children()])
    if not neg and z3.is_and(f): return z3.And(*[skolem(c) for c in f.children()])
    if neg and z3.is_and(f): return z3.Or(*[skolem(c, True) for c in f.children()])
    if not neg and z3.is_or(f): return z3.Or(*[skolem(c) for c in f.children()])
    return z3.Not(f) if neg else f

def quick_unsat(assertions, ms=None, deep=True):
    """True if the conjunction is proved unsatisfiable quickly"""
    t = time.time(); deep = deep and ms is not None and DEEP; ms = ms or FEAS_MS
    s = z3.SimpleSolver()
    s.set('timeout', ms)
    s.set('smt.mbqi', False)      # only unsat matters here
    s.add(*assertions[:-1])
    if assertions: s.add(skolem(assertions[-1]))
    r = s.check()
    if r == z3.unknown and deep and time.time() - t < ms / 2000:
        # instantiate also in terms that are not relevant for the current assignment
        s2 = z3.SimpleSolver(); s2.set('timeout', max(100, ms // 3)); s2.set('smt.mbqi', False); s2.set('smt.relevancy', 0)
        s2.add(s.assertions()); r = s2.check()
    stats['feas'] += 1; stats['feas_s'] += time.time() - t
    return r == z3.unsat

def prove(assertions, goal, timeout_ms=10000, use_cvc5=True):
    """-> (status, backend, seconds, info); status in proved / refuted / unknown"""
    t = time.time()
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'proved', 'simplifier', time.time() - t, None
    s = z3.SimpleSolver(); s.set('timeout', min(timeout_ms, 3000)); s.set('smt.mbqi', False); s.set('smt.relevancy', 0)
    s.add(*assertions); s.add(skolem(goal, True))
    r = s.check()
    if r == z3.unknown and structuf(assertions, goal, 2000):
        dt = time.time() - t; stats['z3'] += 1; stats['z3_s'] += dt
        return 'proved', 'z3 (products uninterpreted)', dt, None
    if r == z3.unknown and polyuf(assertions, goal, 3000):
        dt = time.time() - t; stats['z3'] += 1; stats['z3_s'] += dt
        return 'proved', 'z3 (normalised products)', dt, None
    if r == z3.unknown:
        s = z3.Solver(); s.set('timeout', timeout_ms)
        s.add(*assertions); s.add(z3.Not(goal))
        r = s.check()
    dt = time.time() - t
    stats['z3'] += 1; stats['z3_s'] += dt
    if r == z3.unsat: return 'proved', 'z3', dt, None
    if r == z3.sat: return 'refuted', 'z3', dt, s.model()
    reason = s.reason_unknown()
    # polynomial goals
    t2 = time.time()
    try:
        tac = z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat') if False else z3.Tactic('smt')
        s2 = z3.SolverFor('QF_NRA'); s2.set('timeout', timeout_ms)
        if not has_quant(assertions) and not has_quant([goal]):
            s2.add(*assertions); s2.add(z3.Not(goal))
            r2 = s2.check()
            if r2 == z3.unsat: return 'proved', 'z3-nra', time.time() - t, None
    except z3.Z3Exception: pass
    stats['z3_s'] += time.time() - t2
    if use_cvc5:
        t3 = time.time()
        r3 = cvc5(assertions, goal, timeout_ms)
        stats['cvc5'] += 1; stats['cvc5_s'] += time.time() - t3
        if r3 == 'unsat': return 'proved', 'cvc5', time.time() - t, None
    return 'unknown', 'z3', time.time() - t, reason

class PolyUF:
    """products and quotients of reals as sums of monomials over uninterpreted products: equal polynomials become equal terms
    (sound: every rewriting step is an identity of the reals, with x / 0 and inv(0) left unspecified)"""
    def __init__(self):
        self.mul = z3.Function('rmul!', z3.RealSort(), z3.RealSort(), z3.RealSort()); self.inv = z3.Function('rinv!', z3.RealSort(), z3.RealSort())
        self.memo = {}; self.pm = {}; self.invs = {}; self.used = False; self.keep = []
    def form(self, t):
        """rewrite a (boolean or other) term"""
        k = t.get_id()
        if k in self.memo: return self.memo[k]
        if z3.is_quantifier(t) or z3.is_var(t): r = t
        elif t.sort() == z3.RealSort() and self.arith(t): r = self.build(self.poly(t))
        elif not t.children(): r = t
        else: r = t.decl()(*[self.form(c) for c in t.children()])
        self.keep.append(t); self.memo[k] = r
        return r
    def arith(self, t): return z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_POWER)
    def poly(self, t):
        """{sorted tuple of atoms: coefficient}"""
        k = t.get_id()
        if k in self.pm: return self.pm[k]
        self.keep.append(t)
        if z3.is_rational_value(t): r = {(): t.as_fraction()} if t.as_fraction() != 0 else {}
        elif not self.arith(t): r = {(self.atom(self.form(t) if t.children() else t),): Fraction(1)}
        else:
            op = t.decl().kind(); c = t.children()
            if op == z3.Z3_OP_ADD: r = self.sum([self.poly(x) for x in c])
            elif op == z3.Z3_OP_SUB: r = self.sum([self.poly(c[0])] + [self.scale(self.poly(x), -1) for x in c[1:]])
            elif op == z3.Z3_OP_UMINUS: r = self.scale(self.poly(c[0]), -1)
            elif op == z3.Z3_OP_MUL:
                r = {(): Fraction(1)}
                for x in c: r = self.times(r, self.poly(x))
            elif op == z3.Z3_OP_DIV: r = self.times(self.poly(c[0]), self.recip(self.poly(c[1])))
            elif op == z3.Z3_OP_POWER and z3.is_rational_value(c[1]) and c[1].as_fraction().denominator == 1 and 0 < c[1].as_fraction() < 6:
                r = {(): Fraction(1)}
                for _ in range(int(c[1].as_fraction())): r = self.times(r, self.poly(c[0]))
            else: r = {(self.atom(t),): Fraction(1)}
        self.pm[k] = r
        return r
    def atom(self, t):
        self.keep.append(t); self.atoms = getattr(self, 'atoms', {}); self.atoms[t.get_id()] = t
        return t.get_id()
    def sum(self, ps):
        r = {}
        for p in ps:
            for m, c in p.items():
                r[m] = r.get(m, 0) + c
        return {m: c for m, c in r.items() if c != 0}
    def scale(self, p, f): return {m: c * f for m, c in p.items()}
    def times(self, p, q):
        if len(p) * len(q) > 400: raise OverflowError
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                k = tuple(sorted(m + n)); r[k] = r.get(k, 0) + c * d
                if len(k) > 1: self.used = True
        return {m: c for m, c in r.items() if c != 0}
    def recip(self, p):
        if list(p) == [()]: return {(): 1 / p[()]}
        if not p: raise OverflowError     # division by the constant zero
        if len(p) == 1:     # 1/(c a b) = 1/c 1/a 1/b : holds with inv(0) any value only when the factors are not zero
            pass
        lead = p[min(p)]; q = self.scale(p, 1 / lead)
        key = tuple(sorted(q.items()))
        if key not in self.invs:
            t = self.inv(self.build(q)); self.atom(t); self.invs[key] = (t, q)
        self.used = True
        return {(self.invs[key][0].get_id(),): 1 / lead}
    def build(self, p):
        ts = []
        for m, c in sorted(p.items()):
            if not m: ts.append(z3.RealVal(c)); continue
            t = self.atoms[m[-1]]
            for a in reversed(m[:-1]): t = self.mul(self.atoms[a], t)
            ts.append(t if c == 1 else z3.RealVal(c) * t)
        return z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(*ts)
    def facts(self):
        out = []
        for k, (t, q) in list(self.invs.items()):
            out.append(z3.Or(self.build(q) == 0, self.build(self.times(q, {(t.get_id(),): Fraction(1)})) == 1))
        return out

def polyuf(assertions, goal, ms):
    """-> True if proved with products and quotients normalised"""
    try:
        P = PolyUF()
        fs = [P.form(a) for a in assertions]; g = P.form(skolem(goal, True))
        if not P.used: return False
        fs += P.facts() + P.facts()
    except (OverflowError, z3.Z3Exception, KeyError, AttributeError): return False
    s = z3.SimpleSolver(); s.set('timeout', ms); s.set('smt.mbqi', False); s.set('smt.arith.nl', False)
    s.add(*fs); s.add(g)
    return s.check() == z3.unsat

def structuf(assertions, goal, ms):
    """-> True if proved with every nonlinear product and quotient an uninterpreted function of its factors (sound: only congruence is used)"""
    mul = z3.Function('smul!', z3.RealSort(), z3.RealSort(), z3.RealSort()); div = z3.Function('sdiv!', z3.RealSort(), z3.RealSort(), z3.RealSort())
    memo = {}; keep = []; used = [False]
    def form(t):
        k = t.get_id()
        if k in memo: return memo[k]
        keep.append(t)
        if z3.is_quantifier(t) or z3.is_var(t) or not t.children(): r = t
        else:
            cs = [form(c) for c in t.children()]; op = t.decl().kind()
            if op == z3.Z3_OP_MUL and t.sort() == z3.RealSort():
                nums = [c for c in cs if z3.is_rational_value(c)]; vs = [c for c in cs if not z3.is_rational_value(c)]
                r = None
                for c in reversed(vs): r = c if r is None else mul(c, r)
                if len(vs) > 1: used[0] = True
                for c in nums: r = c * r if r is not None else c
            elif op == z3.Z3_OP_DIV and not z3.is_rational_value(cs[1]): used[0] = True; r = div(*cs)
            else: r = t.decl()(*cs)
        memo[k] = r; return r
    try: fs = [form(a) for a in assertions]; g = form(skolem(goal, True))
    except z3.Z3Exception: return False
    if not used[0]: return False
    s = z3.SimpleSolver(); s.set('timeout', ms); s.set('smt.mbqi', False); s.set('smt.arith.nl', False)
    s.add(*fs); s.add(g)
    return s.check() == z3.unsat

def has_quant(fs):
    seen = set()
    st = list(fs)
    while st:
        f = st.pop()
        if f.get_id() in seen: continue
        seen.add(f.get_id())
        if z3.is_quantifier(f): return True
        st.extend(f.children())
    return False

def cvc5(assertions, goal, timeout_ms):
    s = z3.Solver(); s.add(*assertions); s.add(z3.Not(goal))
    txt = '(set-logic ALL)\n' + s.to_smt2()
    if 'lambda' in txt: return 'unknown'
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt); p = f.name
    try:
        r = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, p], capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        return r.stdout.strip().split('\n')[0] if r.stdout.strip() else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(p)
