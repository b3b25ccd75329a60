"""C10: the state vector faithfully carries every state variable and its derivative."""
from .blocks import *
from .c08 import cnt, cnt_axioms, RA
from .c09 import total, total1, sums, II, lemma_axioms
SB = 'pooya::SimulatorBase'; SSI = 'pooya::ScalarSignalImpl'; ASI = 'pooya::ArraySignalImpl'
VSV, SSV, ASV = SB + '::value_signals_', SB + '::scalar_state_signals_', SB + '::array_state_signals_'
ST, STO, STD = SB + '::_state_variables', SB + '::_state_variables_orig', SB + '::_state_variable_derivs'
DER = {SSI: 'pooya::FloatSignalImplT<double>::_deriv_sig', ASI: 'pooya::FloatSignalImplT<Array>::_deriv_sig'}
THIS = z3.Const('this', Ref); FB = z3.ArraySort(Ref, B); RI = z3.ArraySort(Ref, I)
X0 = z3.Const('sk:signal', Ref); K0, J0 = z3.Const('sk:which', I), z3.Const('sk:place', I)
def refs(e, key, st=None):
    """elements and length of one of the collected lists"""
    v = e.get(e.obj(THIS, SB), key, st)
    return [x for p, x in v.lv.items() if p[0] == '[]' and x.sort() == RA][0], v.lv[('#len',)]
def asg(e, st=None): return e.heap_get((ASG,), FB, st)
def sval(e, st=None): return e.heap_get((vkey('double'),), z3.ArraySort(Ref, R), st)
def aval(e, x, st=None):
    v = e.get(e.obj(x, ASI), AV, st); return v.lv[('[]',)], v.lv[('#len',)]
def deriv(e, x, cls, st=None): return select(e.heap_get((DER[cls],), z3.ArraySort(Ref, Ref), st), x)
def asize(e, x): return select(e.heap_get((ASZ,), RI), x)

# sets of array signals ----------------------------------------------------------------------------------------------------
SIZES = z3.Const('gh:sizes', RI)          # the size of every array signal
setsum = z3.Function('setsum', FB, I)
listsum = z3.Function('listsum', RA, I, I); listsum0 = z3.Function('listsum0', RA, I, I)
H_, A_, x_, v_, n_, m_ = z3.Const('q:H', FB), z3.Const('q:A', RA), z3.Const('q:x', Ref), z3.Const('q:v', Ref), z3.Const('q:n', I), z3.Const('q:m', I)
def sum_defs(e):
    return [setsum(z3.K(Ref, z3.BoolVal(False))) == 0,
            z3.ForAll([H_, x_], z3.Implies(z3.Not(z3.Select(H_, x_)), setsum(z3.Store(H_, x_, T_)) == setsum(H_) + z3.Select(SIZES, x_)), patterns=[setsum(z3.Store(H_, x_, T_))]),
            z3.ForAll([A_, n_], z3.And(listsum(A_, n_) == listsum0(A_, n_), listsum(A_, n_) == z3.If(n_ <= 0, 0, listsum0(A_, n_ - 1) + z3.Select(SIZES, z3.Select(A_, n_ - 1)))), patterns=[listsum(A_, n_)])]
def exactly(A, n, H): return z3.ForAll([x_], cnt(A, n, x_) == z3.If(z3.Select(H, x_), 1, 0), patterns=[cnt(A, n, x_)])
def enum_sum(A, n, H): return z3.Implies(z3.And(n >= 0, exactly(A, n, H)), listsum(A, n) == setsum(H))
@target('C10', 'lemma: a set sums up like any list of its elements', axioms=lambda e: sum_defs(e) + [cnt_axioms(e)[0]] + lemma_axioms(['occurrences are not negative']), covers=('ok',))
def lemma_sum(e):
    A, n, H, x = z3.Const('lem:A', RA), z3.Const('lem:n', I), z3.Const('lem:H', FB), z3.Const('lem:x', Ref)
    e.prove('holds for no elements', z3.Implies(exactly(A, z3.IntVal(0), H), z3.And(listsum(A, 0) == 0, H == z3.K(Ref, z3.BoolVal(False)))))
    a = z3.Select(A, n - 1); H1 = z3.Store(H, a, z3.BoolVal(False))
    given = z3.And(n > 0, exactly(A, n, H), cnt(A, n, a) == z3.Const('lem:c', I), cnt(A, n - 1, a) == z3.Const('lem:b', I), cnt(A, n, x) == z3.Const('lem:d', I))     # (names the terms of interest)
    e.prove('the last element is in the set', z3.Implies(given, z3.Select(H, a)))
    e.prove('the set without the last element is the shorter list', z3.Implies(given, cnt(A, n - 1, x) == z3.If(z3.Select(H1, x), 1, 0)))
    e.prove('and the set is that with the last element', z3.Implies(z3.Select(H, a), z3.And(H == z3.Store(H1, a, T_), z3.Not(z3.Select(H1, a)))))
    H2 = z3.Const('lem:H1', FB)
    e.prove('holds for one more element', z3.Implies(z3.And(n > 0, z3.Not(z3.Select(H2, a)), listsum(A, n - 1) == setsum(H2)), listsum(A, n) == setsum(z3.Store(H2, a, T_))))
    e.cover('ok')
l_ = z3.Const('q:l', II)
def grow(n, m): return z3.Implies(z3.And(m >= 0, m <= n, z3.ForAll([z3.Const('q:i', I)], z3.Select(l_, z3.Const('q:i', I)) >= 0, patterns=[z3.Select(l_, z3.Const('q:i', I))])), total(l_, m) <= total(l_, n))
@target('C10', 'lemma: sums grow', axioms=sums, covers=('ok',))
def lemma_grow(e):
    n, m, l = z3.Const('lem:n', I), z3.Const('lem:m', I), z3.Const('lem:l', II)
    g = lambda k: z3.substitute(grow(k, m), (l_, l))
    e.prove('holds for no elements', z3.Implies(n <= 0, g(n)))
    e.prove('holds for one more element', z3.Implies(z3.And(n > 0, g(n - 1)), g(n))); e.cover('ok')
def grow_ax():
    return [z3.ForAll([l_, n_, m_], grow(n_, m_), patterns=[z3.MultiPattern(total(l_, n_), total(l_, m_))])]

# collecting -----------------------------------------------------------------------------------------------------------------
LINKED = z3.Const('gh:linked', FB); WB, WL = z3.Const('gh:wb', RI), z3.Const('gh:wl', RI)      # linked to a block of the model; the first block and link with it
def links_of(e, k, st=None):
    S = e.heap_get((LS, '[]', 'first'), z3.ArraySort(Ref, RA), st); n = e.heap_get((LS, '#len'), RI, st)
    b = z3.Select(MB, k); return z3.Select(S, b), z3.Select(n, b)
def linked_def(e):
    k, j = z3.Consts('q:k q:j', I); S, n = links_of(e, k); x = z3.Select(S, j); w = z3.Select(WB, x_)
    Sw, nw = links_of(e, w)
    e.assume(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < MN, j >= 0, j < n), z3.And(z3.Select(LINKED, x), z3.Or(z3.Select(WB, x) < k, z3.And(z3.Select(WB, x) == k, z3.Select(WL, x) <= j)))), patterns=[x]))
    e.assume(z3.ForAll([x_], z3.Implies(z3.Select(LINKED, x_), z3.And(w >= 0, w < MN, z3.Select(WL, x_) >= 0, z3.Select(WL, x_) < nw, z3.Select(Sw, z3.Select(WL, x_)) == x_)), patterns=[z3.Select(LINKED, x_)]))
ASTATES = z3.Const('gh:array_states', FB)
def is_state(e, x, cls): return z3.And(z3.Select(LINKED, x), isa_fn(cls)(x), deriv(e, x, cls) != null)
def init_hint(L):
    e = L.eng; out = []
    kv = [c for c, g, d, i in L.syms if c.sort() == I and i[0] == 'L']
    sets = [(i[1], c, g) for c, g, d, i in L.syms if i[0] == 'S' and i[2] == ('#has',) and c.sort() == FB]
    # sets while visiting: which of the two loops are we in
    bidx = None
    for fr in reversed(e.frames):
        pass
    inner = [k for k in L.counters if k.cont is not None and k.cont.steps and k.cont.steps[-1][1] == LS]
    outers = [k for k in L.counters if k.cont is None and not k.desc.startswith('H')]
    before = []
    for k in inner:
        b = k.cont.root[1]; p = z3.Select(MPOS, b)
        before.append(lambda x, p=p, k=k: z3.And(z3.Select(LINKED, x), z3.Or(z3.Select(WB, x) < p, z3.And(z3.Select(WB, x) == p, z3.Select(WL, x) < k.cur))))
    if not inner:
        for k in outers: before.append(lambda x, k=k: z3.And(z3.Select(LINKED, x), z3.Select(WB, x) < k.cur))
    alls = [c for u, c, g in sets] or local_sets(e)
    mods = [c for u, c, g in sets]
    if not mods: before = []
    for H in alls:
        for f in before:
            out.append(('the signals so far', z3.ForAll([x_], z3.Select(H, x_) == f(x_), patterns=[z3.Select(H, x_)])))
            for cls in (SSI, ASI):
                out.append(('the %s states so far' % cls[7:13], z3.ForAll([x_], z3.Select(H, x_) == z3.And(f(x_), isa_fn(cls)(x_), deriv(e, x_, cls) != null), patterns=[z3.Select(H, x_)])))
    szs = local_set_sizes(e) if mods else []
    for c in kv:
        for (H, sz) in szs:
            for (H2, sz2) in szs:
                if not H.eq(H2): out.append(('as many entries as states so far', c == sz + setsum(H2)))
    # copying the sets
    for c, g, d, i in L.syms:
        if i[0] != 'E': continue
        en = i[2].enum
        for H in alls: out.append(('the set of array states', H == ASTATES))
        pos = [p for (en2, p) in e.st.enum.values() if en2.eq(en)]
        for key in (VSV, SSV, ASV):
            if not any(i2[0] in ('HR', 'HM') and i2[1][0] == key for c2, g2, d2, i2 in L.syms): continue
            A, n = refs(e, key); q = z3.Const('q:i', I)
            out.append(('copied so far', n == c))
            has = e.read_cont_has(i[2].cont)
            for p in pos: out.append(('each one once', z3.ForAll([x_], cnt(A, n, x_) == z3.If(z3.And(z3.Select(has, x_), z3.Select(p, x_) < c), 1, 0), patterns=[cnt(A, n, x_)])))
            out.append(('existing signals', z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(z3.Select(A, q) != null, z3.Select(LINKED, z3.Select(A, q)))), patterns=[z3.Select(A, q)])))
    A, n = refs(e, VSV)
    for c in kv:
        q = z3.Const('q:i', I)
        out.append(('cleared backwards so far', z3.And(c >= 0, c <= n, z3.ForAll([q], z3.Implies(z3.And(q >= c, q < n), z3.Not(z3.Select(asg(e), z3.Select(A, q)))), patterns=[z3.Select(A, q)]))))
        out.append(('cleared so far (by index)', z3.And(c >= 0, c <= n, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < c), z3.Not(z3.Select(asg(e), z3.Select(A, q)))), patterns=[z3.Select(A, q)]))))
    for k in L.counters:
        if k.cont is not None and k.cont.steps and k.cont.steps[-1][1] == VSV:
            out.append(('cleared so far', z3.ForAll([x_], z3.Implies(cnt(A, k.cur, x_) >= 1, z3.Not(z3.Select(asg(e), x_))), patterns=[z3.Select(asg(e), x_)])))
            out.append(('cleared the one', z3.Implies(cnt(A, k.cur, X0) >= 1, z3.Not(z3.Select(asg(e), X0)))))
    return out
def local_sets(e): return [H for H, s in local_set_sizes(e)]
def local_set_sizes(e):
    out = []
    for fr in e.frames:
        for i, loc in fr.env.items():
            if not isinstance(loc, Loc) or loc.root[0] != 'L' or loc.ty is None or loc.ty.k != 'uset': continue
            v = e.read(loc)
            if isinstance(v, SV) and v.lv[('#has',)].sort() == FB and not any(v.lv[('#has',)].eq(h) for h, s in out): out.append((v.lv[('#has',)], v.lv[('#size',)]))
    return out
@target('C10', 'SimulatorBase::init', covers=('ret',), hints=[init_hint], deep='hints', budget=400, contracts={**VISIT, **FULLN},
        axioms=lambda e: sum_defs(e) + [cnt_axioms(e)[0]] + lemma_axioms(['occurrences are not negative', 'later elements do not matter', 'an element occurs']) + [z3.ForAll([H_], z3.And(setsum(H_) >= 0, setsum(H_) < 2 ** 31), patterns=[setsum(H_)])])      # state vectors have fewer than 2^31 entries
def init(e):
    b = e.this('pooya::Simulator', exact=False)
    m = e.get(b, SB + '::_model'); model = m.root[1] if isinstance(m, Loc) else m
    e.assume(z3.And(model != null, aid(model) <= e.st.alloc)); e.type_fact(model, BK)
    model_seq(e, model); links_exist(e); linked_def(e)
    e.assume(e.heap_get((ASZ,), RI) == SIZES)
    e.assume(z3.ForAll([x_], z3.Select(ASTATES, x_) == is_state(e, x_, ASI), patterns=[z3.Select(ASTATES, x_)]))
    t0 = e.sym('t0', REAL); pre = e.snap()
    k, v = e.call(SB + '::init', b, [t0])
    must_return(e, k)
    if k != 'ret': return
    (VA, nV), (SA, nS), (AA, nA) = (refs(e, x) for x in (VSV, SSV, ASV))
    e.prove('every linked value signal is collected exactly once, and nothing else', cnt(VA, nV, X0) == z3.If(z3.Select(LINKED, X0), 1, 0))
    e.prove('every scalar state variable exactly once, and nothing else', cnt(SA, nS, X0) == z3.If(is_state(e, X0, SSI), 1, 0))
    e.prove('every array state variable exactly once, and nothing else', cnt(AA, nA, X0) == z3.If(is_state(e, X0, ASI), 1, 0))
    # lemma: the list of array states, proved above to hold exactly the array states, sums up like their set
    e.assume(listsum(AA, nA) == setsum(ASTATES))
    e.prove('all of them are cleared', z3.Implies(z3.Select(LINKED, X0), z3.Not(z3.Select(asg(e), X0))))
    for key in (ST, STO, STD):
        e.prove('one entry per scalar state and the length of each array state (%s)' % key[22:], e.get(b, key).lv[('#len',)] == nS + listsum(AA, nA))
    e.prove('time and state', z3.And(e.get(b, SB + '::_t_prev') == t0, e.get(b, SB + '::_initialized')))
    e.cover('ret')

# loading and reading -----------------------------------------------------------------------------------------------------------
VPOS, SPOS, APOS = z3.Const('gh:vpos', RI), z3.Const('gh:spos', RI), z3.Const('gh:apos', RI)
LENS = z3.Const('gh:lens', II)           # lengths of the array states in their order
def member(e, x, key, pos, st=None):
    A, n = refs(e, key, st); return z3.And(z3.Select(pos, x) >= 0, z3.Select(pos, x) < n, z3.Select(A, z3.Select(pos, x)) == x)
def layout(e, st=None):
    """what init establishes: the lists hold distinct existing signals, the states are among the value signals, the vector has one slice per state"""
    (VA, nV), (SA, nS), (AA, nA) = (refs(e, x) for x in (VSV, SSV, ASV)); i = z3.Const('q:i', I)
    e.assume(e.heap_get((ASZ,), RI) == SIZES)
    for A, n, pos, cls in ((VA, nV, VPOS, VS), (SA, nS, SPOS, SSI), (AA, nA, APOS, ASI)):
        x = z3.Select(A, i)
        e.assume(z3.And(n >= 0, n < 2 ** 31))
        own = z3.And(z3.Select(VPOS, x) >= 0, z3.Select(VPOS, x) < nV, z3.Select(VA, z3.Select(VPOS, x)) == x)
        e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(x != null, isa_fn(cls)(x), isa_fn(VS)(x), aid(x) <= e.st.alloc, z3.Select(pos, x) == i, own, *([deriv(e, x, cls) != null, isa_fn(cls)(deriv(e, x, cls)), aid(deriv(e, x, cls)) <= e.st.alloc] if cls != VS else []))), patterns=[x]))
    e.assume(z3.ForAll([i], z3.And(z3.Select(LENS, i) == z3.Select(SIZES, z3.Select(AA, i)), z3.Select(LENS, i) >= 0, z3.Select(LENS, i) < 2 ** 31), patterns=[z3.Select(LENS, i)]))
    av = e.heap_get((AV, '#len'), RI)
    e.assume(z3.ForAll([x_], z3.Implies(isa_fn(ASI)(x_), z3.Select(av, x_) == z3.Select(SIZES, x_)), patterns=[z3.Select(av, x_)]))      # arrays have their signal's size (C01)
    # scalar and array signals are different objects
    e.assume(z3.ForAll([x_], z3.Not(z3.And(isa_fn(SSI)(x_), isa_fn(ASI)(x_))), patterns=[isa_fn(SSI)(x_)]))
    N = nS + total(LENS, nA); e.assume(z3.And(N >= 0, N < 2 ** 31))
    return (VA, nV), (SA, nS), (AA, nA), N
def is_at(L, key):
    for k in L.counters:
        if k.cont is not None and k.cont.steps and k.cont.steps[-1][1] == key: return k.cur
    return None
def local_ints(L):
    """plain integer variables of the function that the loop changes"""
    return [c for c, g, d, i in L.syms if c.sort() == I and i[0] == 'L']
def roles(L, keys):
    """(list, position): the loop walks this list - by an iterator, or possibly by an index"""
    out = [(key, is_at(L, key)) for key in keys if is_at(L, key) is not None]
    return out or [(key, c) for key in keys for c in local_ints(L)]
def load_hint(L):
    e = L.eng; out = []; i = z3.Const('q:i', I)
    (VA, nV), (SA, nS), (AA, nA) = (refs(e, x) for x in (VSV, SSV, ASV))
    a = asg(e)
    vec = z3.Const('arg:state_variables/[]', z3.ArraySort(I, R))
    its = [k.cur for k in L.counters if k.cont is not None and not (k.cont.steps and k.cont.steps[-1][1] in (VSV, SSV, ASV))] + local_ints(L)
    def unassigned(A, lo, hi): return z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), z3.Not(z3.Select(a, z3.Select(A, i)))), patterns=[z3.Select(A, i)])
    def in_(A, n, pos): return z3.And(z3.Select(pos, X0) >= 0, z3.Select(pos, X0) < n, z3.Select(A, z3.Select(pos, X0)) == X0)
    for key, cur in roles(L, (VSV, SSV, ASV)):
        v, s, r = (cur if key == x else None for x in (VSV, SSV, ASV))
        if v is not None: out.append(('cleared so far', unassigned(VA, 0, v))); out.append(('cleared backwards so far', z3.And(v >= 0, v <= nV, unassigned(VA, v, nV)))); continue
        c = s if s is not None else nS
        out.append(('scalar states to do', unassigned(SA, c, nS)))
        out.append(('array states to do', unassigned(AA, 0 if r is None else r, nA)))
        got = in_(SA, c, SPOS) if r is None else z3.Or(in_(SA, c, SPOS), in_(AA, r, APOS))
        out.append(('assigned exactly the states so far', z3.Implies(in_(VA, nV, VPOS), z3.Select(a, X0) == got)))
        out.append(('slice of a scalar', z3.Implies(z3.And(K0 >= 0, K0 < c), select(sval(e), z3.Select(SA, K0)) == z3.Select(vec, K0))))
        for k in its: 
            if not k.eq(cur): out.append(('position in the vector', k == (s if r is None else nS + total(LENS, r))))
        if r is not None:
            A, n = aval(e, z3.Select(AA, K0))
            out.append(('slice of an array', z3.Implies(z3.And(K0 >= 0, K0 < r, J0 >= 0, J0 < n), z3.Select(A, J0) == z3.Select(vec, nS + total(LENS, K0) + J0))))
            lens = e.heap_get((AV, '#len'), RI)
            out.append(('arrays keep their size', z3.ForAll([x_], z3.Implies(isa_fn(ASI)(x_), z3.Select(lens, x_) == z3.Select(SIZES, x_)), patterns=[z3.Select(lens, x_)])))
    return out
@target('C10', 'SimulatorBase::reset_with_state_variables', covers=('ret',), hints=[load_hint], deep='hints', contracts=FULLN, axioms=lambda e: sums(e) + grow_ax())
def load(e):
    b = e.this('pooya::Simulator', exact=False)
    (VA, nV), (SA, nS), (AA, nA), N = layout(e)
    v = e.sym('state_variables', ARR); e.assume(v.lv[('#len',)] == N)
    x = e.new_local(v, ARR); pre = e.snap()
    k, _ = e.call(SB + '::reset_with_state_variables', b, [x])
    must_return(e, k)
    if k != 'ret': return
    V = v.lv[('[]',)]
    st = z3.Or(member(e, X0, SSV, SPOS), member(e, X0, ASV, APOS))
    e.prove('of the collected signals exactly the states are assigned', z3.Implies(member(e, X0, VSV, VPOS), z3.Select(asg(e), X0) == st))
    e.prove('each scalar state has its entry', z3.Implies(z3.And(K0 >= 0, K0 < nS), select(sval(e), select(SA, K0)) == select(V, K0)))
    A, n = aval(e, select(AA, K0))
    e.prove('each array state has its slice', z3.Implies(z3.And(K0 >= 0, K0 < nA, J0 >= 0, J0 < select(LENS, K0)), z3.And(n == select(LENS, K0), select(A, J0) == select(V, nS + total(LENS, K0) + J0))))
    e.cover('ret')

def gather_hint(srcs):
    """srcs(e, x, cls): the signal whose value is gathered for state x"""
    def hint(L):
        e = L.eng; out = []
        (VA, nV), (SA, nS), (AA, nA) = (refs(e, x) for x in (VSV, SSV, ASV))
        its = [k for k in L.counters if k.cont is not None and not (k.cont.steps and k.cont.steps[-1][1] in (SSV, ASV))]
        vecs = []
        for k in its:
            v = e.read(k.cont); vecs.append((v.lv[('[]',)], v.lv[('#len',)]))
        if not its:     # written by index: the arrays of reals that the loop changes
            ln = {i[1]: c for c, g, d, i in L.syms if i[0] == 'S' and i[2] == ('#len',)}
            for c, g, d, i in L.syms:
                if c.sort() == z3.ArraySort(I, R): vecs.append((c, ln.get(i[1]) if i[0] == 'S' else None))
        for key, cur in roles(L, (SSV, ASV)):
            s, r = (cur if key == x else None for x in (SSV, ASV))
            c = s if s is not None else nS
            for k in [k.cur for k in its] + local_ints(L):
                if not k.eq(cur): out.append(('position in the vector', k == (s if r is None else nS + total(LENS, r))))
            for V, n in vecs:
                if n is not None: out.append(('the vector keeps its length', n == nS + total(LENS, nA)))
                out.append(('entry of a scalar', z3.Implies(z3.And(K0 >= 0, K0 < c), select(V, K0) == select(sval(e), srcs(e, select(SA, K0), SSI)))))
                if r is not None:
                    A, n = aval(e, srcs(e, select(AA, K0), ASI))
                    out.append(('slice of an array', z3.Implies(z3.And(K0 >= 0, K0 < r, J0 >= 0, J0 < select(LENS, K0)), z3.And(select(V, nS + total(LENS, K0) + J0) == select(A, J0), total(LENS, K0) >= 0, total(LENS, K0) + select(LENS, K0) <= total(LENS, r)))))
        return out
    return hint
def gathered(e, name, V, N, srcs):
    (VA, nV), (SA, nS), (AA, nA) = (refs(e, x) for x in (VSV, SSV, ASV))
    arr, n = V
    e.prove('%s: as long as the state vector' % name, n == N)
    e.prove('%s: entry of each scalar state' % name, z3.Implies(z3.And(K0 >= 0, K0 < nS), select(arr, K0) == select(sval(e), srcs(e, select(SA, K0), SSI))))
    A, m = aval(e, srcs(e, select(AA, K0), ASI))
    e.prove('%s: slice of each array state' % name, z3.Implies(z3.And(K0 >= 0, K0 < nA, J0 >= 0, J0 < select(LENS, K0)), select(arr, nS + total(LENS, K0) + J0) == select(A, J0)))
SELF = lambda e, x, cls: x
def states_assigned(e, srcs):
    (SA, nS), (AA, nA) = (refs(e, x) for x in (SSV, ASV)); i = z3.Const('q:i', I)
    for A, n, cls in ((SA, nS, SSI), (AA, nA, ASI)):
        e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(asg(e), srcs(e, z3.Select(A, i), cls))), patterns=[z3.Select(A, i)]))
@target('C10', 'SimulatorBase::get_state_variables', covers=('ret',), hints=[gather_hint(SELF)], deep='hints', contracts=FULLN, axioms=lambda e: sums(e) + grow_ax())
def read_back(e):
    b = e.this('pooya::Simulator', exact=False)
    (VA, nV), (SA, nS), (AA, nA), N = layout(e); states_assigned(e, SELF)
    e.assume(e.get(b, ST).lv[('#len',)] == N)
    v = e.sym('out', ARR); e.assume(v.lv[('#len',)] == N)
    x = e.new_local(v, ARR); pre = e.snap()
    k, _ = e.call(SB + '::get_state_variables', b, [x])
    must_return(e, k)
    if k != 'ret': return
    w = e.read(x)
    gathered(e, 'reading back', (w.lv[('[]',)], w.lv[('#len',)]), N, SELF)
    frame_same(e, 'reading back', pre); e.cover('ret')

DERIV = lambda e, x, cls: deriv(e, x, cls)
K_RESET, K_PASS = 20, 21
def k_reset(e, this, args, node):
    if e.st.extra.get('X') is None: havoc_signals(e); return None
    emit(e, K_RESET, e.addr(this)); v = e.read(args[0])
    e.prove('the given state is loaded', z3.BoolVal(isinstance(args[0], Loc) and e.st.extra.get('X') is not None and args[0].same(e.st.extra['X'])))
    havoc_signals(e); return None
def k_model(e, this, args, node):
    if e.st.extra.get('X') is None: havoc_signals(e); return None
    t, p, q = (e.read(a) if isinstance(a, Loc) else a for a in args)
    emit(e, K_PASS, e.addr(this), t)
    e.prove('without pre-step', z3.Not(p)); e.prove('without post-step', z3.Not(q))
    havoc_signals(e); arrays_sized(e); states_assigned(e, DERIV)
    return None
def arrays_sized(e):
    av = e.heap_get((AV, '#len'), RI)
    e.assume(z3.ForAll([x_], z3.Implies(isa_fn(ASI)(x_), z3.Select(av, x_) == z3.Select(SIZES, x_)), patterns=[z3.Select(av, x_)]))
def k_step(e, this, args, node):
    """the stepper may call the derivative function at any time and state: check one arbitrary call"""
    cb = e.read(args[0]) if isinstance(args[0], Loc) else args[0]
    if e.quiet:
        for a in (args[4], args[5]): e.write(a, e.fresh_sv('step', ARR) if a.ty.k == 'arr' else e.fresh('newh', R))
        havoc_signals(e); return None
    if not isinstance(cb, Closure): raise Unsupported('derivative function %r' % (cb,))
    b = e.obj(THIS, SB)
    (SA, nS), (AA, nA) = (refs(e, x) for x in (SSV, ASV)); N = nS + total(LENS, nA)
    X = e.new_local(e.sym('X', ARR), ARR); tt = e.sym('tt', REAL)
    e.assume(e.read(X).lv[('#len',)] == N); e.assume(e.get(b, STD).lv[('#len',)] == N); arrays_sized(e)
    e.st.extra['X'] = X
    n0 = tr(e, TRN); e.assume(n0 >= 0)
    r = e.call_closure(cb, [tt, X], node)
    n = tr(e, TRN)
    e.prove('loads the state, then evaluates the model at the given time', z3.And(n == n0 + 2, call_is(e, n0, K_RESET, THIS), call_is(e, n0 + 1, K_PASS, THIS, tt)))
    if isinstance(r, Loc) or isinstance(r, SV):
        v = e.read(r) if isinstance(r, Loc) else r
        gathered(e, 'derivative', (v.lv[('[]',)], v.lv[('#len',)]), N, DERIV)
    else: raise Unsupported('derivative vector')
    e.cover('derivative'); e.st.extra['cover'] = e.st.extra.get('cover', ())
    raise ReturnEx(None)
PASSIVE = {'callback': lambda e, f, args, node: havoc_signals(e), 'virtual ' + BK + '::input_cb': lambda e, this, args, node: havoc_signals(e), 'virtual ' + BK + '::pre_step': lambda e, this, args, node: havoc_signals(e), 'virtual ' + BK + '::post_step': lambda e, this, args, node: havoc_signals(e)}
def k_get(e, this, args, node):
    v = e.fresh_sv('got', ARR); e.write(args[0], v); return None
@target('C10', 'derivative function handed to the stepper', covers=('derivative',), hints=[gather_hint(DERIV)], deep='hints', axioms=lambda e: sums(e) + grow_ax(),
        contracts={**FULLN, **PASSIVE, SB + '::reset_with_state_variables': k_reset, 'virtual ' + SB + '::process_model': k_model, SB + '::get_state_variables': k_get, 'virtual pooya::StepperBase::step': k_step,
                   'virtual ' + SB + '::init': lambda e, this, args, node: None})
def derivative(e):
    b = e.this('pooya::Simulator', exact=False)
    (VA, nV), (SA, nS), (AA, nA), N = layout(e); i = z3.Const('q:i', I)
    for A, n, cls in ((SA, nS, SSI), (AA, nA, ASI)):      # a derivative signal has its state's size (C02)
        x = z3.Select(A, i); e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(SIZES, deriv(e, x, cls)) == z3.Select(SIZES, x)), patterns=[z3.Select(A, i)]))
    e.assume(e.get(b, ST).lv[('#len',)] == N)
    e.call(SB + '::run', b, [e.sym('t', REAL), e.sym('hmin', REAL), e.sym('hmax', REAL)])

also('C10', 'C02', 'FloatSignalImplT<double>::set_deriv_signal', 'FloatSignalImplT<Array>::set_deriv_signal')

META = {'assumptions': ['a signal is of one value type; the size of an array signal never changes (C01) and derivatives have the size of their state (C02)', 'total number of state elements below 2^31']}
