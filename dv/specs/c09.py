"""C09: the fast simulator fixes a valid order of all leaf blocks or refuses the model."""
from .blocks import *
from .c08 import cnt, cnt0, cnt_axioms, RA
FS = 'pooya::FastSimulator'; SB = 'pooya::SimulatorBase'
PO = FS + '::_processing_order'
THIS = z3.Const('this', Ref)
II = z3.ArraySort(I, I)
total = z3.Function('total', II, I, I)
I0, J0 = z3.Const('sk:wave', I), z3.Const('sk:place', I)
def waves(e, st=None):
    """lists, their lengths, their number"""
    v = e.get(e.obj(THIS, FS), PO, st)
    return v.lv[('[]', '[]')], v.lv[('[]', '#len')], v.lv[('#len',)]
def entry(e, i, j, st=None):
    A, l, n = waves(e, st); return select(select(A, i), j)
def setup(e):
    b = e.this(FS, exact=True)
    m = e.get(b, SB + '::_model'); model = m.root[1] if isinstance(m, Loc) else m
    e.assume(z3.And(model != null, aid(model) <= e.st.alloc)); e.type_fact(model, BK)
    model_seq(e, model)
    cb = z3.Const('sim:cb', Fn)
    e.assume(e.get(b, SB + '::_inputs_cb') == cb)
    e.assume(tr(e, TRN) >= 0); links_exist(e)
    return b, model, cb
def k_icb(e, f, args, node):
    e.prove('it is the input callback', f == z3.Const('sim:cb', Fn))
    t = e.read(args[1]) if isinstance(args[1], Loc) else args[1]
    emit(e, K_CB, e.addr(args[0]) if isinstance(args[0], Loc) else args[0], t); havoc_signals(e)
    return None
PASS = {'callback': k_icb, 'virtual ' + BK + '::input_cb': k_input, **VISIT, **FULLN}

# the sum of the first n list lengths, with one unfolding at the places where it is needed (a ghost function, defined by recursion)
def unfold(e, l, n): return z3.And(total(l, z3.IntVal(0)) == 0, z3.Implies(n >= 0, total(l, n + 1) == total(l, n) + select(l, n)))
def run_hint(L):
    e = L.eng; out = []
    pre = L.pre; A, l, n = waves(e)
    n0 = tr(e, TRN, pre); m = tr(e, TRN); i = z3.Const('q:i', I)
    base = z3.Const('gh:base', I); t = z3.Const('arg:t', R)
    out.append(('old calls stay', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n0), z3.And(*[z3.Select(tr(e, k), i) == z3.Select(tr(e, k, pre), i) for k in (TRK, TRO, TRT)])), patterns=[z3.Select(tr(e, TRK), i)])))
    out.append(('only activations, with the time', z3.ForAll([i], z3.Implies(z3.And(i >= base, i < m), z3.And(z3.Select(tr(e, TRK), i) == K_ACT, z3.Select(tr(e, TRT), i) == t)), patterns=[z3.Select(tr(e, TRK), i)])))
    act = z3.And(select(tr(e, TRO), base + total(l, I0) + J0) == entry(e, I0, J0), base + total(l, I0) + J0 >= base, base + total(l, I0) + J0 < m)
    its = [k for k in L.counters if k.cont is not None]
    inner = [(k.cont.steps[-1][1], k.cur) for k in its if k.cont.ty.k == 'vec' and k.cont.steps and k.cont.steps[-1][0] == 'i']
    outer = [k.cur for k in its if not (k.cont.ty.k == 'vec' and k.cont.steps and k.cont.steps[-1][0] == 'i')]
    if not its:         # positions are plain integers
        ints = [c for c, g, d, info in L.syms if c.sort() == I and info[0] == 'L']
        outer = ints; inner = [(w, c) for c in ints for w in local_ints(e) if not w.eq(c)]
    for w, c in inner:          # inside a list
        out.append(('one call per leaf of the list', m == base + total(l, w) + c))
        out.append(('the leaf of the list', z3.Implies(z3.And(J0 >= 0, z3.Or(z3.And(I0 >= 0, I0 < w, J0 < select(l, I0)), z3.And(I0 == w, J0 < c))), act)))
    for c in outer:
        out.append(('all calls of the lists so far', m == base + total(l, c)))
        out.append(('the leaves of the lists so far', z3.Implies(z3.And(J0 >= 0, I0 >= 0, I0 < c, J0 < select(l, I0)), act)))
    return out
def sums(e):
    l = z3.Const('q:l', II); n, m = z3.Consts('q:n q:m', I)
    return [z3.ForAll([l, n], z3.And(z3.Implies(n <= 0, total(l, n) == 0), z3.Implies(n > 0, total(l, n) == total1(l, n - 1) + z3.Select(l, n - 1)), total1(l, n) == total(l, n)), patterns=[total(l, n)])]
total1 = z3.Function('total1', II, I, I)

def mk_pass(hascb, p):
    @target('C09', 'FastSimulator::process_model%s%s' % (', with input callback' if hascb else '', ', with pre-step' if p else ''), hints=[run_hint], covers=('post', 'no post'), axioms=sums,
            contracts={**PASS, **HOOKS})
    def run_pass(e):
        b, model, cb = setup(e)
        e.assume((cb != fnnull) if hascb else (cb == fnnull))
        A, l, n = waves(e); i, j = z3.Consts('q:i q:j', I)
        # the lists hold existing leaves (established by init)
        e.assume(n >= 0)
        e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(l, i) >= 0), patterns=[z3.Select(l, i)]))
        x = z3.Select(z3.Select(A, i), j)
        e.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < z3.Select(l, i)), z3.And(x != null, aid(x) <= e.st.alloc)), patterns=[x]))
        t, q = e.sym('t', REAL), e.sym('post', BOOL); P = z3.BoolVal(p)
        n0 = tr(e, TRN); base = z3.Const('gh:base', I)
        e.assume(base == n0 + (1 if hascb else 0) + 1 + (1 if p else 0))
        pre = e.snap()
        k, v = e.call(FS + '::process_model', b, [t, P, q])
        must_return(e, k)
        if k != 'ret': return
        if hascb: e.prove('first the input callback, with the model and the time', call_is(e, n0, K_CB, model, t))
        o = n0 + (1 if hascb else 0)
        e.prove('then the input hook', call_is(e, o, K_INPUT, model, t))
        if p: e.prove('then the pre-step', call_is(e, o + 1, K_PRE, model, t))
        e.prove('then every leaf of every list in order', z3.Implies(z3.And(I0 >= 0, I0 < n, J0 >= 0, J0 < select(l, I0)), call_is(e, base + total(l, I0) + J0, K_ACT, entry(e, I0, J0, pre), None)))
        e.prove('with the time of the pass', z3.Implies(z3.And(sk('ti', I) >= base, sk('ti', I) < base + total(l, n)), z3.And(select(tr(e, TRK), sk('ti', I)) == K_ACT, select(tr(e, TRT), sk('ti', I)) == t)))
        m = tr(e, TRN)
        e.prove('nothing else but the post-step if asked', m == base + total(l, n) + z3.If(q, 1, 0))
        e.prove('post-step last if asked', z3.Implies(q, call_is(e, m - 1, K_POST, model, t)))
        frame_obj(e, 'a pass', [null], pre, list(TRACE), [k for k, _ in SIG_STATE])
        e.cover('post' if e.choose(q) else 'no post')
for c_ in (False, True):
    for p_ in (False, True): mk_pass(c_, p_)

# ordering -------------------------------------------------------------------------------------------------------------------
FB = z3.ArraySort(Ref, B); RAA = z3.ArraySort(I, RA)
marked = z3.Function('marked', FB, RA, I, I); marked0 = z3.Function('marked0', FB, RA, I, I)
placed = z3.Function('placed', RAA, II, I, Ref, I); placed0 = z3.Function('placed0', RAA, II, I, Ref, I)
LEAFS = z3.Const('leafs', FB)
B0 = z3.Const('sk:block', Ref)
READY = 'ghost::ready'
def defs():
    """marked(F, A, n): how many of the first n elements of A have flag F; placed(A, l, n, x): how often x occurs in the first n lists"""
    F = z3.Const('q:F', FB); A = z3.Const('q:A', RA); n = z3.Const('q:n', I); x = z3.Const('q:x', Ref); AA = z3.Const('q:AA', RAA); l = z3.Const('q:l', II)
    return [z3.ForAll([F, A, n], z3.And(marked(F, A, n) == marked0(F, A, n), marked(F, A, n) == z3.If(n <= 0, 0, marked0(F, A, n - 1) + z3.If(z3.Select(F, z3.Select(A, n - 1)), 1, 0))), patterns=[marked(F, A, n)]),
            z3.ForAll([AA, l, n, x], z3.And(placed(AA, l, n, x) == placed0(AA, l, n, x), placed(AA, l, n, x) == z3.If(n <= 0, 0, placed0(AA, l, n - 1, x) + cnt(z3.Select(AA, n - 1), z3.Select(l, n - 1), x))), patterns=[placed(AA, l, n, x)])]
# lemmas: name, variables of the statement besides n, statement(n), patterns(n); each is proved by induction over n below
FL_, A_, x_, v_, m_, l_, AA_, W_ = z3.Const('q:F', FB), z3.Const('q:A', RA), z3.Const('q:x', Ref), z3.Const('q:v', Ref), z3.Const('q:m', I), z3.Const('q:l', II), z3.Const('q:AA', RAA), z3.Const('q:W', RA)
k_ = z3.Const('q:k', I)
LEMMAS = [
    ('at most n marked', [FL_, A_], lambda n: z3.And(marked(FL_, A_, n) >= 0, z3.Implies(n >= 0, marked(FL_, A_, n) <= n)), lambda n: [marked(FL_, A_, n)]),
    ('occurrences are not negative', [A_, x_], lambda n: cnt(A_, n, x_) >= 0, lambda n: [cnt(A_, n, x_)]),
    ('marking one more', [FL_, A_, x_], lambda n: z3.Implies(z3.Not(z3.Select(FL_, x_)), marked(z3.Store(FL_, x_, T_), A_, n) == marked(FL_, A_, n) + cnt(A_, n, x_)), lambda n: [marked(z3.Store(FL_, x_, T_), A_, n)]),
    ('all marked', [FL_, A_, x_], lambda n: z3.Implies(z3.And(marked(FL_, A_, n) == n, cnt(A_, n, x_) > 0), z3.Select(FL_, x_)), lambda n: [z3.MultiPattern(marked(FL_, A_, n), cnt(A_, n, x_)), z3.MultiPattern(marked(FL_, A_, n), z3.Select(FL_, x_))]),
    ('none marked', [FL_, A_, x_], lambda n: z3.Implies(z3.And(marked(FL_, A_, n) == 0, cnt(A_, n, x_) > 0), z3.Not(z3.Select(FL_, x_))), lambda n: [z3.MultiPattern(marked(FL_, A_, n), cnt(A_, n, x_)), z3.MultiPattern(marked(FL_, A_, n), z3.Select(FL_, x_))]),
    ('an element occurs', [A_, k_], lambda n: z3.Implies(z3.And(k_ >= 0, k_ < n), cnt(A_, n, z3.Select(A_, k_)) >= 1), lambda n: [z3.MultiPattern(cnt(A_, n, z3.Select(A_, k_)))]),
    ('later elements do not matter', [A_, m_, v_, x_], lambda n: z3.Implies(n <= m_, cnt(z3.Store(A_, m_, v_), n, x_) == cnt(A_, n, x_)), lambda n: [cnt(z3.Store(A_, m_, v_), n, x_)]),
    ('later lists do not matter', [AA_, l_, m_, W_, k_, x_], lambda n: z3.Implies(n <= m_, placed(z3.Store(AA_, m_, W_), z3.Store(l_, m_, k_), n, x_) == placed(AA_, l_, n, x_)), lambda n: [placed(z3.Store(AA_, m_, W_), z3.Store(l_, m_, k_), n, x_)]),
    ('later lengths do not matter', [l_, m_, k_], lambda n: z3.Implies(n <= m_, total(z3.Store(l_, m_, k_), n) == total(l_, n)), lambda n: [total(z3.Store(l_, m_, k_), n)]),
]
def lemma_axioms(which):
    n = z3.Const('q:n', I); out = []
    for nm, vs, f, ps in LEMMAS:
        if nm not in which: continue
        out.append(z3.ForAll([*vs, n], f(n), patterns=ps(n)))
        if nm in ('later elements do not matter', 'later lists do not matter', 'later lengths do not matter'):      # also for the unfolded form
            sub = [(cnt(z3.Store(A_, m_, v_), n, x_), cnt0(z3.Store(A_, m_, v_), n, x_)), (placed(z3.Store(AA_, m_, W_), z3.Store(l_, m_, k_), n, x_), placed0(z3.Store(AA_, m_, W_), z3.Store(l_, m_, k_), n, x_)), (total(z3.Store(l_, m_, k_), n), total1(z3.Store(l_, m_, k_), n))]
            p = ps(n)[0]; q = [b for a, b in sub if a.eq(p)][0]
            out.append(z3.ForAll([*vs, n], z3.substitute(f(n), (p, q)), patterns=[q]))
    return out
def mk_lemma(nm, vs, f, ps):
    def ax(e):
        A = z3.Const('q:A', RA); n = z3.Const('q:n', I); x = z3.Const('q:x', Ref)
        return sums(e) + defs() + [cnt_axioms(e)[0]] + (lemma_axioms(['at most n marked', 'occurrences are not negative']) if nm in ('all marked', 'none marked', 'an element occurs') else [])
    @target('C09', 'lemma: ' + nm, axioms=ax, covers=('ok',))
    def lemma(e):
        cs = [z3.Const('lem:' + str(v), v.sort()) for v in vs]; n = z3.Const('lem:n', I)
        g = lambda k: z3.substitute(f(k), *zip(vs, cs))
        e.prove('holds for no elements', z3.Implies(n <= 0, g(n)))
        e.prove('holds for one more element', z3.Implies(z3.And(n > 0, g(n - 1)), g(n)))
        e.cover('ok')
for l in LEMMAS: mk_lemma(*l)
def order_axioms(e):
    x = z3.Const('q:x', Ref)
    return sums(e) + defs() + [cnt_axioms(e)[0], z3.ForAll([x], z3.Select(LEAFS, x) == isa_fn(LF)(x), patterns=[z3.Select(LEAFS, x)])] + lemma_axioms([l[0] for l in LEMMAS])

def g(e, key, st=None): return e.heap_get((key,), FB, st)
def k_ready(e, this, args, node): return select(g(e, READY), e.addr(this))
def k_leaf_process(e, this, args, node):
    """C06: a leaf that is unprocessed and ready runs, any other does nothing"""
    t = barg(e, BK + '::process', args, 0); b = e.addr(this)
    e.prove('ordered at the start time', t == z3.Const('arg:t0', R))
    if e.choose(z3.And(z3.Not(select(g(e, PRC), b)), select(g(e, READY), b))):
        emit(e, K_ACT, b, t)
        e.write_leaf(Loc(('H', b), (('f', PRC),), BOOL), (), B, T_)
        havoc_key(e, (READY,), B); havoc_signals(e)
        return z3.IntVal(1)
    return z3.IntVal(0)
VSV = SB + '::value_signals_'
def k_base_init(e, this, args, node):
    """C10: initialising the base part changes signals and the collected lists only"""
    emit(e, K_INPUT + 10, e.addr(this), e.read(args[0]) if isinstance(args[0], Loc) else args[0]); havoc_signals(e)
    return None
def vsig(e):
    v = e.get(e.obj(THIS, FS), VSV); a = [x for p, x in v.lv.items() if p[0] == '[]' and x.sort() == z3.ArraySort(I, Ref)][0]
    return a, v.lv[('#len',)]
def k_pass(e, this, args, node):
    a, n = vsig(e); i = sk('vi', I)
    e.prove('all signals are cleared before the pass', z3.Implies(z3.And(i >= 0, i < n), z3.Not(select(e.heap_get((ASG,), FB), select(a, i)))))
    emit(e, K_INPUT + 11, e.addr(this), e.read(args[0]) if isinstance(args[0], Loc) else args[0])
    for x in (1, 2): e.prove('pre- and post-step at initialisation (%d)' % x, e.read(args[x]) if isinstance(args[x], Loc) else args[x])
    return None
F0 = z3.Const('gh:processed0', FB); BASE = z3.Const('gh:base', I)
def is_leaf_of_model(x): return z3.And(in_model(x), z3.Select(LEAFS, x))
def localvec(L):
    """the local vector of leaves: its elements and length"""
    e = L.eng
    for fr in reversed(e.frames):
        for i, loc in fr.env.items():
            if not isinstance(loc, Loc) or loc.root[0] != 'L' or loc.ty is None or loc.ty.k != 'vec': continue
            v = e.read(loc)
            if isinstance(v, SV) and ('[]',) in v.lv and v.lv[('[]',)].sort() == RA: return v.lv[('[]',)], v.lv[('#len',)]
    return None, None
def init_hint(L):
    e = L.eng; out = []; x, j, i = z3.Const('q:x', Ref), z3.Const('q:j', I), z3.Const('q:i', I)
    ints = [c for c, gt, d, info in L.syms if c.sort() == I and info[0] == 'L']
    lens = {(info[1], info[2][:-1]): c for c, gt, d, info in L.syms if info[0] == 'S' and info[2][-1] == '#len'}
    vecs = [(c, lens[(info[1], info[2][:-1])]) for c, gt, d, info in L.syms if info[0] == 'S' and info[2][-1] == '[]' and c.sort() == RA and (info[1], info[2][:-1]) in lens]
    # enumerating the leaves
    for k in ints:
        for c in ints:
            if not c.eq(k): out.append(('leaves so far', c == marked(LEAFS, MB, k)))
        for A, n in vecs:
            out.append(('one entry per leaf so far', n == marked(LEAFS, MB, k)))
            out.append(('each leaf so far once', z3.ForAll([x], cnt(A, n, x) == z3.If(z3.And(is_leaf_of_model(x), z3.Select(MPOS, x) < k), 1, 0), patterns=[cnt(A, n, x)])))
            out.append(('leaves of the model', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(A, j) != null, is_leaf_of_model(z3.Select(A, j)), aid(z3.Select(A, j)) <= L.pre.alloc)), patterns=[z3.Select(A, j)])))
    # ordering
    A, n = localvec(L)
    if A is not None and not vecs:
        F = g(e, PRC); AA, l, w = waves(e); m = tr(e, TRN); n0 = tr(e, TRN, L.pre)
        act = z3.And(select(tr(e, TRO), BASE + total(l, I0) + J0) == entry(e, I0, J0), select(tr(e, TRK), BASE + total(l, I0) + J0) == K_ACT, BASE + total(l, I0) + J0 >= BASE, BASE + total(l, I0) + J0 < m, entry(e, I0, J0) != null, isa_fn(LF)(entry(e, I0, J0)))
        its = [k for k in L.counters if k.cont is not None]
        out.append(('flags stay', z3.Implies(z3.Select(F0, B0), z3.Select(F, B0))))
        out.append(('calls before the ordering stay', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n0), z3.And(*[z3.Select(tr(e, k), i) == z3.Select(tr(e, k, L.pre), i) for k in (TRK, TRO, TRT)])), patterns=[z3.Select(tr(e, TRK), i)])))
        once = z3.If(z3.And(is_leaf_of_model(B0), z3.Select(F, B0), z3.Not(z3.Select(F0, B0))), 1, 0)
        out.append(('each ordered leaf once', placed(AA, l, w, B0) == once))
        out.append(('one run per ordered leaf', m == BASE + total(l, w)))
        out.append(('in the order of the runs', z3.Implies(z3.And(I0 >= 0, I0 < w, J0 >= 0, J0 < select(l, I0)), act)))
        out.append(('lists are lists', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w), z3.Select(l, i) >= 0), patterns=[z3.Select(l, i)])))
        for c in ints: out.append(('as many marked as added', marked(F, A, n) == marked(F0, A, n) + c))
        for k in its:
            for c in ints: out.append(('to add: not marked so far', marked(F, A, k.cur) + c <= k.cur))
        if not its:         # positions are plain integers
            P = L.pre; F1 = g(e, PRC, P); l1 = waves(e, P)[1]
            out.append(('as many marked as in the list', marked(F, A, n) == marked(F1, A, n) + select(l, w - 1) - select(l1, w - 1)))
            out.append(('as many runs as in the list', m == tr(e, TRN, P) + select(l, w - 1) - select(l1, w - 1)))
            for k in ints:
                for c in ints:
                    if not k.eq(c): out.append(('to add: not marked so far', z3.And(k >= 0, k <= n, marked(F, A, k) + c <= k)))
        for k in its:
            # filling a list
            P = L.pre; F1 = g(e, PRC, P); l1 = waves(e, P)[1]
            out.append(('as many marked as in the list', marked(F, A, n) == marked(F1, A, n) + select(l, w - 1) - select(l1, w - 1)))
            out.append(('as many runs as in the list', m == tr(e, TRN, P) + select(l, w - 1) - select(l1, w - 1)))
    a, vn = vsig(e)
    AS = e.heap_get((ASG,), FB)
    for c in ints if A is not None and not vecs else []:
        out.append(('cleared so far (by index)', z3.And(c >= 0, c <= vn, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < c), z3.Not(z3.Select(AS, z3.Select(a, i)))), patterns=[z3.Select(a, i)]))))
        out.append(('cleared backwards so far', z3.And(c >= 0, c <= vn, z3.ForAll([i], z3.Implies(z3.And(i >= c, i < vn), z3.Not(z3.Select(AS, z3.Select(a, i)))), patterns=[z3.Select(a, i)]))))
    for k in L.counters:
        if k.cont is not None and k.cont.steps and k.cont.steps[-1][1] == VSV:
            AS = e.heap_get((ASG,), FB)
            out.append(('cleared so far', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k.cur), z3.Not(z3.Select(AS, z3.Select(a, i)))), patterns=[z3.Select(a, i)])))
    return out

def mk_init(hascb):
    @target('C09', 'FastSimulator::init%s' % (', with input callback' if hascb else ''), covers=('ordered', 'refused'), hints=[init_hint], axioms=order_axioms, deep='hints', budget=400,
            contracts={**PASS, **HOOKS, SB + '::init': k_base_init, FS + '::process_model': k_pass, LF + '::ready_to_process': k_ready, 'virtual ' + BK + '::process': k_leaf_process})
    def init(e):
        b, model, cb = setup(e); t0 = e.sym('t0', REAL)
        e.assume((cb != fnnull) if hascb else (cb == fnnull)); e.progress = lambda *a: progress(*a, key=TRN)     # every run is recorded, and is the only one of its leaf
        e.assume(g(e, PRC) == F0)
        a, vn = vsig(e); i = z3.Const('q:i', I)
        e.assume(z3.And(vn >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < vn), z3.And(z3.Select(a, i) != null, aid(z3.Select(a, i)) <= e.st.alloc, isa_fn(VS)(z3.Select(a, i)))), patterns=[z3.Select(a, i)])))
        n0 = tr(e, TRN); e.assume(BASE == n0 + 3 + (1 if hascb else 0))
        pre = e.snap(); w0 = waves(e)[2]
        k, v = e.call(FS + '::init', b, [t0])
        if k == 'throw':
            AA, l, w = waves(e)
            e.cover('refused'); return
        e.prove('initialised only once', w0 == 0)
        AA, l, w = waves(e); m = tr(e, TRN)
        e.prove('every leaf of the model is ordered exactly once, and nothing else', placed(AA, l, w, B0) == z3.If(is_leaf_of_model(B0), 1, 0))
        ok = z3.And(I0 >= 0, I0 < w, J0 >= 0, J0 < select(l, I0))
        e.prove('the order is the order of the runs (each ready at its turn)', z3.Implies(ok, call_is(e, BASE + total(l, I0) + J0, K_ACT, entry(e, I0, J0))))
        e.prove('first the base part', call_is(e, n0, K_INPUT + 10, THIS, t0))
        o = n0 + 1
        if hascb: e.prove('then the input callback', call_is(e, o, K_CB, model, t0)); o = o + 1
        e.prove('then the input hook', call_is(e, o, K_INPUT, model, t0))
        e.prove('then the pre-step', call_is(e, o + 1, K_PRE, model, t0))
        e.prove('then the runs, then one pass at the start time', z3.And(m == BASE + total(l, w) + 1, call_is(e, m - 1, K_INPUT + 11, THIS, t0)))
        e.cover('ordered')
for c_ in (False, True): mk_init(c_)
from .c08 import STEP, progress
also('C09', 'C06', *STEP[0]); also('C09', 'C07', *STEP[1])

@target('C09', 'construction of a FastSimulator', covers=('ret',), contracts=FULLN)
def sim_ctor(e):
    m = e.ref('model', BK); cb = e.sym('cb', Ty('fn')); st = e.sym('stepper', Ty('ref', rec='pooya::StepperBase')); o = e.new(FS); pre = e.snap()
    k, v = e.call(FS + '::FastSimulator', o, [e.obj(m, BK), cb, st], nparams=3)
    must_return(e, k)
    if k != 'ret': return
    x = e.get(o, SB + '::_model'); sp = e.get(o, SB + '::_stepper')
    e.prove('holds the model', (x.root[1] if isinstance(x, Loc) else x) == m); e.prove('holds the callback', e.get(o, SB + '::_inputs_cb') == cb)
    e.prove('holds the stepper', (sp.root[1] if isinstance(sp, Loc) else sp) == st); e.prove('not initialised', z3.Not(e.get(o, SB + '::_initialized')))
    e.prove('no order yet', e.get(o, PO).lv[('#len',)] == 0)
    frame_obj(e, 'construction', [o.root[1]], pre, list(e.st.heap)); e.cover('ret')

META = {'assumptions': ['the blocks of a model form a finite tree of fewer than 2^31 blocks', 'whether a block is ready changes only with the signals or its own links', 'activations and callbacks end']}
