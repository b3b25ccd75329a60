"""C08: a simulator pass runs the model to quiescence, whatever the order."""
from .blocks import *
from . import tree
SIM = 'pooya::Simulator'; SB = 'pooya::SimulatorBase'
THIS = z3.Const('this', Ref)
READY = 'ghost::ready'     # all required inputs of the block are assigned (in the current state of the signals)
ACTS = 'ghost::acts'       # activations of a leaf since it was last marked unprocessed
def g(e, key, st=None, sort=B): return e.heap_get((key,), z3.ArraySort(Ref, sort), st)
def isleaf(b): return tree.isleaf(b)
def prc(e, b, st=None): return select(g(e, PRC, st), b)

B0 = z3.Const('sk:block', Ref); J0 = z3.Const('sk:pos', I)
def quiescent(e): return z3.Implies(z3.And(in_model(B0), isleaf(B0)), z3.Or(prc(e, B0), z3.Not(ready(e, B0))))
def at_most_once(e): return z3.Implies(z3.And(in_model(B0), isleaf(B0)), select(g(e, ACTS, None, I), B0) <= 1)
def ready(e, b): return select(g(e, READY), b)
def k_model_mark(e, this, args, node):
    """marking the model reaches every block of it and clears its flag, but for bus block builders (tree.py); the runs are counted from here"""
    emit(e, K_MARK, e.addr(this))
    havoc_key(e, (PRC,), B); havoc_key(e, (ACTS,), I)
    i = z3.Const('q:i', I); x = z3.Const('q:b', Ref)
    e.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < MN), z3.And(z3.Select(g(e, PRC), z3.Select(MB, i)) == builder(z3.Select(MB, i)), z3.Select(g(e, ACTS, None, I), z3.Select(MB, i)) == 0)), patterns=[z3.Select(MB, i)]))
    e.fact(z3.ForAll([x], z3.Implies(in_model(x), z3.Select(g(e, PRC), x) == builder(x)), patterns=[z3.Select(g(e, PRC), x)]))
    return None
def k_post(e, this, args, node):
    e.prove('quiescent before post-step', quiescent(e)); e.prove('at most once each', at_most_once(e))
    return mk_hook(K_POST)(e, this, args, node)
def k_hook(kind):
    h = mk_hook(kind)
    def k(e, this, args, node): havoc_key(e, (READY,), B); return h(e, this, args, node)
    return k
def k_in(e, this, args, node): havoc_key(e, (READY,), B); return k_input(e, this, args, node)
def k_icb(e, f, args, node):
    e.prove('it is the input callback', f == z3.Const('sim:cb', Fn))
    t = e.read(args[1]) if isinstance(args[1], Loc) else args[1]
    emit(e, K_CB, e.addr(args[0]) if isinstance(args[0], Loc) else args[0], t); havoc_signals(e); havoc_key(e, (READY,), B)
    return None
PASS = {'callback': k_icb, 'virtual ' + BK + '::input_cb': k_in, 'virtual ' + BK + '::pre_step': k_hook(K_PRE), 'virtual ' + BK + '::post_step': k_post,
        'virtual ' + BK + '::_mark_unprocessed': k_model_mark, **VISIT, **FULLN}

def setup(e, cls=SIM):
    b = e.this(cls, exact=True)
    m = e.get(b, SB + '::_model')
    model = m.root[1] if isinstance(m, Loc) else m
    e.assume(z3.And(model != null, aid(model) <= e.st.alloc)); e.type_fact(model, BK)
    model_seq(e, model)
    cb = z3.Const('sim:cb', Fn)
    e.assume(e.get(b, SB + '::_inputs_cb') == cb)
    e.assume(tr(e, TRN) >= 0); links_exist(e)
    return b, model, cb
def skel(e, pre, model, cb, t, p, q):
    """the calls around the evaluation, in order; -> number of calls before the evaluation"""
    n0 = tr(e, TRN, pre); n = tr(e, TRN); k = z3.IntVal(0); fs = []
    hascb = cb != fnnull
    e.prove('first the input callback, with the model and the time', z3.Implies(hascb, call_is(e, n0, K_CB, model, t)))
    i = n0 + z3.If(hascb, 1, 0)
    e.prove('then the input hook', call_is(e, i, K_INPUT, model, t))
    e.prove('then the pre-step if asked', z3.Implies(p, call_is(e, i + 1, K_PRE, model, t)))
    return i + 1 + z3.If(p, 1, 0)

def progress(e, head, syms, key=GSUM):
    """variant: a loop only goes on after an iteration in which some block became processed (each does so once per pass, so the pass ends), or which advanced a counter"""
    adv = []
    for c, g_, desc, info in syms:
        if c.sort() == I and info[0] in ('L', 'P', 'E'):
            v = g_(e.st); adv += [v == c + 1, v == c - 1]
    e.prove('another iteration only after some block was processed', z3.Or(tr(e, key) > tr(e, key, head), *adv))
def loop_hint(L):
    """calls of a while loop around the processing of the model"""
    e = L.eng
    i = z3.Const('q:i', I); n0 = tr(e, TRN, L.pre); n = tr(e, TRN); m = e.get(e.obj(THIS, SIM), SB + '::_model', L.pre); model = m.root[1] if isinstance(m, Loc) else m
    t = z3.Const('arg:t', R)
    out = [('old calls stay', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n0), z3.And(*[z3.Select(tr(e, k), i) == z3.Select(tr(e, k, L.pre), i) for k in (TRK, TRO, TRT)])), patterns=[z3.Select(tr(e, TRK), i)])),
           ('only processing, with the time', z3.ForAll([i], z3.Implies(z3.And(i >= n0, i < n), z3.And(z3.Select(tr(e, TRK), i) == K_PROC, z3.Select(tr(e, TRT), i) == t)), patterns=[z3.Select(tr(e, TRK), i)])),
           ('more calls', n >= n0), ('sum grows', tr(e, GSUM) >= tr(e, GSUM, L.pre)), ('quiescent', quiescent(e)),
           ('a block is only processed if its leaves are', tree.inv_below(e, model)), ('a leaf ran exactly if it is processed', tree.once0(e))]
    for c, gt, desc, info in L.syms:
        if c.sort() == I and info[0] == 'L': out.append(('quiet if zero', z3.Implies(c == 0, quiescent(e))))
        if c.sort() == B and info[0] == 'L': out.append(('quiet if not', z3.Implies(z3.Not(c), quiescent(e)))); out.append(('quiet if so', z3.Implies(c, quiescent(e))))
    return out

def mk_plain(hascb, p):
    @target('C08', 'Simulator::process_model, all at once%s%s' % (', with input callback' if hascb else '', ', with pre-step' if p else ''), hints=[loop_hint, refvec_hint], covers=('post', 'no post'),
            contracts={**PASS, 'virtual ' + BK + '::process': tree.k_deep})
    def pass_plain(e):
        b, model, cb = setup(e)
        e.assume((cb != fnnull) if hascb else (cb == fnnull)); e.progress = progress
        e.assume(z3.Not(e.get(b, SIM + '::_reuse_order'))); tree.whole(e, model); e.assume(tr(e, GSUM) >= 0)
        t, q = e.sym('t', REAL), e.sym('post', BOOL); P = z3.BoolVal(p)
        pre = e.snap()
        k, v = e.call(SIM + '::process_model', b, [t, P, q])
        must_return(e, k)
        if k != 'ret': return
        i = skel(e, pre, model, cb, t, P, q); n = tr(e, TRN)
        e.prove('then everything is marked unprocessed', call_is(e, i, K_MARK, model))
        e.prove('then only processing', z3.Implies(z3.And(sk('ti', I) > i, sk('ti', I) < n - z3.If(q, 1, 0)), z3.And(select(tr(e, TRK), sk('ti', I)) == K_PROC, select(tr(e, TRT), sk('ti', I)) == t)))
        e.prove('post-step last if asked', z3.Implies(q, call_is(e, n - 1, K_POST, model, t)))
        if e.choose(q): e.cover('post')
        else: e.prove('quiescent at the end', quiescent(e)); e.prove('at most once each', at_most_once(e)); e.cover('no post')
for c_ in (False, True):
    for p_ in (False, True): mk_plain(c_, p_)

# with a remembered order -----------------------------------------------------------------------------------------------------
RA = z3.ArraySort(I, Ref)
cnt = z3.Function('occurrences', RA, I, Ref, I); cnt0 = z3.Function('occurrences0', RA, I, Ref, I)
def cnt_axioms(e):
    """occurrences(A, n, x): how often x occurs among the first n elements of A (recursive definition, one unfolding per term)"""
    A = z3.Const('q:A', RA); n, m = z3.Consts('q:n q:m', I); x, v = z3.Consts('q:x q:v', Ref)
    return [z3.ForAll([A, n, x], z3.And(cnt(A, n, x) == cnt0(A, n, x), cnt(A, n, x) == z3.If(n <= 0, 0, cnt0(A, n - 1, x) + z3.If(z3.Select(A, n - 1) == x, 1, 0))), patterns=[cnt(A, n, x)]),
            # elements from position m on do not matter for the first m (induction over n)
            z3.ForAll([A, n, m, x, v], z3.Implies(n <= m, cnt(z3.Store(A, m, v), n, x) == cnt(A, n, x)), patterns=[cnt(z3.Store(A, m, v), n, x)]),
            z3.ForAll([A, n, m, x, v], z3.Implies(n <= m, cnt0(z3.Store(A, m, v), n, x) == cnt(A, n, x)), patterns=[cnt0(z3.Store(A, m, v), n, x)])]
def once(b): return z3.If(in_model(b), 1, 0)
def order(e, b, which, st=None):
    v = e.get(b, SIM + '::_processing_order%d' % which, st)
    return v.lv[('[]',)], v.lv[('#len',)]
def k_block_process(e, this, args, node):
    """processing one block of the remembered order shallowly: a submodel only counts itself as processed (C08 below), a leaf runs if ready (C06)"""
    t = barg(e, BK + '::process', args, 0); deep = barg(e, BK + '::process', args, 1)
    e.prove('blocks are processed one by one', z3.Not(deep) if isinstance(deep, z3.ExprRef) else z3.BoolVal(not deep))
    e.prove('with the time of the pass', t == z3.Const('arg:t', R))
    b = e.addr(this)
    if e.choose(prc(e, b)): return z3.IntVal(0)
    was = tr(e, GSUM); gs = lambda: e.write_leaf(Loc(('H', null), (('f', GSUM[0]),), INT), (), I, was + 1)      # ghost: blocks processed so far
    if e.choose(e.isa(b, SM)):
        gs(); e.write_leaf(Loc(('H', b), (('f', PRC),), BOOL), (), B, T_); return z3.IntVal(0)
    e.assume(e.isa(b, LF))
    if not e.choose(ready(e, b)): return z3.IntVal(0)
    gs()
    e.write_leaf(Loc(('H', b), (('f', PRC),), BOOL), (), B, T_)
    e.write_leaf(Loc(('H', b), (('f', ACTS),), INT), (), I, select(g(e, ACTS, None, I), b) + 1)
    havoc_key(e, (READY,), B); havoc_signals(e)
    return z3.IntVal(1)
def reuse_hint(L):
    e = L.eng; out = []; jj = z3.Const('q:i', I)
    b = e.obj(THIS, SIM)
    isl = isleaf(B0)
    out.append(('a leaf ran exactly if it is processed', z3.Implies(z3.And(in_model(B0), isl), select(g(e, ACTS, None, I), B0) == z3.If(prc(e, B0), 1, 0))))
    for w in (1, 2):
        A, n = order(e, b, w); Ac, nc = order(e, b, 3 - w)
        out.append(('new order: the processed blocks once each', cnt(A, n, B0) == z3.If(z3.And(in_model(B0), prc(e, B0)), 1, 0)))
        out.append(('blocks of the model (%d)' % w, z3.ForAll([jj], z3.Implies(z3.And(jj >= 0, jj < n), in_model(z3.Select(A, jj))), patterns=[z3.Select(A, jj)])))
        # what tells that a sweep ran nothing: a flag, or a comparison of the length of the new order with the length before
        news = [('flag', c2) for c, gt, desc, info in L.syms if c.sort() == B and info[0] == 'L' for c2 in (c, z3.Not(c))]
        news += [('length', n > v) for v in local_ints(e) if v.decl().kind() == z3.Z3_OP_UNINTERPRETED and not any(v.eq(c) for c, gt, desc, info in L.syms)]
        its = [k.cur for k in range_counters(L, THIS) if k.cont is not None and k.cont.steps[-1][1].endswith('order%d' % (3 - w))]
        if not any(k.cont is not None for k in L.counters): its = [c for c, gt, desc, info in L.syms if c.sort() == I and info[0] == 'L']
        idle = lambda hi: z3.Implies(z3.And(J0 >= 0, J0 < hi, isleaf(select(Ac, J0))), z3.Or(prc(e, select(Ac, J0)), z3.Not(ready(e, select(Ac, J0)))))
        for k in its:
            out.append(('new order: the processed blocks so far', cnt(A, n, B0) == z3.If(prc(e, B0), cnt(Ac, k, B0), 0)))
            out.append(('new order: processed blocks and those passed', cnt(A, n, B0) == z3.If(prc(e, B0), once(B0), cnt(Ac, k, B0))))
            for nm, c in news: out.append(('nothing ran or is left so far', z3.Implies(z3.Not(c), idle(k))))
        out.append(('sum grows', tr(e, GSUM) >= tr(e, GSUM, L.pre)))
        for nm, c in news: out.append(('some block was processed', z3.Implies(c, tr(e, GSUM) > tr(e, GSUM, L.pre))))
        for nm, c in news:
            if nm == 'length': out.append(('the new order grows', z3.Or(c, n == c.arg(1)))); continue
            out.append(('quiescent unless another sweep', z3.Implies(z3.Not(c), idle(nc))))
    return out

def mk_reuse(hascb, p, w):
    """w: which vector holds the current order"""
    @target('C08', 'Simulator::process_model, reusing the order (%d)%s%s' % (w, ', with input callback' if hascb else '', ', with pre-step' if p else ''), hints=[reuse_hint, refvec_hint], covers=('post', 'no post'),
            axioms=cnt_axioms, deep='hints', contracts={**PASS, 'virtual ' + BK + '::process': k_block_process})
    def pass_reuse(e):
        b, model, cb = setup(e)
        e.assume((cb != fnnull) if hascb else (cb == fnnull)); e.progress = progress
        e.assume(e.get(b, SIM + '::_reuse_order'))
        cur, new = (e.fld(b, SIM + '::_processing_order%d' % x) for x in (w, 3 - w))
        e.st.optr[e._okey(e.fld(b, SIM + '::_current_po'))] = LocPtr(cur)
        e.st.optr[e._okey(e.fld(b, SIM + '::_new_po'))] = LocPtr(new)
        A, n = order(e, b, w)
        i = z3.Const('q:i', I)
        # the remembered order contains every block of the model exactly once (established by init, preserved below)
        e.assume(n >= 0); e.assume(cnt(A, n, B0) == once(B0))
        e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(in_model(z3.Select(A, i)), z3.Select(A, i) != null, aid(z3.Select(A, i)) <= e.st.alloc)), patterns=[z3.Select(A, i)]))
        e.assume(z3.And(J0 >= 0, z3.Implies(in_model(B0), z3.And(J0 < n, select(A, J0) == B0))))
        t, q = e.sym('t', REAL), e.sym('post', BOOL); P = z3.BoolVal(p)
        pre = e.snap()
        k, v = e.call(SIM + '::process_model', b, [t, P, q])
        if k == 'throw':
            # the two orders have the same contents, so (pigeonhole) the same size: this check cannot fail
            e.prove('only a check of the sizes of the two orders can fail', order(e, b, 1)[1] != order(e, b, 2)[1])
            e.prove('and it cannot: both contain every block of the model once (lemma below)', z3.And(*[cnt(*order(e, b, x), B0) == once(B0) for x in (1, 2)]))
            for x in (1, 2): e.prove('and nothing else (%d)' % x, z3.Implies(z3.And(J0 >= 0, J0 < order(e, b, x)[1]), in_model(select(order(e, b, x)[0], J0))))
            return
        i = skel(e, pre, model, cb, t, P, q); m = tr(e, TRN)
        e.prove('then everything is marked unprocessed', call_is(e, i, K_MARK, model))
        e.prove('then only processing', m == i + 1 + z3.If(q, 1, 0))
        e.prove('post-step last if asked', z3.Implies(q, call_is(e, m - 1, K_POST, model, t)))
        c = e.read(e.fld(b, SIM + '::_current_po'))
        if not isinstance(c, LocPtr): raise Unsupported('current order')
        sv = e.read(c.loc); d = e.read(e.fld(b, SIM + '::_new_po'))
        e.prove('the remembered order contains every block exactly once', cnt(sv.lv[('[]',)], sv.lv[('#len',)], B0) == once(B0))
        e.prove('the two orders stay apart', z3.BoolVal(isinstance(d, LocPtr) and not d.loc.same(c.loc)))
        if e.choose(q): e.cover('post')
        else: e.prove('quiescent at the end', quiescent(e)); e.prove('at most once each', at_most_once(e)); e.cover('no post')
for w_ in (1, 2): mk_reuse(False, False, w_)
for c_, p_ in ((True, False), (False, True), (True, True)): mk_reuse(c_, p_, 1)

@target('C08', 'Submodel::process, shallow', covers=('done', 'first'))
def shallow(e):
    b = e.this(SM, exact=False); t = e.sym('t', REAL); was = e.get(b, PRC); pre = e.snap()
    k, v = e.call(SM + '::process', b, [t, F_])
    must_return(e, k)
    if k != 'ret': return
    e.prove('reports nothing', v == 0); e.prove('counts as processed', e.get(b, PRC))
    frame_obj(e, 'shallow processing', [b.root[1]], pre, [(PRC,)])
    e.cover('done' if e.choose(was) else 'first')

def init_hint(L):
    e = L.eng; out = []; b = e.obj(THIS, SIM); i = z3.Const('q:i', I)
    for k in L.counters:
        for w in (1, 2):
            A, n = order(e, b, w)
            out.append(('order so far (%d)' % w, cnt(A, n, B0) == cnt(MB, k.cur, B0)))
            out.append(('blocks of the model (%d)' % w, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), in_model(z3.Select(A, i))), patterns=[z3.Select(A, i)])))
            out.append(('as many as visited (%d)' % w, n == k.cur))
    return out
def k_base_init(e, this, args, node):
    emit(e, K_INPUT + 10, e.addr(this), e.read(args[0]) if isinstance(args[0], Loc) else args[0]); return None
def k_pass(e, this, args, node):
    emit(e, K_INPUT + 11, e.addr(this), e.read(args[0]) if isinstance(args[0], Loc) else args[0])
    for x in (1, 2): e.prove('pre- and post-step at initialisation (%d)' % x, e.read(args[x]) if isinstance(args[x], Loc) else args[x])
    return None
@target('C08', 'Simulator::init', covers=('reuse', 'plain', 'again'), hints=[init_hint], axioms=cnt_axioms, contracts={**VISIT, **FULLN, SB + '::init': k_base_init, SIM + '::process_model': k_pass})
def init(e):
    b, model, cb = setup(e); t0 = e.sym('t0', REAL)
    e.assume(cnt(MB, MN, B0) == once(B0))       # visiting reaches every block once (lemma below)
    reuse = e.get(b, SIM + '::_reuse_order'); pre = e.snap(); n0 = tr(e, TRN)
    k, v = e.call(SIM + '::init', b, [t0])
    if k == 'throw':
        e.prove('rejected only if initialised before', z3.And(reuse, z3.Or(order(e, b, 1, pre)[1] != 0, order(e, b, 2, pre)[1] != 0))); e.cover('again'); return
    e.prove('first the base part, then one pass at the start time', z3.And(tr(e, TRN) == n0 + 2, call_is(e, n0, K_INPUT + 10, THIS, t0), call_is(e, n0 + 1, K_INPUT + 11, THIS, t0)))
    if not e.choose(reuse): e.cover('plain'); return
    c, d = (e.read(e.fld(b, SIM + x)) for x in ('::_current_po', '::_new_po'))
    e.prove('the two orders are set up', z3.BoolVal(isinstance(c, LocPtr) and isinstance(d, LocPtr) and not d.loc.same(c.loc)))
    if not isinstance(c, LocPtr): return
    sv = e.read(c.loc); A, n = sv.lv[('[]',)], sv.lv[('#len',)]
    e.prove('the remembered order contains every block exactly once', cnt(A, n, B0) == once(B0))
    e.prove('and only blocks of the model', z3.Implies(z3.And(J0 >= 0, J0 < n), in_model(select(A, J0)))); e.cover('reuse')

@target('C08', 'lemma: later elements do not matter', axioms=lambda e: cnt_axioms(e)[:1], covers=('ok',))
def lemma_later(e):
    """the remaining facts about occurrences used above, by induction over the number of elements"""
    A = z3.Const('lem:A', RA); n, m = z3.Consts('lem:n lem:m', I); x, v = z3.Consts('lem:x lem:v', Ref)
    f = lambda k: z3.Implies(k <= m, cnt(z3.Store(A, m, v), k, x) == cnt(A, k, x))
    e.prove('holds for no elements', z3.Implies(n <= 0, f(n)))
    e.prove('holds for one more element', z3.Implies(z3.And(n > 0, f(n - 1)), f(n))); e.cover('ok')

@target('C08', 'lemma: a visit meets every block once', axioms=lambda e: cnt_axioms(e)[:1], covers=('ok',))
def lemma_once(e):
    """the blocks are numbered in visiting order, so each occurs once in the visited sequence (induction over its length)"""
    model_seq(e, z3.Select(MB, 0)); n = z3.Const('lem:n', I); x = z3.Const('lem:x', Ref); p = z3.Select(MPOS, x)
    f = lambda k: cnt(MB, k, x) == z3.If(z3.And(p >= 0, p < k, z3.Select(MB, p) == x), 1, 0)
    e.prove('holds for no blocks', f(z3.IntVal(0))); e.prove('holds for one more block', z3.Implies(z3.And(n > 0, n <= MN, f(n - 1)), f(n)))
    e.prove('hence for all of them', z3.Implies(f(MN), cnt(MB, MN, x) == once(x))); e.cover('ok')

@target('C08', 'lemma: two orders with every block once have the same size', axioms=lambda e: cnt_axioms(e)[:1], covers=('ok',))
def lemma_size(e):
    """over(A, n, m): the occurrences in A (n elements) of the first m blocks of the model, summed.  One more element adds one, so for
    an order of blocks of the model over(A, n, MN) = n; if every block occurs once, over(A, n, m) = m: hence n = MN for every such order"""
    over = z3.Function('over', RA, I, I, I); A = z3.Const('lem:A', RA); n, m = z3.Consts('lem:n lem:m', I)
    model_seq(e, z3.Select(MB, 0)); a = z3.Select(A, n - 1); blk = z3.Select(MB, m - 1)
    d = lambda k, l: over(A, k, l) == z3.If(l <= 0, 0, over(A, k, l - 1) + cnt(A, k, z3.Select(MB, l - 1)))       # definition
    add = lambda l: over(A, n, l) == over(A, n - 1, l) + z3.If(z3.Select(MPOS, a) < l, 1, 0)
    e.assume(z3.And(n >= 0, m >= 0, m <= MN))
    e.prove('one more element: no blocks', z3.Implies(z3.And(n > 0, in_model(a), d(n, 0), d(n - 1, 0)), add(0)))
    e.prove('one more element: one more block', z3.Implies(z3.And(n > 0, in_model(a), m > 0, d(n, m), d(n - 1, m), add(m - 1)), add(m)))
    e.prove('all elements: no elements, no blocks', z3.Implies(d(0, 0), over(A, 0, 0) == 0))
    e.prove('all elements: no elements', z3.Implies(z3.And(m > 0, d(0, m), over(A, 0, m - 1) == 0), over(A, 0, m) == 0))
    e.prove('all elements: one more', z3.Implies(z3.And(n > 0, in_model(a), add(MN), over(A, n - 1, MN) == n - 1), over(A, n, MN) == n))
    e.prove('each block once: no blocks', z3.Implies(d(n, 0), over(A, n, 0) == 0))
    e.prove('each block once: one more', z3.Implies(z3.And(m > 0, d(n, m), cnt(A, n, blk) == 1, over(A, n, m - 1) == m - 1), over(A, n, m) == m))
    e.prove('hence the size', z3.Implies(z3.And(over(A, n, MN) == n, over(A, n, MN) == MN), n == MN)); e.cover('ok')

STEP = ['Leaf::ready_to_process', 'Leaf::process', 'Block::_mark_unprocessed', 'Block::processed'], ['Submodel::pre_step', 'Submodel::post_step', 'Submodel::_mark_unprocessed', 'Submodel::process', 'Block::visit', 'Submodel::visit', 'Block::const_visit', 'Submodel::const_visit']
also('C08', 'C06', *STEP[0]); also('C08', 'C07', *STEP[1])

@target('C08', 'construction of a Simulator', covers=('ret',), contracts=FULLN)
def sim_ctor(e):
    m = e.ref('model', BK); cb = e.sym('cb', Ty('fn')); st = e.sym('stepper', Ty('ref', rec='pooya::StepperBase')); o = e.new(SIM); pre = e.snap()
    k, v = e.call(SIM + '::Simulator', o, [e.obj(m, BK), cb, st, e.sym('reuse', BOOL)], nparams=4)
    must_return(e, k)
    if k != 'ret': return
    x = e.get(o, SB + '::_model'); sp = e.get(o, SB + '::_stepper')
    e.prove('holds the model', (x.root[1] if isinstance(x, Loc) else x) == m); e.prove('holds the callback', e.get(o, SB + '::_inputs_cb') == cb)
    e.prove('holds the stepper', (sp.root[1] if isinstance(sp, Loc) else sp) == st); e.prove('not initialised', z3.Not(e.get(o, SB + '::_initialized')))
    e.prove('reuses the order as asked', e.get(o, SIM + '::_reuse_order') == z3.Const('arg:reuse', B)); e.prove('no order yet', z3.And(*[order(e, o, w)[1] == 0 for w in (1, 2)]))
    frame_obj(e, 'construction', [o.root[1]], pre, list(e.st.heap)); e.cover('ret')

@target('C08', 'Block: the default hooks do nothing', covers=('ret',))
def default_hooks(e):
    b = e.this(BK, exact=False); pre = e.snap()
    for f in ('input_cb', 'pre_step', 'post_step'):
        k, v = e.call(BK + '::' + f, b, [e.sym('t', REAL)]); must_return(e, k)
    frame_same(e, 'the hooks', pre); e.cover('ret')

META = {'assumptions': ['the blocks of a model form a finite tree, fewer than 2^32 of them, none destroyed or added between initialisation and a pass', 'whether a block is ready changes only with the signals or its own links (an activation may change both)', 'activations and callbacks end']}
