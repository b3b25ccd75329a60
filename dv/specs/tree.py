"""The model as a finite tree: marking, deep processing and visiting of a block reach exactly its subtree.

The blocks are numbered in the order of a visit (MB, MPOS); the subtree of b is the segment [start(b), start(b)+size(b)), the
segments of the children follow each other.  The contracts of the virtual functions speak about the whole subtree of the
receiver; they are verified against Leaf and Submodel with the children under the same contracts (structural induction)."""
from .blocks import *
THIS = z3.Const('this', Ref); B0 = z3.Const('sk:block', Ref); FB = z3.ArraySort(Ref, B); RI = z3.ArraySort(Ref, I)
READY = 'ghost::ready'     # all required inputs of the block are assigned (in the current state of the signals)
ACTS = 'ghost::acts'       # activations of a leaf since it was last marked unprocessed
SIZE, START, HEIGHT = z3.Const('tree:size', RI), z3.Const('tree:start', RI), z3.Const('tree:height', RI)
BD = z3.Const('tree:bounds', z3.ArraySort(I, I)); K0 = z3.Const('tree:child', I)
def size(b): return z3.Select(SIZE, b)
def start(b): return z3.Select(START, b)
def isleaf(b): return z3.And(isa_fn(LF)(b), z3.Not(builder(b)))     # a leaf that runs in a simulation
def fl(e, st=None): return e.heap_get((PRC,), FB, st)
def acts(e, st=None): return e.heap_get((ACTS,), RI, st)
def rdy(e, st=None): return e.heap_get((READY,), FB, st)
def node(b): return z3.And(start(b) >= 0, size(b) >= 1, start(b) + size(b) <= MN, z3.Select(MB, start(b)) == b, z3.Select(MPOS, b) == start(b), z3.Select(HEIGHT, b) >= 0, z3.Implies(builder(b), size(b) == 1))
def below(x, b): return z3.And(in_model(x), start(b) <= z3.Select(MPOS, x), z3.Select(MPOS, x) < start(b) + size(b))
def whole(e, model):
    """the model is the root"""
    e.assume(z3.And(node(model), start(model) == 0, size(model) == MN))
def inv0(e, b, st=None): return z3.Implies(z3.And(z3.Select(fl(e, st), b), below(B0, b), isleaf(B0)), z3.Select(fl(e, st), B0))
def inv_below(e, b, strict=False, st=None):
    """a block in the subtree of b (not a builder, which has nothing below) only counts as processed if every leaf below it does (stated for the arbitrary leaf B0)"""
    x = z3.Const('q:b', Ref); F = fl(e, st)
    cond = z3.And(below(x, b), z3.Not(builder(x))); cond = z3.And(cond, x != b) if strict else cond
    return z3.ForAll([x], z3.Implies(z3.And(cond, z3.Select(F, x), below(B0, x), isleaf(B0)), z3.Select(F, B0)), patterns=[z3.Select(F, x)])
def once0(e, st=None): return z3.Implies(z3.And(in_model(B0), isleaf(B0)), z3.Select(acts(e, st), B0) == z3.If(z3.Select(fl(e, st), B0), 1, 0))
def idle0(e, b, st=None): return z3.Implies(z3.And(below(B0, b), isleaf(B0)), z3.Or(z3.Select(fl(e, st), B0), z3.Not(z3.Select(rdy(e, st), B0))))
def others_same(F, F1, b):
    x = z3.Const('q:b', Ref)
    return z3.ForAll([x], z3.Implies(z3.Not(below(x, b)), z3.Select(F, x) == z3.Select(F1, x)), patterns=[z3.Select(F, x)])

# contracts -----------------------------------------------------------------------------------------------------------------
def havoc_world(e):
    havoc_signals(e); havoc_key(e, (READY,), B)
def k_ready_ghost(e, this, args, node): return select(rdy(e), e.addr(this))
def k_act(e, this, args, node):
    """an activation: counted; it changes signals only (and with them which leaves are ready)"""
    b = e.addr(this); emit(e, K_ACT, b, e.read(args[0]) if isinstance(args[0], Loc) else args[0])
    e.write_leaf(Loc(('H', b), (('f', ACTS),), INT), (), I, select(acts(e), b) + 1)
    havoc_world(e); return None
def k_deep(e, this, args, node_):
    """deep processing of a subtree"""
    b = e.addr(this); t = barg(e, BK + '::process', args, 0); deep = barg(e, BK + '::process', args, 1)
    e.prove('the subtree is processed deeply', deep if isinstance(deep, z3.ExprRef) else z3.BoolVal(bool(deep)))
    emit(e, K_PROC, b, t)
    e.prove('a block below is only processed if its leaves are', inv_below(e, b)); e.prove('a leaf ran exactly if it is processed', once0(e))
    F = fl(e); A = acts(e)
    v = e.fresh('count', I); e.fact(z3.And(v >= 0, v < 2 ** 32))
    s = tr(e, GSUM) + v; e.assume(z3.And(tr(e, GSUM) >= 0, s < 2 ** 32))      # fewer than 2^32 blocks
    e.write_leaf(Loc(('H', null), (('f', GSUM[0]),), INT), (), I, s)
    havoc_key(e, (PRC,), B); havoc_key(e, (ACTS,), I)
    if not e.choose(v == 0): havoc_world(e)
    else: e.fact(z3.And(idle0(e, b), z3.Implies(isleaf(B0), z3.Select(fl(e), B0) == z3.Select(F, B0))))
    e.fact(others_same(fl(e), F, b)); e.fact(others_same(acts(e), A, b)); e.fact(inv_below(e, b)); e.fact(once0(e))
    e.fact(z3.Implies(z3.Select(F, B0), z3.Select(fl(e), B0)))
    return v
def k_mark_deep(e, this, args, node_):
    """marking a subtree unprocessed (all but the bus block builders in it); nothing outside changes"""
    b = e.addr(this); F = fl(e); x = z3.Const('q:b', Ref)
    emit(e, K_MARK, b)
    havoc_key(e, (PRC,), B)
    e.fact(others_same(fl(e), F, b)); e.fact(z3.ForAll([x], z3.Implies(below(x, b), z3.Select(fl(e), x) == builder(x)), patterns=[z3.Select(fl(e), x)]))
    return None
def seg_facts(e, n0, b, m, v, sk_=False):
    """calls n0 .. n0+m-1 of the trace are callbacks on the first m blocks of the segment of b, all but the last of which said: go on"""
    i = z3.Const('q:i', I) if not sk_ else sk('ti', I)
    K, O, Rs = tr(e, TRK), tr(e, TRO), tr(e, TRR)
    body = lambda: z3.And(z3.Implies(z3.And(i >= n0, i < n0 + m), z3.And(z3.Select(K, i) == K_CB, z3.Select(O, i) == z3.Select(MB, start(b) + i - n0))),
                          z3.Implies(z3.And(i >= n0, i < n0 + m - 1), z3.Select(Rs, i) == 1))
    last = z3.Select(Rs, n0 + m - 1)
    return [('each block of the subtree in order', body() if sk_ else z3.And(*[z3.ForAll([i], body(), patterns=[p]) for p in (z3.Select(O, i), z3.Select(Rs, i))])),
            ('success exactly if all were visited and all went on', z3.And(m >= 1, m <= size(b), z3.Implies(v, z3.And(m == size(b), last == 1)), z3.Implies(z3.Not(v), last == 0)))]
def k_visit_seg(q):
    def k(e, this, args, node_):
        cb = e.read(args[0]) if isinstance(args[0], Loc) else args[0]
        if isinstance(cb, Closure): raise Unsupported('visitor is wrapped')
        e.prove('the callback is passed on', cb == z3.Const('arg:cb', Fn))
        level = barg(e, q, args, 1); mx = barg(e, q, args, 2); b = e.addr(this)
        e.prove('nothing is cut off', level + z3.Select(HEIGHT, b) <= mx)
        n0 = tr(e, TRN); old = [tr(e, x) for x in (TRK, TRO, TRR)]
        m = e.fresh('visited', I); v = e.fresh('goon', B); i = z3.Const('q:i', I)
        for key in (TRK, TRO, TRR): e.write_leaf(Loc(('H', null), (('f', key[0]),), None), ('[]',), old[0].sort() if key != TRO else old[1].sort(), e.fresh('trace', old[0].sort() if key != TRO else old[1].sort()))
        e.write_leaf(Loc(('H', null), (('f', TRN[0]),), INT), (), I, n0 + m)
        for key, o in zip((TRK, TRO, TRR), old): e.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n0), z3.Select(tr(e, key), i) == z3.Select(o, i)), patterns=[z3.Select(tr(e, key), i)]))
        for d, f in seg_facts(e, n0, b, m, v): e.fact(f)
        return v
    return k

# the receiver ----------------------------------------------------------------------------------------------------------------
def subtree(e, leaf=False):
    b = e.this(LF if leaf else SM, exact=False); r = b.root[1]; i, j = z3.Consts('q:i q:j', I)
    model_seq(e, z3.Select(MB, 0)); e.assume(node(r)); e.assume(tr(e, TRN) >= 0); e.assume(tr(e, GSUM) >= 0)
    if leaf: e.assume(z3.And(size(r) == 1, isa_fn(LF)(r))); return b, r, None, None
    C, n = blocks(e, r); c = z3.Select(C, i); d = lambda k: z3.Select(BD, k)
    e.assume(z3.And(n >= 0, n < 2 ** 31, z3.Not(isa_fn(LF)(r)), z3.Not(builder(r)), d(0) == start(r) + 1, d(n) == start(r) + size(r)))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(c != null, aid(c) <= e.st.alloc, c != r, node(c), start(c) == d(i), size(c) == d(i + 1) - d(i), z3.Select(HEIGHT, c) < z3.Select(HEIGHT, r), d(i) >= d(0), d(i + 1) <= d(n))), patterns=[c]))
    # (lemma) the segments are in order, and a block below r other than r is below one of the children
    e.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j <= n), d(i + 1) <= d(j)), patterns=[z3.MultiPattern(z3.Select(C, i), z3.Select(C, j))]))
    e.assume(z3.Implies(z3.And(below(B0, r), B0 != r), z3.And(K0 >= 0, K0 < n, d(K0) <= z3.Select(MPOS, B0), z3.Select(MPOS, B0) < d(K0 + 1), below(B0, z3.Select(C, K0)))))
    return b, r, C, n
def mono_hint(L): return []
def deep_hint(L):
    from .c07 import flags_hint
    e = L.eng; r = THIS; out = []; pre = L.pre; C, n = blocks(e, r, pre)
    F0 = fl(e, pre); idle = lambda k: z3.Implies(z3.And(isleaf(B0), below(B0, r), B0 != r, K0 < k), z3.Or(z3.Select(fl(e), B0), z3.Not(z3.Select(rdy(e), B0))))
    out.append(('blocks below are only processed if their leaves are', inv_below(e, r, True)))
    out.append(('outside nothing changes (flags)', others_same(fl(e), z3.Store(F0, r, z3.Select(fl(e), r)), r)))
    out.append(('outside nothing changes (runs)', others_same(acts(e), acts(e, pre), r)))
    out.append(('a leaf ran exactly if it is processed', once0(e)))
    out.append(('once processed, processed', z3.Implies(z3.And(isleaf(B0), z3.Select(F0, B0)), z3.Select(fl(e), B0))))
    out.append(('runs of others stay', z3.Select(acts(e), r) == z3.Select(acts(e, pre), r)))
    out.append(('own flag stays', z3.Select(fl(e), r) == z3.Select(F0, r)))
    same = z3.And(rdy(e) == rdy(e, pre), z3.Implies(isleaf(B0), z3.Select(fl(e), B0) == z3.Select(F0, B0)), *[e.heap_get(k, z3.ArraySort(Ref, s)) == e.heap_get(k, z3.ArraySort(Ref, s), pre) for k, s in SIG_STATE])
    zero = tr(e, GSUM) == tr(e, GSUM, pre)
    out.append(('sum grows', tr(e, GSUM) >= tr(e, GSUM, pre)))
    out.append(('without runs nothing changes', z3.Implies(zero, same)))
    for k in range_counters(L, r):
        out.append(('in range', z3.And(k.cur >= 0, k.cur <= n)))
        out.append(('without runs the leaves passed are idle', z3.Implies(zero, idle(k.cur))))
        out += flags_hint(L, e, r, C, k)
    return out
def mk_deep(leaf):
    @target('C08', '%s::process: a report of zero means that no leaf of the subtree can run' % ('Leaf' if leaf else 'Submodel'), hints=[deep_hint], covers=('none', 'some') , deep='hints',
            contracts={**FULLN, 'virtual ' + LF + '::activation_function': k_act, LF + '::ready_to_process': k_ready_ghost, 'virtual ' + BK + '::process': k_deep})
    def deep(e):
        b, r, C, n = subtree(e, leaf); t = e.sym('t', REAL)
        e.assume(inv_below(e, r)); e.assume(once0(e)); pre = e.snap()
        k, v = e.call((LF if leaf else SM) + '::process', b, [t, T_])
        must_return(e, k)
        if k != 'ret': return
        e.prove('a block below is only processed if its leaves are', inv_below(e, r)); e.prove('a leaf ran exactly if it is processed', once0(e))
        e.prove('outside nothing changes', z3.And(others_same(fl(e), fl(e, pre), r), others_same(acts(e), acts(e, pre), r)))
        e.prove('once processed, processed', z3.Implies(z3.And(isleaf(B0), z3.Select(fl(e, pre), B0)), z3.Select(fl(e), B0)))
        if e.choose(v == 0):
            e.prove('no leaf below can run', idle0(e, r)); e.prove('nothing changed', z3.And(rdy(e) == rdy(e, pre), z3.Implies(isleaf(B0), z3.Select(fl(e), B0) == z3.Select(fl(e, pre), B0))))
            for key, s in SIG_STATE: e.prove('no signal changed', e.heap_get(key, z3.ArraySort(Ref, s)) == e.heap_get(key, z3.ArraySort(Ref, s), pre))
            e.cover('none')
        else: e.cover('some')
for l_ in (True, False): mk_deep(l_)

def mark_hint(L):
    e = L.eng; r = THIS; out = []; pre = L.pre; C, n = blocks(e, r, pre); x = z3.Const('q:b', Ref); F = fl(e); F0 = fl(e, pre)
    out.append(('outside nothing changes', others_same(F, z3.Store(F0, r, z3.Select(F, r)), r))); out.append(('own flag stays', z3.Select(F, r) == z3.Select(F0, r)))
    for k in range_counters(L, r):
        out.append(('in range', z3.And(k.cur >= 0, k.cur <= n)))
        out.append(('marked so far', z3.ForAll([x], z3.Implies(z3.And(below(x, r), x != r, z3.Select(MPOS, x) < z3.Select(BD, k.cur)), z3.Select(F, x) == builder(x)), patterns=[z3.Select(F, x)])))
    return out
def mk_mark(leaf, own=None):
    @target('C08', '%s: marking reaches the whole subtree' % (own or ('Block' if leaf else 'Submodel')).replace('pooya::', ''), hints=[mark_hint], covers=('ret',), deep='hints', contracts={**FULLN, 'virtual ' + BK + '::_mark_unprocessed': k_mark_deep})
    def mark(e):
        b, r, C, n = subtree(e, leaf); e.assume(builder(r) == z3.BoolVal(own == BBB)); pre = e.snap()
        k, v = e.call((own or (BK if leaf else SM)) + '::_mark_unprocessed', b, [])
        must_return(e, k)
        if k != 'ret': return
        e.prove('the whole subtree is unprocessed (but for bus block builders)', z3.Implies(below(B0, r), z3.Select(fl(e), B0) == builder(B0))); e.prove('outside nothing changes', others_same(fl(e), fl(e, pre), r)); e.cover('ret')
for l_ in (True, False): mk_mark(l_)
mk_mark(True, BBB)

def visit_hint(L):
    e = L.eng; r = THIS; out = []; pre = L.pre; C, n = blocks(e, r, pre); i = z3.Const('q:i', I); n0 = z3.Const('gh:calls', I)
    m = tr(e, TRN) - n0
    out.append(('old calls stay', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n0), z3.And(*[z3.Select(tr(e, k), i) == z3.Select(tr(e, k, pre), i) for k in (TRK, TRO, TRR)])), patterns=[z3.Select(tr(e, TRK), i)])))
    done = [('each block so far', z3.And(*[z3.ForAll([i], z3.Implies(z3.And(i >= n0, i < n0 + m), z3.And(z3.Select(tr(e, TRK), i) == K_CB, z3.Select(tr(e, TRO), i) == z3.Select(MB, start(r) + i - n0))), patterns=[p]) for p in (z3.Select(tr(e, TRO), i),)]))]
    out += done
    out.append(('all went on', z3.ForAll([i], z3.Implies(z3.And(i >= n0, i < n0 + m), z3.Select(tr(e, TRR), i) == 1), patterns=[z3.Select(tr(e, TRR), i)])))
    for k in range_counters(L, r):
        out.append(('in range', z3.And(k.cur >= 0, k.cur <= n)))
        out.append(('as many calls as blocks so far', m == z3.Select(BD, k.cur) - start(r)))
        for c, g, desc, info in L.syms:
            if c.sort() == B and info[0] == 'L':
                out.append(('flag holds', c)); out.append(('flag does not hold', z3.Not(c)))
                last = z3.Select(tr(e, TRR), n0 + m - 1) == 1
                for nm, ok in (('flag: the last one went on', c), ('flag: the last one stopped', z3.Not(c))):
                    out.append((nm, z3.And(ok == last, z3.Implies(ok, m == z3.Select(BD, k.cur) - start(r)), m >= 1, m <= size(r))))
                    out.append((nm + ' (all but the last)', z3.ForAll([i], z3.Implies(z3.And(i >= n0, i < n0 + m - 1), z3.Select(tr(e, TRR), i) == 1), patterns=[z3.Select(tr(e, TRR), i)])))
                    out.append((nm + ' (result)', z3.Implies(z3.Not(ok), last == F_ if False else z3.Select(tr(e, TRR), n0 + m - 1) == 0)))
    return out
def mk_visit(leaf, fn):
    q = BK + '::' + fn
    @target('C08', '%s::%s: exactly the subtree in order' % ('Block' if leaf else 'Submodel', fn), hints=[visit_hint], covers=('all', 'stopped'), deep='hints', contracts={**FULLN, 'callback': k_cb, 'virtual ' + q: k_visit_seg(q)})
    def visit(e):
        b, r, C, n = subtree(e, leaf)
        cb = e.sym('cb', Ty('fn')); level, mx = e.sym('level', UINT), e.sym('max', UINT)
        e.assume(z3.And(cb != fnnull, level + z3.Select(HEIGHT, r) <= mx)); pre = e.snap(); n0 = tr(e, TRN, pre); e.assume(n0 == z3.Const('gh:calls', I))
        k, v = e.call((BK if leaf else SM) + '::' + fn, b, [cb, level, mx])
        must_return(e, k)
        if k != 'ret': return
        for d, f in seg_facts(e, n0, r, tr(e, TRN) - n0, v, True): e.prove(d, f)
        i = sk('ti', I); e.prove('earlier calls stay', z3.Implies(z3.And(i >= 0, i < n0), z3.And(*[select(tr(e, x), i) == select(tr(e, x, pre), i) for x in (TRK, TRO, TRR)])))
        e.cover('all' if e.choose(v) else 'stopped')
for l_ in (True, False): mk_visit(l_, 'visit')

@target('C08', 'lemma: consecutive segments are in order and cover', covers=('ok',))
def lemma_seg(e):
    """d(0), d(1), ... with d(i+1) = d(i) + size of the i-th child, sizes at least 1"""
    S = z3.Const('lem:sizes', z3.ArraySort(I, I)); i, j, n, p = z3.Consts('lem:i lem:j lem:n lem:p', I); d = lambda k: z3.Select(BD, k)
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(S, i) >= 1, d(i + 1) == d(i) + z3.Select(S, i))), patterns=[z3.Select(S, i)]))
    a, c = z3.Consts('lem:a lem:c', I)
    step = z3.And(z3.Select(S, c) >= 1, d(c + 1) == d(c) + z3.Select(S, c))
    e.prove('the definition at a place', z3.Implies(z3.And(c >= 0, c < n), step))
    e.prove('in order: next', z3.Implies(c == a + 1, d(a + 1) <= d(c)))
    e.prove('in order: one further', z3.Implies(z3.And(a >= 0, a < c, c < n, step, d(a + 1) <= d(c)), d(a + 1) <= d(c + 1)))
    W = z3.Function('lem:wit', I, I, I)
    good = lambda m: z3.Implies(z3.And(d(0) <= p, p < d(m)), z3.And(W(p, m) >= 0, W(p, m) < m, d(W(p, m)) <= p, p < d(W(p, m) + 1)))
    wdef = lambda m: W(p, m) == z3.If(p >= d(m - 1), m - 1, W(p, m - 1))
    e.prove('covers: no children', good(z3.IntVal(0)))
    e.prove('covers: one more', z3.Implies(z3.And(c >= 0, c < n, wdef(c + 1), good(c)), good(c + 1)))
    e.cover('ok')

# the virtual functions behind the contracts above ----------------------------------------------------------------------------
OVERRIDES = {'_mark_unprocessed': 'Block Submodel BusBlockBuilder', 'process': 'Block Leaf Submodel', 'visit': 'Block Submodel', 'const_visit': 'Block Submodel', 'set_parent': 'Block', 'input_cb': 'Block',
             'processed': 'Block', 'ready_to_process': 'Leaf',
             'activation_function': 'Leaf AddT ConstT DelayT DerivativeT DivideT Function GainT InitialValueT MemoryT MultiplyT PipeT SISOFunctionT SOFunctionT SourceT Sources SubtractT TriggeredIntegratorT',
             'pre_step': 'Block Submodel IntegratorBaseT TriggeredIntegratorT', 'post_step': 'Block Submodel DelayT DerivativeT IntegratorBaseT MemoryT'}
def overriders(ast, name):
    """the classes of the library below Block that define the function, without template arguments"""
    return {r.name.split('<')[0].replace('pooya::', '') for r in ast.recs.values() if r.name.startswith('pooya::') and ast.subclass(r.name, BK) for m in r.methods if m.get('name') == name}
STRUCT = tuple(OVERRIDES)
@target('C08', 'the virtual functions have no overrides but the verified ones', covers=('ok',))
def audit(e):
    for nm in STRUCT:
        new = overriders(e.ast, nm) - set(OVERRIDES[nm].split())
        if new: raise Unsupported('%s::%s is not under contract' % (sorted(new)[0], nm))
        e.prove('%s is defined where verified' % nm, z3.BoolVal('Block' in overriders(e.ast, nm) or nm in ('ready_to_process', 'activation_function')))
    e.cover('ok')
