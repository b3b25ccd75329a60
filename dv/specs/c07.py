"""C07: a submodel reaches every child, in order, exactly once."""
from .blocks import *
from .c04 import EM
THIS = z3.Const('this', Ref)
PAR = BK + '::_parent'

def seq(e, pre, m, off, child, kind, t=None, level=None, st=None):
    """calls off .. off+m-1 (counted from the state pre) are the children 0..m-1 in order (at any index)"""
    j = z3.Const('q:j', I); n0 = tr(e, TRN, pre) + off
    C, n = child
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), call_is(e, n0 + j, kind, z3.Select(C, j), t, level, st)), patterns=[z3.Select(C, j)])
def seq_sk(e, pre, m, off, child, kind, t=None, level=None):
    j = sk('j', I); n0 = tr(e, TRN, pre) + off
    C, n = child
    return z3.Implies(z3.And(j >= 0, j < m), call_is(e, n0 + j, kind, select(C, j), t, level))
def old_calls(e, pre):
    i = z3.Const('q:i', I); n0 = tr(e, TRN, pre)
    ks = (TRK, TRO, TRT, TRL, TRR)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n0), z3.And(*[z3.Select(tr(e, k), i) == z3.Select(tr(e, k, pre), i) for k in ks])), patterns=[z3.Select(tr(e, TRK), i)])

def flags_hint(L, e, r, C, k):
    """the own flag and local variables that tell whether all children so far are processed, or how many ran"""
    j = z3.Const('q:j', I); out = []; F = e.heap_get((PRC,), z3.ArraySort(Ref, B))
    allp = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k.cur), z3.Select(F, z3.Select(C, j))), patterns=[z3.Select(C, j)])
    out.append(('processed if all so far are', select(F, r) == allp))
    for c, g, desc, info in L.syms:
        if info[0] != 'L': continue
        if c.sort() == B: out.append(('flag: all so far are processed', c == allp)); out.append(('flag: one so far is not processed', c == z3.Not(allp)))
        if c.sort() == I: out.append(('sum so far', c == tr(e, GSUM) - tr(e, GSUM, L.pre))); out.append(('count: zero if all are processed', z3.And(c >= 0, c <= k.cur, (c == 0) == allp))); out.append(('count: full if all are processed', z3.And(c >= 0, c <= k.cur, (c == k.cur) == allp)))
    return out
def child_hint(kind, timed=True):
    def h(L):
        e = L.eng; out = []; r = THIS
        C, n = blocks(e, r, L.pre)
        t = z3.Const('arg:t', R) if timed else None
        lev = z3.IntVal(1) if kind == K_PROC else z3.Const('arg:level', I) + 1 if kind == K_VISIT else None
        for k in range_counters(L, r):
            out.append(('in range', z3.And(k.cur >= 0, k.cur <= n)))
            j = z3.Const('q:j', I)
            done = [('calls so far', tr(e, TRN) == tr(e, TRN, L.pre) + k.cur), ('children so far', seq(e, L.pre, k.cur, 0, (C, n), kind, t, lev))]
            if kind in (K_MARK, K_PROC): out.append(('own flag stays', select(e.heap_get((PRC,), z3.ArraySort(Ref, B)), r) == select(e.heap_get((PRC,), z3.ArraySort(Ref, B), L.pre), r)))
            if kind == K_PROC:
                done += flags_hint(L, e, r, C, k)
                out.append(('sum grows', tr(e, GSUM) >= tr(e, GSUM, L.pre)))
            if kind == K_VISIT:
                n0 = tr(e, TRN, L.pre)
                done.append(('all so far went on', z3.ForAll([j], z3.Implies(z3.And(j >= n0, j < n0 + k.cur), z3.Select(tr(e, TRR), j) == 1), patterns=[z3.Select(tr(e, TRR), j)])))
                for c, g, desc, info in L.syms:
                    if c.sort() == B and info[0] == 'L': out.append(('flag holds', c)); out.append(('flag does not hold', z3.Not(c)))
                    if c.sort() == B and info[0] == 'L':
                        last = z3.Or(k.cur == 0, z3.Select(tr(e, TRR), n0 + k.cur - 1) == 1)
                        out.append(('flag: the last one went on', c == last)); out.append(('flag: the last one stopped', c == z3.Not(last)))
                        out.append(('flag: result', z3.Or(z3.Select(tr(e, TRR), n0 + k.cur - 1) == 1, z3.Select(tr(e, TRR), n0 + k.cur - 1) == 0, k.cur == 0)))
            out += done
        out.append(('old calls stay', old_calls(e, L.pre)))
        return out
    return h

def model(e, n0pos=True):
    """an arbitrary submodel: distinct children, none of which is the submodel itself"""
    b = e.this(SM, exact=False); r = b.root[1]
    C, n = blocks(e, r)
    i, j = z3.Consts('q:i q:j2', I)
    e.assume(n >= 0); e.assume(tr(e, TRN) >= 0); e.assume(tr(e, GSUM) >= 0)
    P = z3.Const('children:pos', z3.ArraySort(Ref, I))    # position of a child (the children are distinct)
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(P, z3.Select(C, i)) == i, z3.Select(C, i) != null, z3.Select(C, i) != r, aid(z3.Select(C, i)) <= e.st.alloc)), patterns=[z3.Select(C, i)]))
    return b, r, C, n

def mk_each(fn, kind, hookname, q=None):
    @target('C07', 'Submodel::%s' % fn, hints=[child_hint(kind)], covers=('ret',), contracts=HOOKS)
    def t_(e):
        b, r, C, n = model(e); t = e.sym('t', REAL); pre = e.snap()
        k, v = e.call(SM + '::' + fn, b, [t])
        must_return(e, k)
        e.prove('as many calls as children', tr(e, TRN) == tr(e, TRN, pre) + n)
        e.prove('each child in order with the time', seq_sk(e, pre, n, 0, (C, n), kind, t))
        frame_obj(e, fn, [null], pre, TRACE, [k for k, _ in SIG_STATE]); e.cover('ret')
mk_each('pre_step', K_PRE, 'pre_step'); mk_each('post_step', K_POST, 'post_step')

MARKS = {'virtual ' + BK + '::_mark_unprocessed': k_mark_child}
@target('C07', 'Submodel::_mark_unprocessed', hints=[child_hint(K_MARK, False)], covers=('ret',), contracts=MARKS)
def mark(e):
    b, r, C, n = model(e); pre = e.snap()
    k, v = e.call(SM + '::_mark_unprocessed', b, [])
    must_return(e, k)
    e.prove('as many calls as children', tr(e, TRN) == tr(e, TRN, pre) + n)
    e.prove('each child in order', seq_sk(e, pre, n, 0, (C, n), K_MARK))
    e.prove('unprocessed itself', z3.Not(e.get(b, PRC)))
    frame_obj(e, 'marking', [null], pre, TRACE, [(PRC,)]); e.cover('ret')

PROC = {'virtual ' + BK + '::process': k_process_child}
@target('C07', 'Submodel::process', hints=[child_hint(K_PROC)], covers=('deep', 'done'), contracts=PROC)
def process(e):
    b, r, C, n = model(e); t = e.sym('t', REAL); deep = e.sym('deep', BOOL)
    was = e.get(b, PRC); pre = e.snap()
    k, v = e.call(SM + '::process', b, [t, deep])
    must_return(e, k)
    if k != 'ret': return
    if e.choose(was):
        e.prove('an already processed one reports nothing', v == 0); frame_same(e, 'an already processed one', pre); e.cover('done'); return
    if not e.choose(deep): return
    e.prove('as many calls as children', tr(e, TRN) == tr(e, TRN, pre) + n)
    e.prove('each child deeply, in order, with the time', seq_sk(e, pre, n, 0, (C, n), K_PROC, t, z3.IntVal(1)))
    e.prove('reports the sum', v == tr(e, GSUM) - tr(e, GSUM, pre))
    j = z3.Const('q:j', I)
    allp = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(e.heap_get((PRC,), z3.ArraySort(Ref, B)), z3.Select(C, j))), patterns=[z3.Select(C, j)])
    e.prove('processed exactly when all children are', e.get(b, PRC) == allp)
    frame_obj(e, 'processing', [null], pre, TRACE, [k for k, _ in SIG_STATE] + [(PRC,)]); e.cover('deep')

# visitors -----------------------------------------------------------------------------------------------------------------
def mk_visit(fn):
    q = BK + '::' + fn
    @target('C07', 'Block::%s' % fn, covers=('called', 'skipped'), contracts={'callback': k_cb})
    def leafv(e):
        b = e.this(BK, exact=False); r = b.root[1]; e.assume(tr(e, TRN) >= 0)
        cb = e.sym('cb', Ty('fn')); level, mx = e.sym('level', UINT), e.sym('max', UINT)
        e.assume(cb != fnnull); pre = e.snap(); n0 = tr(e, TRN, pre)
        k, v = e.call(q, b, [cb, level, mx])
        must_return(e, k)
        if k != 'ret': return
        if e.choose(level > mx): e.prove('nothing below the maximal level', z3.And(tr(e, TRN) == n0, v)); e.cover('skipped')
        else:
            e.prove('calls the callback once, on itself, with the level', z3.And(tr(e, TRN) == n0 + 1, call_is(e, n0, K_CB, r, None, level)))
            e.prove('reports what it returned', z3.If(v, z3.IntVal(1), z3.IntVal(0)) == select(tr(e, TRR), n0)); e.cover('called')
        frame_obj(e, 'visit', [null], pre, TRACE)
    @target('C07', 'Submodel::%s' % fn, hints=[child_hint(K_VISIT, False)], covers=('all', 'self stops', 'child stops', 'skipped'), contracts={'callback': k_cb, 'virtual ' + q: k_visit_child(q)})
    def subv(e):
        b, r, C, n = model(e)
        cb = e.sym('cb', Ty('fn')); level, mx = e.sym('level', UINT), e.sym('max', UINT)
        e.assume(cb != fnnull); pre = e.snap(); n0 = tr(e, TRN, pre)
        k, v = e.call(SM + '::' + fn, b, [cb, level, mx])
        must_return(e, k)
        if k != 'ret': return
        m = tr(e, TRN) - n0
        frame_obj(e, 'visit', [null], pre, TRACE)
        if e.choose(level > mx): e.prove('nothing below the maximal level', z3.And(m == 0, v)); e.cover('skipped'); return
        total = z3.If(level < mx, n + 1, z3.IntVal(1))
        e.prove('first the block itself', z3.And(m >= 1, call_is(e, n0, K_CB, r, None, level)))
        e.prove('then children in order, one level deeper', seq_sk(e, pre, m - 1, 1, (C, n), K_VISIT, None, level + 1))
        e.prove('each child at most once', m <= total)
        j = sk('c', I)
        e.prove('goes on only while callbacks say so', z3.Implies(z3.And(j >= 0, j < m - 1), select(tr(e, TRR), n0 + j) == 1))
        last = select(tr(e, TRR), n0 + m - 1)
        if e.choose(v):
            e.prove('reports success only when no callback stopped it and all were visited', z3.And(m == total, last == 1)); e.cover('all')
        else:
            e.prove('reports a stop only if the last callback asked for it', last == 0); e.cover('self stops' if not e.choose(m > 1) else 'child stops')
for f in ('visit', 'const_visit'): mk_visit(f)

# membership -----------------------------------------------------------------------------------------------------------------
def inv_blocks(e, r, st=None):
    """children are distinct: the ghost map gives each child's position"""
    C, n = blocks(e, r, st); i = z3.Const('q:i', I); s = z3.Const('q:s', Ref)
    P = child_pos(e, r, st)
    return z3.And(n >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(P, z3.Select(C, i)) == i), patterns=[z3.Select(P, z3.Select(C, i))]),
                  z3.ForAll([s], z3.Implies(z3.Select(P, s) != -1, z3.And(z3.Select(P, s) >= 0, z3.Select(P, s) < n, z3.Select(C, z3.Select(P, s)) == s)), patterns=[z3.Select(P, s)]))
CPOS = 'ghost::child_pos'
def child_pos(e, r, st=None): return select(e.heap_get((CPOS, '[]'), z3.ArraySort(Ref, z3.ArraySort(Ref, I)), st), r)
def find_hint(L):
    e = L.eng; out = []
    r = THIS; s = z3.Const('arg:block', Ref)
    C, n = blocks(e, r, L.pre); p = select(child_pos(e, r, L.pre), s)
    for k in L.counters:
        out.append(('in range', z3.And(k.cur >= 0, k.cur <= n))); out.append(('not passed yet', z3.Implies(p != -1, p >= k.cur)))
    return out
def check_link(e, r, s, pre, v, ok):
    """postcondition of linking child s into r"""
    C0, n0 = blocks(e, r, pre); C, n = blocks(e, r); p0 = select(child_pos(e, r, pre), s)
    q = sk('q', I)
    if ok:
        was = e.choose(p0 != -1)
        if not was:
            e.write_leaf(Loc(('H', r), (('f', CPOS), ('i', s)), INT), (), I, n0)
            e.prove('appended once', z3.And(n == n0 + 1, select(C, n0) == s)); e.cover('new')
        else: e.prove('not repeated', n == n0); e.cover('again')
        e.prove('reports success', v)
    else:
        e.prove('refused', z3.Not(v)); e.prove('no child more', n == n0); e.cover('refused')
    e.prove('the other children stay in order', z3.Implies(z3.And(q >= 0, q < n0), select(C, q) == select(C0, q)))
    e.prove('children stay distinct', inv_blocks(e, r))
BKEYS = [(BLKS, '#len'), (BLKS, '[]'), (CPOS, '[]')]

@target('C07', 'Submodel::link_block', hints=[find_hint], covers=('new', 'again', 'refused'), contracts=EM)
def link(e):
    b = e.this(SM, exact=False); r = b.root[1]; s = e.ref('block', BK)
    e.assume(inv_blocks(e, r)); pre = e.snap()
    k, v = e.call(SM + '::link_block', b, [e.obj(s, BK)])
    must_return(e, k)
    if k != 'ret': return
    check_link(e, r, s, pre, v, e.choose(e.get(e.obj(s, BK), PAR, pre) == r))
    frame_obj(e, 'linking', [r], pre, BKEYS)

@target('C07', 'Block::set_parent', hints=[find_hint], covers=('new', 'again', 'refused'), contracts=EM)
def setp(e):
    s = z3.Const('arg:block', Ref); e.type_fact(s, BK); e.assume(z3.And(s != null, aid(s) <= e.st.alloc))
    m = e.obj(THIS, SM); e.type_fact(THIS, SM); e.assume(THIS != null)
    e.assume(inv_blocks(e, THIS)); pre = e.snap()
    par = e.get(e.obj(s, BK), PAR, pre)
    k, v = e.call(BK + '::set_parent', e.obj(s, BK), [m])
    must_return(e, k)
    if k != 'ret': return
    ok = e.choose(z3.Or(par == null, par == THIS))
    check_link(e, THIS, s, pre, v, ok)
    e.prove('its parent afterwards', e.get(e.obj(s, BK), PAR) == (THIS if ok else par))
    frame_obj(e, 'adding', [THIS, s], pre, BKEYS + [(PAR,)])

def k_virt_set_parent(e, this, args, node):
    """no class of the library overrides set_parent: the block's own function runs"""
    f = [x for x in e.ast.functions(BK + '::set_parent')]
    d = None
    for x in f: d = e.ast.def_of(x['id']) or d
    return e.call_fn(d, this, args)
def k_virt_connect(e, this, args, node):
    n = tr(e, TRN)
    for i, w in ((0, 'ib'), (1, 'ob')): e.prove('connected with the given buses', e.read(args[i]).lv[(PTR,)] == z3.Const('gh:' + w, Ref))
    emit(e, K_INPUT, e.addr(this))
    if e.choose(e.fresh('rejects', B)): raise ThrowEx('connect')
    return T_
@target('C07', 'Submodel::add_block', hints=[find_hint], covers=('new', 'again', 'refused'), contracts={**EM, 'virtual ' + BK + '::set_parent': k_virt_set_parent, 'virtual ' + BK + '::connect': k_virt_connect})
def add(e):
    s = z3.Const('arg:block', Ref); e.type_fact(s, BK); e.assume(z3.And(s != null, aid(s) <= e.st.alloc))
    b = e.this(SM, exact=False); ib, bi = handle(e, 'ib'); ob, bo = handle(e, 'ob')
    e.assume(z3.And(bi == z3.Const('gh:ib', Ref), bo == z3.Const('gh:ob', Ref)))
    e.assume(inv_blocks(e, THIS)); e.assume(tr(e, TRN) >= 0); pre = e.snap()
    par = e.get(e.obj(s, BK), PAR, pre)
    ok0 = z3.Or(par == null, par == THIS)
    k, v = e.call(SM + '::add_block', b, [e.obj(s, BK), ib, ob])
    ok = e.choose(ok0)
    if k == 'throw':
        e.prove('fails only in connecting a block of its own', z3.And(ok0, tr(e, TRN) == tr(e, TRN, pre) + 1)); return
    check_link(e, THIS, s, pre, v, ok)
    e.prove('connected only if accepted', tr(e, TRN) == tr(e, TRN, pre) + (1 if ok else 0))
    e.prove('its parent afterwards', e.get(e.obj(s, BK), PAR) == (THIS if ok else par))
    frame_obj(e, 'adding', [THIS, s, null], pre, BKEYS + [(PAR,)] + list(TRACE))

@target('C07', 'construction of a block in a submodel', hints=[find_hint], covers=('ret', 'no parent'), contracts=EM)
def ctor(e):
    b = e.this(SM, exact=False); e.assume(inv_blocks(e, THIS))
    pre = e.snap(); o = e.new(BK); s = o.root[1]
    # the new object is not yet a child of anything
    e.assume(select(child_pos(e, THIS), s) == -1)
    par = e.sym('parent', Ty('ref', rec=SM)) if False else (THIS if e.choose(e.fresh('with parent', B)) else null)
    C0, n0 = blocks(e, THIS, pre)
    k, v = e.call(BK + '::Block', o, [par, e.sym('name', STR), e.sym('ni', U16), e.sym('no', U16)], nparams=4)
    must_return(e, k)
    if k != 'ret': return
    C, n = blocks(e, THIS); q = sk('q', I)
    if par is null: e.prove('no submodel gets it', n == n0); e.cover('no parent')
    else: e.prove('appended once', z3.And(n == n0 + 1, select(C, n0) == s)); e.cover('ret')
    e.prove('its parent', e.get(o, PAR) == par)
    e.prove('the other children stay in order', z3.Implies(z3.And(q >= 0, q < n0), select(C, q) == select(C0, q)))
    frame_obj(e, 'construction', [THIS, s], pre, BKEYS + [(PAR,)])

@target('C07', 'construction of a submodel', hints=[find_hint], covers=('ret', 'no parent'), contracts=EM)
def sctor(e):
    e.this(SM, exact=False); e.assume(inv_blocks(e, THIS)); pre = e.snap(); o = e.new(SM); s = o.root[1]
    e.assume(select(child_pos(e, THIS), s) == -1)
    par = THIS if e.choose(e.fresh('with parent', B)) else null
    ni, no = e.sym('ni', U16), e.sym('no', U16); C0, n0 = blocks(e, THIS, pre)
    k, v = e.call(SM + '::Submodel', o, [par, e.sym('name', STR), ni, no], nparams=4)
    must_return(e, k)
    if k != 'ret': return
    C, n = blocks(e, THIS)
    e.prove('a new submodel has no children', blocks(e, s)[1] == 0); e.prove('its parent', e.get(o, PAR) == par); e.prove('unprocessed', z3.Not(e.get(o, PRC)))
    e.prove('its ports', z3.And(e.get(o, BK + '::_num_iports') == ni, e.get(o, BK + '::_num_oports') == no))
    if par is null: e.prove('no submodel gets it', n == n0); e.cover('no parent')
    else: e.prove('appended once', z3.And(n == n0 + 1, select(C, n0) == s)); e.cover('ret')
    frame_obj(e, 'construction', [THIS, s], pre, BKEYS + [(PAR,)])

META = {'assumptions': ['a block is not destroyed while a submodel that refers to it is in use; a submodel is not its own descendant']}
