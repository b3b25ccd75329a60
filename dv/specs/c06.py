"""C06: a leaf runs at most once per pass and only when its required inputs are assigned."""
from .blocks import *
RQ = 3

def req_assigned(e, r, i, st=None):
    """the i-th link is not required or its signal is assigned"""
    S, Fg, n = lk(e, r, st)
    s = select(S, i)
    a = select(e.heap_get((ASG,), z3.ArraySort(Ref, B), st), s)
    return z3.Or(z3.Not(bitf_(select(Fg, i), z3.IntVal(bits_of(e)['Required']))), a)
def ready(e, r, st=None):
    i = z3.Const('q:i', I); S, Fg, n = lk(e, r, st)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), req_assigned(e, r, i, st)), patterns=[z3.Select(S, i)])
def ready_hint(L):
    e = L.eng; r = z3.Const('this', Ref); out = []
    i = z3.Const('q:i', I); S, Fg, n = lk(e, r, L.pre)
    for k in L.counters:
        out.append(('in range', z3.And(k.cur >= 0, k.cur <= n)))
        out.append(('required signals so far are assigned', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k.cur), req_assigned(e, r, i, L.pre)), patterns=[z3.Select(S, i)])))
    for c, g, desc, info in L.syms:
        if c.sort() == B:      # a flag that tells whether all so far are assigned (or whether one is not)
            for k in L.counters:
                f = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k.cur), req_assigned(e, r, i, L.pre)), patterns=[z3.Select(S, i)])
                out.append(('flag is readiness so far', c == f)); out.append(('flag is missing input so far', c == z3.Not(f)))
    return out

def links_assumption(e, r):
    """every linked signal exists"""
    S, Fg, n = lk(e, r); i = z3.Const('q:i', I)
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(S, i) != null, e.isa(z3.Select(S, i), VS))), patterns=[z3.Select(S, i)]))

@target('C06', 'Leaf::ready_to_process', hints=[ready_hint], covers=('yes', 'no'))
def rdy(e):
    b = e.this(LF, exact=False); r = b.root[1]; links_assumption(e, r); pre = e.snap()
    k, v = e.call(LF + '::ready_to_process', b, [])
    must_return(e, k); frame_same(e, 'asking', pre)
    if e.choose(v): e.prove('ready only if every required signal is assigned', ready(e, r, pre)); e.cover('yes')
    else: e.prove('not ready only if a required signal is missing', z3.Not(ready(e, r, pre))); e.cover('no')

@target('C06', 'Leaf::process', hints=[ready_hint], covers=('run', 'skip'), contracts=HOOKS)
def process(e):
    b = e.this(LF, exact=False); r = b.root[1]; links_assumption(e, r)
    t = e.sym('t', REAL); deep = e.sym('deep', BOOL)
    was = e.get(b, PRC); pre = e.snap(); n0 = tr(e, TRN, pre)
    e.assume(n0 >= 0)
    k, v = e.call(LF + '::process', b, [t, deep])
    must_return(e, k)
    if k != 'ret': return
    n = tr(e, TRN)
    if e.choose(n != n0):
        e.prove('activated exactly once, itself, with the given time', z3.And(n == n0 + 1, call_is(e, n0, K_ACT, r, t)))
        e.prove('runs only if not processed yet and ready', z3.And(z3.Not(was), ready(e, r, pre)))
        e.prove('reports one', v == 1); e.prove('counts as processed', e.get(b, PRC))
        frame_obj(e, 'processing', [r, null], pre, [(PRC,)] + list(TRACE), [k for k, _ in SIG_STATE])
        for key, srt in SIG_STATE:
            # signals change through the activation only
            a = e.st.heap.get(key)
            e.prove('only the activation changes signals (%s)' % key[0], z3.BoolVal(a is not None and z3.is_const(a)))
        e.cover('run')
    else:
        e.prove('does nothing only if processed or not ready', z3.Or(was, z3.Not(ready(e, r, pre))))
        e.prove('reports zero', v == 0); frame_same(e, 'skipping', pre); e.cover('skip')

@target('C06', 'Block::_mark_unprocessed', covers=('ret',))
def mark(e):
    b = e.this(BK, exact=False); pre = e.snap()
    k, v = e.call(BK + '::_mark_unprocessed', b, [])
    must_return(e, k); e.prove('unprocessed afterwards', z3.Not(e.get(b, PRC)))
    frame_obj(e, 'marking', [b.root[1]], pre, [(PRC,)]); e.cover('ret')

@target('C06', 'BusBlockBuilder::_mark_unprocessed', covers=('ret',))
def mark_builder(e):
    b = e.this(BBB, exact=False); pre = e.snap()
    k, v = e.call(BBB + '::_mark_unprocessed', b, [])
    must_return(e, k); e.prove('a bus block builder counts as processed, so it never runs', e.get(b, PRC))
    frame_obj(e, 'marking', [b.root[1]], pre, [(PRC,)]); e.cover('ret')

@target('C06', 'Block::processed', covers=('ret',))
def processed(e):
    b = e.this(BK, exact=False); pre = e.snap(); was = e.get(b, PRC)
    k, v = e.call(BK + '::processed', b, [])
    must_return(e, k); e.prove('reports the flag', v == was); frame_same(e, 'asking', pre); e.cover('ret')

@target('C06', 'construction of a block', covers=('ret',), contracts={**__import__('dv.specs.c04', fromlist=['EM']).EM})
def fresh_block(e):
    o = e.new(BK)
    k, v = e.call(BK + '::Block', o, [null, e.sym('name', STR), e.sym('ni', U16), e.sym('no', U16)], nparams=4)
    if k == 'ret':
        e.prove('a new block is unprocessed', z3.Not(e.get(o, PRC))); e.prove('and not connected', z3.Not(e.get(o, BK + '::_connected')))
        e.prove('and has no links', lk(e, o.root[1])[2] == 0); e.cover('ret')

also('C06', 'C05', 'Block::find_linked_signal', 'Block::link_signal')
