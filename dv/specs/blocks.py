"""Vocabulary of blocks: linked signals as a set with flags (ghost position map), contracts of link_signal and find_linked_signal."""
from .common import *
from .c03 import at_def, at_fn
BK = 'pooya::Block'; LF = 'pooya::Leaf'; SM = 'pooya::Submodel'
LS = BK + '::_linked_signals'
IB = BK + '::_ibus'; OB = BK + '::_obus'
GPOS = 'ghost::link_pos'
BI = 'pooya::BusImpl'; SG = BI + '::_signals'
BTP = 'pooya::SignalT<BusSpec>::_typed_ptr'

def enum_bit(e, name, default):
    """bit number of an enumerator of SignalLinkType"""
    for d in e.ast.decl.values():
        if d.get('kind') == 'EnumConstantDecl' and d.get('name') == name:
            v = const_value(d)
            if v and v & (v - 1) == 0: return v.bit_length() - 1
    return default
def const_value(n):
    for x in n.get('inner', []):
        if x.get('kind') == 'ConstantExpr' and 'value' in x: return int(x['value'])
        v = const_value(x)
        if v is not None: return v
    return None
def bits_of(e):
    return {nm: enum_bit(e, nm, d) for nm, d in (('Input', 0), ('Output', 1), ('Internal', 2), ('Required', 3), ('Unknown', 31))}

def lk(e, r, st=None):
    """(signals, flags, count) of the links of block r"""
    v = e.get(e.obj(r, BK), LS, st)
    return v.lv[('[]', 'first')], v.lv[('[]', 'second')], v.lv[('#len',)]
def pos_map(e, r, st=None):
    return select(e.heap_get((GPOS, '[]'), z3.ArraySort(Ref, z3.ArraySort(Ref, I)), st), r)
def pos(e, r, s, st=None): return select(pos_map(e, r, st), s)
def set_pos(e, r, s, v):
    e.write_leaf(Loc(('H', r), (('f', GPOS), ('i', s)), INT), (), I, v)
def link_inv(e, r, st=None):
    """the links are distinct existing value signals; the ghost map gives the position of each linked signal, -1 for others"""
    S, Fg, n = lk(e, r, st); P = pos_map(e, r, st)
    i = z3.Const('q:i', I); s = z3.Const('q:s', Ref)
    # the triggers are chosen so that instantiation terminates
    return z3.And(n >= 0,
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(P, z3.Select(S, i)) == i), patterns=[z3.Select(P, z3.Select(S, i))]),
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(S, i) != null, e.isa(z3.Select(S, i), VS))), patterns=[z3.Select(S, i)]),
                  z3.ForAll([s], z3.Implies(z3.Select(P, s) != -1, z3.And(z3.Select(P, s) >= 0, z3.Select(P, s) < n, z3.Select(S, z3.Select(P, s)) == s)), patterns=[z3.Select(P, s)]))
def linked(e, r, s, st=None): return pos(e, r, s, st) != -1
def flag(e, r, s, bit, st=None):
    S, Fg, n = lk(e, r, st)
    return bitf(select(Fg, pos(e, r, s, st)), bit)

def sigref(e, v):
    v = e.read(v) if isinstance(v, Loc) else v
    return v.lv[(PTR,)] if isinstance(v, SV) else v
def k_link(e, this, args, node):
    """contract of Block::link_signal(signal, types), proved in C05"""
    b = e.addr(this); s = sigref(e, args[0]); ty = e.read(args[1]) if isinstance(args[1], Loc) else args[1]
    if not e.choose(e.isa(s, VS)): return None
    S, Fg, n = lk(e, b); P = pos(e, b, s)
    old = select(Fg, P); nf = e.fresh('flags', I); e.fact(z3.And(nf >= 0, nf < 2 ** 32))
    base = Loc(('H', b), (('f', LS),), e.fld(e.obj(b, BK), LS).ty)
    if e.choose(P != -1):
        for k in BITS: e.fact(bitf(nf, k) == z3.Or(bitf(old, k), bitf(ty, k)))
        e.write_leaf(base, ('[]', 'second'), z3.ArraySort(I, I), store(Fg, P, nf))
    else:
        for k in BITS: e.fact(bitf(nf, k) == bitf(ty, k))
        e.write_leaf(base, ('[]', 'second'), z3.ArraySort(I, I), store(Fg, n, nf))
        e.write_leaf(base, ('[]', 'first'), z3.ArraySort(I, Ref), store(S, n, s))
        e.write_leaf(base, ('#len',), I, n + 1)
        set_pos(e, b, s, n)
    return None
LK = {BK + '::link_signal': k_link}

# buses ----------------------------------------------------------------------------------------------
def bsig(e, o, i, st=None):
    """i-th signal of bus object o"""
    return select(e.get(e.obj(o, BI), SG, st).lv[('[]', 'second', PTR)], i)
def bcount(e, o, st=None): return e.get(e.obj(o, BI), SG, st).lv[('#len',)]
def handle(e, name, cls='pooya::Bus'):
    """an arbitrary handle argument (with the invariant of handles); -> location, signal"""
    v = e.sym(name, rec(cls))
    r = v.lv[(PTR,)]
    e.assume(r != null)
    v = v.with_({q: r for q in v.lv if q[-1].endswith('::_typed_ptr')})
    h = e.new_local(v, rec(cls))
    return h, r
def bus_of(e, r, which, st=None): return e.get(e.obj(r, BK), which, st).lv[(PTR,)]
def first_on(e, name, o, s, st=None):
    """ghost: the first position of signal s on bus o, or its length if s is not on it"""
    i0 = sk(name, I); n = bcount(e, o, st); A = e.get(e.obj(o, BI), SG, st).lv[('[]', 'second', PTR)]
    j = z3.Const('q:j', I)
    e.assume(z3.And(i0 >= 0, i0 <= n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i0), z3.Select(A, j) != s), patterns=[z3.Select(A, j)]), z3.Implies(i0 < n, z3.Select(A, i0) == s)))
    return i0, n

def range_counters(L, o=None):
    """position counters of the loop that range over the elements of container owner o (all integer counters if it uses none)"""
    its = [k for k in L.counters if k.cont is not None]
    if its and o is not None:
        own = [k for k in its if k.cont.root[0] == 'H' and k.cont.root[1].eq(o)]
        return own
    return its or [k for k in L.counters if not k.desc.startswith('H')]

def local_ints(e):
    """the values of the integer variables in scope"""
    out = []
    for fr in e.frames:
        for i, loc in fr.env.items():
            if not isinstance(loc, Loc) or loc.root[0] != 'L' or loc.ty is None or loc.ty.k != 'int': continue
            try: v = e.read(loc)
            except Unsupported: continue        # not initialised yet
            if isinstance(v, z3.ExprRef) and v.sort() == I and not any(v.eq(x) for x in out): out.append(v)
    return out
def k_at_idx(e, this, args, node):
    v = e.read(args[0]) if isinstance(args[0], Loc) else args[0]
    r = e.read(this).lv[(PTR,)]
    if isinstance(v, z3.ExprRef) and v.sort() == I:
        if not e.choose(z3.And(v >= 0, v < bcount(e, r))): raise ThrowEx('at')
        s = bsig(e, r, v)
    else:
        if isinstance(v, Opaque) or not isinstance(v, z3.ExprRef): raise Unsupported('at key')
        if not e.choose(at_def(r, v)): raise ThrowEx('at')
        s = at_fn(r, v)
    e.fact(s != null); e.type_fact(s, SI)
    return SV(rec('pooya::Signal'), {(PTR,): s})
AT = {'pooya::Bus::at': k_at_idx}


def conn_ok(e, r, bi, bo, st=None):
    b = e.obj(r, BK); nolim = z3.IntVal(65535)
    ni, no = bcount(e, bi, st), bcount(e, bo, st)
    nip = e.get(b, BK + '::_num_iports', st); nop = e.get(b, BK + '::_num_oports', st)
    return z3.And(z3.Not(e.get(b, BK + '::_connected', st)), z3.Or(nip == nolim, nip == ni), z3.Or(nop == nolim, nop == no))
def k_connect(e, this, args, node):
    """contract of Block::connect, proved in C05"""
    b = e.addr(this)
    vi, vo = (e.read(a) if isinstance(a, Loc) else a for a in args[:2])
    bi, bo = vi.lv[(PTR,)], vo.lv[(PTR,)]
    if not e.choose(conn_ok(e, b, bi, bo)): raise ThrowEx('connect')
    pre = e.snap()
    base = Loc(('H', b), (('f', LS),), e.fld(e.obj(b, BK), LS).ty)
    for leaf, srt in ((('#len',), I), (('[]', 'first'), z3.ArraySort(I, Ref)), (('[]', 'second'), z3.ArraySort(I, I))):
        e.write_leaf(base, leaf, srt, e.fresh('links', srt))
    e.write_leaf(Loc(('H', b), (('f', GPOS),), None), ('[]',), z3.ArraySort(Ref, I), e.fresh('lpos', z3.ArraySort(Ref, I)))
    e.fact(link_inv(e, b))
    bt = bits_of(e)
    # the value signals on the buses are linked with the flags of their bus (instances for the first port are enough for the callers)
    for o, flags in ((bi, ('Input', 'Required')), (bo, ('Output',))):
        for i in range(3):
            s = bsig(e, o, z3.IntVal(i), pre)
            e.fact(z3.Implies(z3.And(bcount(e, o, pre) > i, e.isa(s, VS)), z3.And(linked(e, b, s), *[flag(e, b, s, bt[f]) for f in flags])))
    for key, r in ((IB, bi), (OB, bo)):
        for leaf in (PTR, BTP): e.write_leaf(Loc(('H', b), (('f', key),), None), (leaf,), Ref, r)
    e.write_leaf(Loc(('H', b), (('f', BK + '::_connected'),), BOOL), (), B, T_)
    return T_
CONN = {BK + '::connect': k_connect}

# ghost trace of the calls that reach code outside the verified function (children, callbacks, hooks) ----------------------------
TRN, TRK, TRO, TRT, TRL = ('ghost::tr_n',), ('ghost::tr_kind', '[]'), ('ghost::tr_obj', '[]'), ('ghost::tr_t', '[]'), ('ghost::tr_level', '[]')
TRACE = (TRN, TRK, TRO, TRT, TRL)
_tr = {TRN: I, TRK: z3.ArraySort(I, I), TRO: z3.ArraySort(I, Ref), TRT: z3.ArraySort(I, R), TRL: z3.ArraySort(I, I)}
def tr(e, key, st=None): return select(e.heap_get(key, z3.ArraySort(Ref, _tr[key]), st), null)
def emit(e, kind, obj, t=None, level=None):
    """record one call; kind is a number"""
    n = tr(e, TRN)
    e.fact(n >= 0)
    base = lambda f: Loc(('H', null), (('f', f[0]), ('i', n)), None)
    e.write_leaf(base(TRK), (), I, z3.IntVal(kind))
    e.write_leaf(base(TRO), (), Ref, obj)
    if t is not None: e.write_leaf(base(TRT), (), R, t)
    if level is not None: e.write_leaf(base(TRL), (), I, level)
    e.write_leaf(Loc(('H', null), (('f', TRN[0]),), INT), (), I, n + 1)
def call_is(e, i, kind, obj, t=None, level=None, st=None):
    """the i-th recorded call"""
    fs = [select(tr(e, TRK, st), i) == kind, select(tr(e, TRO, st), i) == obj]
    if t is not None: fs.append(select(tr(e, TRT, st), i) == t)
    if level is not None: fs.append(select(tr(e, TRL, st), i) == level)
    return z3.And(*fs)
def trace_prefix(e, pre, st=None):
    """earlier calls stay recorded (at a skolem index)"""
    i = sk('ti', I); n0 = tr(e, TRN, pre)
    return z3.Implies(z3.And(i >= 0, i < n0), z3.And(*[select(tr(e, k, st), i) == select(tr(e, k, pre), i) for k in TRACE[1:]]))

def havoc_key(e, key, sort):
    """an unknown function may have changed this field of any object"""
    c = e.fresh('hv:' + '/'.join(key), z3.ArraySort(Ref, sort))
    e.st.heap[tuple(key)] = c
    if e.st.log is not None: e.st.log.setdefault(('H', tuple(key)), {'sort': c.sort(), 'refs': []})['refs'].append(None)
SIG_STATE = [((ASG,), B), ((vkey('double'),), R), ((vkey('int'),), I), ((vkey('bool'),), B), ((vkey('Array'), '#len'), I), ((vkey('Array'), '[]'), z3.ArraySort(I, R))]
def havoc_signals(e):
    """what the activation or a hook of a block may do to the model: assign and clear signals"""
    for k, s in SIG_STATE: havoc_key(e, k, s)
PRC = BK + '::_processed'
BBB = 'pooya::BusBlockBuilder'
def builder(b):
    """a bus block builder: it does nothing in a simulation and counts as processed even when marked"""
    return isa_fn(BBB)(b)
K_ACT, K_PRE, K_POST, K_MARK, K_PROC, K_CB, K_INPUT, K_VISIT = range(8)
def mk_hook(kind, timed=True, sigs=True):
    def k(e, this, args, node):
        t = None
        if timed: t = e.read(args[0]) if isinstance(args[0], Loc) else args[0]
        emit(e, kind, e.addr(this), t)
        if sigs: havoc_signals(e)
        return None
    return k
HOOKS = {'virtual ' + LF + '::activation_function': mk_hook(K_ACT), 'virtual ' + BK + '::pre_step': mk_hook(K_PRE), 'virtual ' + BK + '::post_step': mk_hook(K_POST)}

TRR = ('ghost::tr_res', '[]'); GSUM = ('ghost::sum',)
_tr[TRR] = z3.ArraySort(I, I); _tr[GSUM] = I
TRACE = TRACE + (TRR, GSUM)
def set_res(e, i, v): e.write_leaf(Loc(('H', null), (('f', TRR[0]), ('i', i)), None), (), I, v)
BLKS = SM + '::_blocks'
def blocks(e, r, st=None):
    v = e.get(e.obj(r, SM), BLKS, st)
    return v.lv[('[]',)], v.lv[('#len',)]
def barg(e, decl_q, args, i):
    """i-th argument of a call, the default argument of the named function if it is left out"""
    if i < len(args) and args[i] is not None:
        v = e.read(args[i]) if isinstance(args[i], Loc) else args[i]
    else:
        d = None
        for i_, q in e.ast.qname.items():
            if q != decl_q or i_ not in e.ast.decl: continue
            d = e.default_arg(e.ast.decl[i_], i)
            if d is not None: break
        if d is None: raise Unsupported('default argument of %s' % decl_q)
        v = e.ev(d)
    return v
def k_process_child(e, this, args, node):
    """processing a child: any count, the child's own flag, signals; the flags of its siblings and its parent stay"""
    t = barg(e, BK + '::process', args, 0); deep = barg(e, BK + '::process', args, 1)
    c = e.addr(this); n = tr(e, TRN)
    emit(e, K_PROC, c, t, z3.If(deep, z3.IntVal(1), z3.IntVal(0)) if isinstance(deep, z3.ExprRef) else z3.IntVal(int(bool(deep))))
    v = e.fresh('count', I); e.fact(z3.And(v >= 0, v < 2 ** 32))
    set_res(e, n, v)
    s = tr(e, GSUM) + v
    e.assume(z3.And(tr(e, GSUM) >= 0, s < 2 ** 32))      # fewer than 2^32 blocks
    e.write_leaf(Loc(('H', null), (('f', GSUM[0]),), INT), (), I, s)
    e.write_leaf(Loc(('H', c), (('f', PRC),), BOOL), (), B, e.fresh('processed', B))
    havoc_signals(e)
    return v
def k_mark_child(e, this, args, node):
    c = e.addr(this)
    emit(e, K_MARK, c)
    e.write_leaf(Loc(('H', c), (('f', PRC),), BOOL), (), B, builder(c))
    return None
def k_visit_child(q):
    def k(e, this, args, node):
        cb = e.read(args[0]) if isinstance(args[0], Loc) else args[0]
        if isinstance(cb, Closure): raise Unsupported('visitor is wrapped')
        e.prove('the callback is passed on', cb == z3.Const('arg:cb', Fn))
        level = barg(e, q, args, 1); mx = barg(e, q, args, 2)
        if e.choose(level > mx): return T_          # nothing to visit below the maximal level
        e.prove('the maximal level is passed on', mx == z3.Const('arg:max', I))
        n = tr(e, TRN)
        emit(e, K_VISIT, e.addr(this), None, level)
        v = e.fresh('goon', B)
        set_res(e, n, z3.If(v, z3.IntVal(1), z3.IntVal(0)))
        return v
    return k
def k_cb(e, f, args, node):
    """a call of the visitor itself"""
    e.prove('it is the given callback', f == z3.Const('arg:cb', Fn))
    n = tr(e, TRN)
    b = args[0]; level = e.read(args[1]) if isinstance(args[1], Loc) else args[1]
    emit(e, K_CB, e.addr(b) if isinstance(b, Loc) else b, None, level)
    v = e.fresh('goon', B)
    set_res(e, n, z3.If(v, z3.IntVal(1), z3.IntVal(0)))
    return v

# the model as a sequence of blocks: visiting it from level 0 calls the visitor on every block once, in a fixed order (C07) -------
MB = z3.Const('model:blocks', z3.ArraySort(I, Ref)); MN = z3.Const('model:n', I); MPOS = z3.Const('model:pos', z3.ArraySort(Ref, I))
def model_seq(e, model):
    i = z3.Const('q:i', I)
    e.assume(z3.And(MN >= 1, MN < 2 ** 31, z3.Select(MB, 0) == model))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < MN), z3.And(z3.Select(MB, i) != null, z3.Select(MPOS, z3.Select(MB, i)) == i, aid(z3.Select(MB, i)) <= e.st.alloc)), patterns=[z3.Select(MB, i)]))
def in_model(b): return z3.And(z3.Select(MPOS, b) >= 0, z3.Select(MPOS, b) < MN, z3.Select(MB, z3.Select(MPOS, b)) == b)
def k_visit_model(e, this, args, node):
    cb = e.read(args[0]) if isinstance(args[0], Loc) else args[0]
    level = barg(e, BK + '::visit', args, 1)
    e.prove('the model is visited from its top', z3.And(e.addr(this) == z3.Select(MB, 0)))
    iv = e.new_local(z3.IntVal(0), INT); res = e.new_local(T_, BOOL)
    def cond(): return e.read(iv) < MN
    def inc(): e.write(iv, e.read(iv) + 1)
    def body():
        b = z3.Select(MB, e.read(iv)); e.type_fact(b, BK)
        e.assume(z3.And(b != null, aid(b) <= e.st.alloc))
        lv = e.fresh('level', I); e.fact(z3.And(lv >= 0, lv < 2 ** 32))
        a = [Loc(('H', b), (), rec(BK)), lv]
        r = e.call_closure(cb, a, node) if isinstance(cb, Closure) else e.call_fnval(cb, a, node)
        r = e.read(r) if isinstance(r, Loc) else r
        if not e.choose(r): e.write(res, F_); raise BreakEx()
    e.loop({'id': 'visit:%s' % node.get('id'), 'kind': 'ForStmt', 'inner': [{}, {}, {'kind': 'x'}], 'range': node.get('range', {})}, cond, inc, body, 'visit')
    return e.read(res)
VISIT = {'virtual ' + BK + '::visit': k_visit_model}
def k_input(e, this, args, node):
    emit(e, K_INPUT, e.addr(this), barg(e, BK + '::input_cb', args, 0)); havoc_signals(e)
    return None

def k_full_name(e, this, args, node):
    """full names only appear in messages here (their form: C04)"""
    return e.fresh_sv('fullname', rec('pooya::ValidName'))
FULLN = {BK + '::full_name': k_full_name}

def refvec_hint(L):
    """local vectors of blocks only hold blocks of the model"""
    e = L.eng; out = []; j = z3.Const('q:j', I)
    lens = {(i[1], i[2][:-1]): c for c, g, d, i in L.syms if i[0] == 'S' and i[2][-1] == '#len'}
    for c, g, d, i in L.syms:
        if i[0] == 'S' and i[2][-1] == '[]' and c.sort() == z3.ArraySort(I, Ref) and (i[1], i[2][:-1]) in lens:
            n = lens[(i[1], i[2][:-1])]
            out.append(('blocks of the model', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(c, j) != null, in_model(z3.Select(c, j)))), patterns=[z3.Select(c, j)])))
    return out
def links_exist(e):
    """every block's links are existing value signals (C05)"""
    b, i = z3.Const('q:b', Ref), z3.Const('q:i', I)
    S = e.heap_get((LS, '[]', 'first'), z3.ArraySort(Ref, z3.ArraySort(I, Ref))); n = e.heap_get((LS, '#len'), z3.ArraySort(Ref, I))
    s = z3.Select(z3.Select(S, b), i)
    e.assume(z3.ForAll([b, i], z3.Implies(z3.And(i >= 0, i < z3.Select(n, b)), z3.And(s != null, isa_fn(VS)(s), aid(s) <= e.st.alloc)), patterns=[s]))
