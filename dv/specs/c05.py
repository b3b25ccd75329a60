"""C05: connecting blocks and linking signals."""
from .blocks import *
from .c03 import at_def, at_fn
from .c02 import BASES
from .c04 import EM
CB = ('Input', 'Output', 'Internal', 'Required', 'Unknown')
LKEYS = [(LS, '#len'), (LS, '[]', 'first'), (LS, '[]', 'second')]

def find_hint(L):
    e = L.eng; out = []
    s = z3.Const('arg:impl', Ref); b = z3.Const('this', Ref)
    S, Fg, n = lk(e, b, L.pre)
    for k in L.counters:
        out.append(('in range', z3.And(k.cur >= 0, k.cur <= n)))
        out.append(('not passed yet', z3.Implies(pos(e, b, s, L.pre) != -1, pos(e, b, s, L.pre) >= k.cur)))
    return out

@target('C05', 'Block::find_linked_signal', covers=('none', 'found'), hints=[find_hint])
def find(e):
    b = e.this(BK, exact=False); r = b.root[1]; s = e.ref('impl', SI)
    e.assume(link_inv(e, r)); pre = e.snap()
    k, v = e.call(BK + '::find_linked_signal', b, [e.obj(s, SI)])
    must_return(e, k); frame_same(e, 'search', pre)
    if k != 'ret': return
    if isinstance(v, z3.ExprRef) and v.sort() == Ref:
        e.prove('null only for a signal that is not linked', z3.Not(linked(e, r, s, pre))); e.cover('none')
    else:
        if isinstance(v, LocPtr): loc = v.loc; i = loc.steps[-1][1]; c = Loc(loc.root, loc.steps[:-1], None)
        else: i = v.idx; c = v.cont
        e.prove('points into the links of the block', z3.BoolVal(c.root[0] == 'H' and c.root[1].eq(r) and c.steps[-1][1] == LS))
        e.prove('the entry of the signal', z3.And(linked(e, r, s, pre), i == pos(e, r, s, pre))); e.cover('found')

def link_hint(L):
    e = L.eng; out = []
    b = z3.Const('this', Ref); s = z3.Const('arg:g/' + PTR, Ref)
    for k in L.counters:
        out.append(('in range', z3.And(k.cur >= 0, k.cur <= lk(e, b, L.pre)[2])))
        out.append(('not passed yet', z3.Implies(pos(e, b, s, L.pre) != -1, pos(e, b, s, L.pre) >= k.cur)))
    return out

@target('C05', 'Block::link_signal', covers=('new', 'again', 'other'), hints=[link_hint])
def link(e):
    b = e.this(BK, exact=False); r = b.root[1]
    g, s = handle(e, 'g', 'pooya::Signal'); ty = e.sym('types', UINT)
    e.assume(link_inv(e, r)); pre = e.snap()
    k, v = e.call(BK + '::link_signal', b, [g, ty])
    must_return(e, k)
    if k != 'ret': return
    isv = e.choose(e.isa(s, VS)); was = isv and e.choose(linked(e, r, s, pre))
    S0, F0, n0 = lk(e, r, pre); S, Fg, n = lk(e, r)
    q = sk('q', I)
    if isv and not was:        # ghost: the new signal is at the end
        set_pos(e, r, s, n0)
        e.prove('exactly one link more', n == n0 + 1)
        e.prove('the new link is the signal', select(S, n0) == s)
        for kk in BITS: e.prove('its flags are those given (%d)' % kk, bitf(select(Fg, n0), kk) == bitf(ty, kk))
        e.prove('other flags stay', z3.Implies(z3.And(q >= 0, q < n0), select(Fg, q) == select(F0, q))); e.cover('new')
    else:
        e.prove('no new link', n == n0)
        p0 = pos(e, r, s, pre)
        e.prove('other flags stay', z3.Implies(z3.And(q >= 0, q < n0, z3.BoolVal(not was) if not was else q != p0), select(Fg, q) == select(F0, q)))
        if was:
            for kk in BITS: e.prove('flags are added (%d)' % kk, bitf(select(Fg, p0), kk) == z3.Or(bitf(select(F0, p0), kk), bitf(ty, kk)))
        e.cover('again' if was else 'other')
    e.prove('other links stay', z3.Implies(z3.And(q >= 0, q < n0), select(S, q) == select(S0, q)))
    e.prove('the links stay distinct value signals', link_inv(e, r))
    frame_obj(e, 'linking', [r], pre, LKEYS + [(GPOS, '[]')])

def conn_hint(L):
    e = L.eng; out = []
    r = z3.Const('this', Ref); s = sk('s', Ref)
    i0, o0 = sk('i0', I), sk('o0', I)
    bi = z3.Const('arg:ib/' + PTR, Ref); bo = z3.Const('arg:ob/' + PTR, Ref)
    ni, no = bcount(e, bi, L.pre), bcount(e, bo, L.pre)
    bt = bits_of(e)
    isv = e.isa(s, VS)
    out.append(('links distinct', link_inv(e, r)))
    its = any(k.cont is not None for k in L.counters)
    for which, o, n in (('inputs', bi, ni), ('outputs', bo, no)):
        for k in range_counters(L, o):
            out.append(('in range', z3.And(k.cur >= 0, k.cur <= n)))
            a, b = (i0 < k.cur, z3.BoolVal(False)) if which == 'inputs' else (i0 < ni, o0 < k.cur)
            fl = [('flag %s so far (%s)' % (f, which), z3.Implies(linked(e, r, s), flag(e, r, s, bt[f]) == {'Input': a, 'Required': a, 'Output': b}.get(f, z3.BoolVal(False)))) for f in CB]
            lf = ('linked so far (%s)' % which, linked(e, r, s) == z3.And(isv, z3.Or(a, b)))
            out.append(lf); out += fl
    return out

@target('C05', 'Block::connect', covers=('ret', 'throw'), hints=[conn_hint], contracts=dict(LK), timeout_ms=20000, deep=False)
def connect(e):
    b = e.this(BK, exact=False); r = b.root[1]
    ib, bi = handle(e, 'ib'); ob, bo = handle(e, 'ob')
    e.assume(z3.And(e.isa(bi, BI), e.isa(bo, BI)))
    s = sk('s', Ref); e.assume(z3.And(s != null, aid(s) <= e.st.alloc)); e.type_fact(s, SI)
    e.assume(link_inv(e, r))
    i0, ni = first_on(e, 'i0', bi, s); o0, no = first_on(e, 'o0', bo, s)
    was = e.get(b, BK + '::_connected'); nip = e.get(b, BK + '::_num_iports'); nop = e.get(b, BK + '::_num_oports')
    # a block that is not connected has no links yet
    p = z3.Const('q:p', Ref)
    e.assume(z3.Implies(z3.Not(was), z3.And(lk(e, r)[2] == 0, z3.ForAll([p], pos(e, r, p) == -1))))
    nolim = z3.IntVal(65535)
    okc = z3.And(z3.Not(was), z3.Or(nip == nolim, nip == ni), z3.Or(nop == nolim, nop == no))
    pre = e.snap()
    k, v = e.call(BK + '::connect', b, [ib, ob])
    if k == 'throw':
        e.prove('rejected only a second time or with a wrong number of signals', z3.Not(okc))
        frame_same(e, 'a rejected connection', pre); e.cover('throw'); return
    e.prove('accepted only the first time and with the demanded numbers', okc)
    e.prove('reports success', v); e.prove('counts as connected', e.get(b, BK + '::_connected'))
    e.prove('the input bus is the given one', e.get(b, IB + '') .lv[(PTR,)] == bi); e.prove('the output bus is the given one', e.get(b, OB).lv[(PTR,)] == bo)
    isv = e.isa(s, VS); bt = bits_of(e)
    e.prove('linked exactly if a value signal on one of the buses', linked(e, r, s) == z3.And(isv, z3.Or(i0 < ni, o0 < no)))
    e.prove('each linked once', link_inv(e, r))
    for f in CB:
        want = {'Input': i0 < ni, 'Required': i0 < ni, 'Output': o0 < no}.get(f, z3.BoolVal(False))
        e.prove('marked %s exactly as its bus says' % f, z3.Implies(linked(e, r, s), flag(e, r, s, bt[f]) == want))
    frame_obj(e, 'connection', [r], pre, LKEYS + [(GPOS, '[]'), (BK + '::_connected',), (IB, PTR), (IB, BTP), (OB, PTR), (OB, BTP)])
    e.cover('ret')

# ports ------------------------------------------------------------------------------------------------
def mk_port(fn, which, flags, label):
    def t(e):
        b = e.this(BK, exact=False); r = b.root[1]
        e.assume(link_inv(e, r))
        key = e.sym('key', STR if label == 'label' else SIZE if label == 'index' else INT)
        o = bus_of(e, r, which); pre = e.snap()
        want = 'basic_string' if label == 'label' else 'unsigned long' if label == 'index' else 'int'
        fs = [f for f in e.ast.functions(BK + '::' + fn) if not f.get('_pattern') and want in e.ast.sig(f) and (want != 'int' or '(int)' in e.ast.sig(f))]
        if not fs: raise Unsupported('no instance of %s' % fn)
        f = e.ast.def_of(fs[0]['id']) or fs[0]
        try: k, v = 'ret', e.call_fn(f, b, [key])
        except ThrowEx as x: k, v = 'throw', x
        if label == 'label': d, s = at_def(o, key), at_fn(o, key)
        else: d, s = z3.And(key >= 0, key < bcount(e, o, pre)), bsig(e, o, key, pre)
        if k == 'throw':
            e.prove('rejected only without such a port', z3.Not(d)); frame_same(e, 'a rejected access', pre); e.cover('throw'); return
        e.prove('accepted only if the port exists', d)
        e.prove('the signal at that port', sigref(e, v) == s)
        isv = e.isa(s, VS); bt = bits_of(e); q = sk('q', Ref)
        e.prove('linked afterwards, if a value signal', linked(e, r, s) == z3.Or(linked(e, r, s, pre), isv))
        e.prove('no other signal gets linked', z3.Implies(q != s, linked(e, r, q) == linked(e, r, q, pre)))
        for fl in CB:
            old = z3.And(linked(e, r, s, pre), flag(e, r, s, bt[fl], pre))
            e.prove('marked %s' % fl, z3.Implies(isv, flag(e, r, s, bt[fl]) == z3.Or(old, z3.BoolVal(fl in flags))))
            e.prove('flag %s of others stays' % fl, z3.Implies(z3.And(q != s, linked(e, r, q, pre)), flag(e, r, q, bt[fl]) == flag(e, r, q, bt[fl], pre)))
        frame_obj(e, 'access', [r], pre, LKEYS + [(GPOS, '[]')]); e.cover('ret')
    target('C05', 'Block::%s(%s)' % (fn, label), covers=('ret', 'throw'), contracts={**LK, **AT})(t)
for fn, which, flags in (('input', IB, ('Input', 'Required')), ('output', OB, ('Output',))):
    for lb in ('index', 'int index', 'label'): mk_port(fn, which, flags, lb)

# single-input / single-output blocks: they are connected like any block and then use the first signal of their bus ------------
def sing(e, cls, T, io):
    """location of the port signal of a single-input/-output class"""
    return '%s::_s_%s' % (cls, io)
def mk_single(cls, T, io):
    B, IM, H = BASES[T]
    ins = 'SingleInputT' in cls; outs = 'SingleOutputT' in cls
    inq = 'pooya::SingleInputT<%s>::_s_in' % T
    outq = cls + '::_s_out'
    def t(e):
        b = e.this(cls, exact=True); r = b.root[1]
        ib, bi = handle(e, 'ib'); ob, bo = handle(e, 'ob')
        e.assume(z3.And(e.isa(bi, BI), e.isa(bo, BI), link_inv(e, r)))
        # established by the constructors (below)
        if ins: e.assume(e.get(b, BK + '::_num_iports') == 1)
        if outs: e.assume(e.get(b, BK + '::_num_oports') == 1)
        pre = e.snap(); okc = conn_ok(e, r, bi, bo, pre)
        k, v = e.call(cls + '::connect', b, [ib, ob])
        tin = e.isa(bsig(e, bi, z3.IntVal(0), pre), IM) if ins else z3.BoolVal(True)
        tout = e.isa(bsig(e, bo, z3.IntVal(0), pre), IM) if outs else z3.BoolVal(True)
        if k == 'throw':
            e.prove('rejected only if the block refuses the buses or the port has another type', z3.Not(z3.And(okc, tin, tout))); e.cover('throw'); return
        e.prove('accepted only if the block accepts the buses', okc)
        e.prove('reports success', v)
        for has, q, o, tt, nm in ((ins, inq, bi, tin, 'input'), (outs, outq, bo, tout, 'output')):
            if not has: continue
            s0 = bsig(e, o, z3.IntVal(0), pre); h = e.get(b, q)
            e.prove('uses exactly the first %s signal' % nm, z3.And(h.lv[(PTR,)] == s0, h.lv[(B + '::_typed_ptr',)] == s0))
            e.prove('which has the type of the port (%s)' % nm, tt)
            e.prove('and is linked (%s)' % nm, linked(e, r, s0))
            bt = bits_of(e)
            for f in (('Input', 'Required') if nm == 'input' else ('Output',)): e.prove('%s is marked %s' % (nm, f), flag(e, r, s0, bt[f]))
        e.prove('the input bus is the given one', bus_of(e, r, IB) == bi); e.prove('the output bus is the given one', bus_of(e, r, OB) == bo)
        e.cover('ret')
    target('C05', cls.replace('pooya::', '') + '::connect', covers=('ret', 'throw'), contracts={**LK, **AT, **CONN})(t)
def mk_single_ctor(cls, io):
    def t(e):
        o = e.new(cls)
        a = [e.sym('parent', Ty('ptr', (rec(SM),))) if False else null, e.sym('name', STR), e.sym('ni', U16), e.sym('no', U16)]
        pre = e.snap()
        k, v = e.call(cls + '::' + cls.split('::')[-1].split('<')[0], o, a, nparams=4)
        lim = a[2] if io == 'in' else a[3]
        if k == 'throw': e.prove('rejected only with a number of ports other than one', lim != 1); e.cover('throw')
        else:
            e.prove('accepts one port only', z3.And(lim == 1, e.get(o, BK + ('::_num_iports' if io == 'in' else '::_num_oports')) == 1)); e.cover('ret')
    target('C05', cls.replace('pooya::', '') + ' constructor', covers=('ret', 'throw'), contracts=EM)(t)
for T in ('double', 'int', 'bool', 'Array'):
    mk_single('pooya::SingleInputT<%s>' % T, T, 'in'); mk_single('pooya::SingleOutputT<%s,SingleInputT<%s>>' % (T, T), T, 'out')
    mk_single_ctor('pooya::SingleInputT<%s>' % T, 'in')
for T in ('double', 'int', 'Array'):
    mk_single('pooya::SingleOutputT<%s,Leaf>' % T, T, 'out'); mk_single_ctor('pooya::SingleOutputT<%s,Leaf>' % T, 'out')

@target('C05', 'Block: connected, ibus, obus', covers=('ret',))
def accessors(e):
    b = e.this(BK, exact=False); pre = e.snap()
    k, v = e.call(BK + '::connected', b, []); must_return(e, k)
    if k == 'ret': e.prove('reports whether it is connected', (e.read(v) if isinstance(v, Loc) else v) == e.get(b, BK + '::_connected'))
    for f, w in (('ibus', IB), ('obus', OB)):
        k, v = e.call(BK + '::' + f, b, []); must_return(e, k)
        if k == 'ret': e.prove('reports its bus (%s)' % f, (e.read(v) if isinstance(v, Loc) else v).lv[(PTR,)] == bus_of(e, b.root[1], w))
    frame_same(e, 'asking', pre); e.cover('ret')
