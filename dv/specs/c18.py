"""C18: bus memory and bus pipe act on every signal of their (nested) bus."""
from .ports import *
from .c04 import EM, emendf, NM, NAME
from .c07 import k_virt_set_parent
THIS = z3.Const('this', Ref)
BB, BM, BP = 'pooya::BusBlockBuilder', 'pooya::BusMemory', 'pooya::BusPipe'
EXL = BB + '::_excluded_labels'; BLK = BB + '::_blocks'; INIT = BM + '::_init_values'
NMK = (NAME, NM)
PAR = BK + '::_parent'
# events: building a block for a label, going into a nested bus, linking a child, connecting a block
K_BUILD, K_LINK, K_CONN, K_BASE = 31, 32, 33, 34
TRS, TRO2 = ('ghost::tr_label', '[]'), ('ghost::tr_other', '[]')
_srt = {TRS: z3.ArraySort(I, Str), TRO2: z3.ArraySort(I, Ref)}
def tx(e, key, st=None): return select(e.heap_get(key, z3.ArraySort(Ref, _srt[key]), st), null)
def emit2(e, kind, obj, label=None, other=None):
    n = tr(e, TRN)
    if label is not None: e.write_leaf(Loc(('H', null), (('f', TRS[0]), ('i', n)), None), (), Str, label)
    if other is not None: e.write_leaf(Loc(('H', null), (('f', TRO2[0]), ('i', n)), None), (), Ref, other)
    emit(e, kind, obj)
def ev_is(e, i, kind, obj, label=None, other=None, st=None):
    fs = [call_is(e, i, kind, obj, st=st)]
    if label is not None: fs.append(select(tx(e, TRS, st), i) == label)
    if other is not None: fs.append(select(tx(e, TRO2, st), i) == other)
    return z3.And(*fs)
def ptr(e, a):
    v = e.read(a) if isinstance(a, Loc) else a
    return v.lv[(PTR,)] if isinstance(v, SV) else v
def sval(e, a): return e.read(a) if isinstance(a, Loc) else a

# exclusion: membership in the list of excluded labels (ghost predicate with a witness)
excl = z3.Function('excluded', Str, B); wit = z3.Function('excluded_at', Str, I)
def exclusions(e, b):
    v = e.get(b, EXL); L, n = v.lv[('[]',)], v.lv[('#len',)]; s = z3.Const('q:s', Str); i = z3.Const('q:i', I)
    e.assume(n >= 0)
    e.assume(z3.ForAll([s], z3.Implies(excl(s), z3.And(wit(s) >= 0, wit(s) < n, z3.Select(L, wit(s)) == s)), patterns=[excl(s)]))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), excl(z3.Select(L, i))), patterns=[z3.Select(L, i)]))
PREF = z3.Const('arg:prefix', Str); BUS = z3.Const('gh:bus', Ref); K0 = z3.Const('sk:entry', I); IBUS, OBUS = z3.Const('gh:ibus', Ref), z3.Const('gh:obus', Ref)
evn, evn1 = z3.Function('events', I, I), z3.Function('events1', I, I)          # events of the first entries of the bus
def entry(e, i, st=None):
    v = e.get(e.obj(BUS, BI), SG, st)
    return select(v.lv[('[]', 'first')], i), select(v.lv[('[]', 'second', PTR)], i)
def label_of(e, i): return str_cat(PREF, entry(e, i)[0])
def nested(e, i): return e.isa(entry(e, i)[1], BI)
def path_of(e, i): return str_cat(label_of(e, i), str_lit('.'))
def emits(e, i): return z3.If(nested(e, i), z3.Not(excl(path_of(e, i))), z3.Not(excl(label_of(e, i))))
def expected(e, at, i):
    """the event of entry i: into the nested bus, or a block wired by the dotted label"""
    l = label_of(e, i)
    return z3.If(nested(e, i), ev_is(e, at, K_VISIT, entry(e, i)[1], path_of(e, i)), ev_is(e, at, K_BUILD, at_fn(IBUS, l), l, at_fn(OBUS, l)))
def k_visit(e, this, args, node):
    """contract of visit_bus on a nested bus (nothing for an excluded label)"""
    p = sval(e, args[0])
    e.prove('the same block goes on', e.addr(this) == THIS)
    if e.choose(excl(p)): return None
    emit2(e, K_VISIT, ptr(e, args[1]), p)
    return None
def k_build(e, this, args, node):
    e.prove('the block itself builds', e.addr(this) == THIS)
    emit2(e, K_BUILD, ptr(e, args[1]), sval(e, args[0]), ptr(e, args[2]))
    return None
def visit_hint(L):
    e = L.eng; out = []; n0 = tr(e, TRN, L.pre); m = tr(e, TRN); i = z3.Const('q:i', I)
    keys = [(tr, TRK), (tr, TRO), (tx, TRS), (tx, TRO2)]
    for k in L.counters:
        if k.cont is None or not k.cont.steps or k.cont.steps[-1] != ('f', SG): continue
        out.append(('one event per entry so far', m == GN0 + evn(k.cur)))
        out.append(('the event of the entry', z3.Implies(z3.And(K0 >= 0, K0 < k.cur, emits(e, K0)), z3.And(expected(e, GN0 + evn(K0), K0), evn(K0) >= 0, GN0 + evn(K0) < m))))
        out.append(('events only grow', evn(k.cur) >= 0))
    return out
GN0 = z3.Const('gh:before', I)
@target('C18', 'BusBlockBuilder::visit_bus', covers=('ret', 'excluded', 'throw'), hints=[visit_hint], contracts={BB + '::visit_bus': k_visit, 'virtual ' + BB + '::block_builder': k_build, **AT, **FULLN})
def visit(e):
    b = e.this(BB, exact=False); exclusions(e, b)
    h, bus = handle(e, 'bus'); e.assume(z3.And(bus == BUS, e.isa(bus, BI), aid(bus) <= e.st.alloc)); e.type_fact(bus, BI); h, bus = handle(e, 'bus')
    v = e.get(e.obj(BUS, BI), SG); S = v.lv[('[]', 'second', PTR)]; n = v.lv[('#len',)]; i = z3.Const('q:i', I)
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(S, i) != null, e.isa(z3.Select(S, i), SI), aid(z3.Select(S, i)) <= e.st.alloc)), patterns=[z3.Select(S, i)]))
    for w, g in ((IB, IBUS), (OB, OBUS)):
        e.assume(z3.And(bus_of(e, THIS, w) == g, g != null, e.isa(g, BI), aid(g) <= e.st.alloc)); e.type_fact(g, BI)
        e.assume(e.get(b, w).lv[(BTP,)] == g)
    e.assume(z3.And(tr(e, TRN) >= 0, tr(e, TRN) == GN0))
    q = z3.Const('q:n', I)
    e.assume(z3.ForAll([q], z3.And(evn(q) == evn1(q), evn(q) == z3.If(q <= 0, 0, evn1(q - 1) + z3.If(emits(e, q - 1), 1, 0))), patterns=[evn(q)]))
    p = e.new_local(PREF, STR); pre = e.snap()
    f = None
    for x in e.ast.functions(BB + '::visit_bus'): f = e.ast.def_of(x['id']) or f
    if f is None: raise Unsupported('visit_bus is gone')
    try: k = 'ret'; e.call_fn(f, b, [p, h])
    except ThrowEx: k = 'throw'
    m = tr(e, TRN)
    if e.choose(excl(PREF)):
        e.prove('an excluded bus is skipped', z3.And(z3.BoolVal(k == 'ret'), m == GN0)); e.cover('excluded'); return
    if k == 'throw':
        lab = z3.Select(v.lv[('[]', 'first')], i); d = str_cat(PREF, lab)
        fine = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(at_def(IBUS, d), at_def(OBUS, d))), patterns=[lab])
        e.prove('rejected only if a label is missing on a bus', z3.Not(fine)); e.cover('throw'); return
    e.prove('one event per entry that is not excluded', m == GN0 + evn(n))
    e.prove('the event of every entry, in order', z3.Implies(z3.And(K0 >= 0, K0 < n, emits(e, K0)), expected(e, GN0 + evn(K0), K0)))
    e.cover('ret')

VISITC = {BB + '::visit_bus': k_visit}
@target('C18', 'BusBlockBuilder::connect', covers=('ret', 'throw'), contracts={**CONNS, **VISITC})
def connect(e):
    b = e.this(BB, exact=False); r = b.root[1]; ib, bi, ob, bo = buses(e, b); e.assume(z3.And(tr(e, TRN) >= 0, z3.Not(excl(str_lit('')))))
    n0 = tr(e, TRN); ok = conn_ok(e, r, bi, bo)
    k, v = e.call(BB + '::connect', b, [ib, ob])
    if k == 'throw': e.prove('rejected only for unsuitable buses', z3.Not(ok)); e.cover('throw'); return
    e.prove('reports success', v); e.prove('goes through the input bus once', tr(e, TRN) == n0 + 1)
    e.prove('with an empty prefix', ev_is(e, n0, K_VISIT, bi, str_lit('')))
    e.prove('the buses are those given', z3.And(bus_of(e, r, IB) == bi, bus_of(e, r, OB) == bo)); e.cover('ret')

# building one block ------------------------------------------------------------------------------------------------------------
def k_link(e, this, args, node):
    """contract of Submodel::link_block, proved in C07: a block whose parent it is becomes a child"""
    c = e.addr(args[0]) if isinstance(args[0], Loc) else args[0]
    e.prove('linked to the parent of the block', e.get(e.obj(c, BK), PAR) == e.addr(this))
    emit2(e, K_LINK, c, None, e.addr(this)); return T_
def k_vconn(e, this, args, node):
    """connecting the new block: to buses of the given signals"""
    x = e.st.extra; b = e.addr(this)
    bi, bo = ptr(e, args[0]), ptr(e, args[1])
    for o, w, what in ((bi, x['in'], 'input'), (bo, x['out'], 'output')):
        e.prove('one %s' % what, bcount(e, o) == 1); e.prove('the %s is the given signal' % what, bsig(e, o, z3.IntVal(0)) == w)
    emit2(e, K_CONN, b)
    if e.choose(e.fresh('rejects', B)): raise ThrowEx('connect')
    return T_
OWN = {q % {'T': T} + '::connect': k_vconn for T in VT for q in ('pooya::MemoryT<%(T)s>', 'pooya::PipeT<%(T)s>', 'pooya::SingleOutputT<%(T)s,SingleInputT<%(T)s>>', 'pooya::SingleInputT<%(T)s>', LF, BK)}
MAKE = {**OWN, SM + '::link_block': k_link, 'virtual ' + BK + '::set_parent': k_virt_set_parent, 'virtual ' + BK + '::connect': k_vconn, **EM, **FULLN}
def built(e, cls, want, value=None):
    b = e.this(cls, exact=True); P = z3.Const('gh:parent', Ref); e.type_fact(P, SM)
    p = e.get(b, PAR); p = p.root[1] if isinstance(p, Loc) else p
    e.assume(z3.And(p == P, P != null, aid(P) <= e.st.alloc))
    si, a = handle(e, 'in', 'pooya::Signal'); so, c = handle(e, 'out', 'pooya::Signal')
    for s in (a, c): e.type_fact(s, SI); e.assume(aid(s) <= e.st.alloc)
    lab = e.sym('label', STR); e.assume(tr(e, TRN) >= 0); x = e.st.extra; x['in'] = a; x['out'] = c
    return b, P, si, a, so, c, lab
def mk(cls, T):
    kind = {'pooya::BusPipe': 'PipeT', 'pooya::BusMemory': 'MemoryT'}[cls]; mem = cls == BM
    def t(e):
        b, P, si, a, so, c, lab = built(e, cls, None)
        if T is None:
            for x in VT: e.assume(z3.Not(e.isa(a, BASES[x][1])))
        else:
            e.assume(e.isa(a, BASES[T][1]))
            if T == 'Array': e.assume(arr_inv(e, a)); e.assume(size(e, a) >= 0)
        new = 'pooya::%s<%s>' % (kind, T)
        if mem:
            iv = e.get(b, INIT); has, sz = iv.lv[('#has',)], iv.lv[('#size',)]
            given = select(has, lab); lk_ = [p for p in iv.lv if p[0] == '[]']
        v0 = e.get(b, BLK); n0 = tr(e, TRN); pre = e.snap(); a0 = e.st.alloc
        l = e.new_local(lab, STR)
        k, _ = hook(e, cls, 'block_builder', b, [l, si, so])
        if k == 'throw':
            if T is None: e.cover('throw'); return
            bad = tr(e, TRN) > n0           # the connection was rejected
            if mem: bad = z3.Or(bad, z3.And(given, iv_alt(e, iv, lab) != ALT[T]))
            e.prove('fails only for an unsuitable value or connection', bad); return
        e.prove('no block for a bus', z3.BoolVal(T is not None))
        if T is None: return
        v1 = e.get(b, BLK); o = select(v1.lv[('[]',)], v0.lv[('#len',)])
        e.prove('one block more is owned', v1.lv[('#len',)] == v0.lv[('#len',)] + 1)
        e.prove('it is new', z3.And(o != null, aid(o) > a0))
        e.prove('of the type of the signal', e.isa(o, new))
        ob = e.obj(o, BK)
        e.prove('named after the label', e.get(ob, NAME).lv[(NM,)] == emendf(lab))
        op = e.get(ob, PAR); op = op.root[1] if isinstance(op, Loc) else op
        e.prove('its parent is the parent', op == P)
        e.prove('linked to the parent and connected once', z3.And(tr(e, TRN) == n0 + 2, z3.Or(z3.And(ev_is(e, n0, K_LINK, o, None, P), ev_is(e, n0 + 1, K_CONN, o)), z3.And(ev_is(e, n0 + 1, K_LINK, o, None, P), ev_is(e, n0, K_CONN, o)))))
        if mem:
            h = e.get(e.obj(o, new), new + '::_value'); g = iv_val(e, iv, lab, T)
            if T == 'Array':
                h = (h.lv[('[]',)], h.lv[('#len',)]); n = h[1]
                e.prove('starts with the given value', z3.Implies(given, same(h, g, T)))
                e.prove('or zeros', z3.Implies(z3.Not(given), z3.And(n == size(e, a), z3.Implies(inr(n, T), at(h, T) == 0))))
            else:
                z = {'double': z3.RealVal(0), 'int': z3.IntVal(0), 'bool': z3.BoolVal(False)}[T]
                e.prove('starts with the given value, or zero', h == z3.If(given, g, z))
            iv2 = e.get(b, INIT); l2 = sk('label', Str)
            e.prove('the given value is used up', z3.Not(select(iv2.lv[('#has',)], lab)))
            e.prove('the other values stay', z3.Implies(l2 != lab, z3.And(select(iv2.lv[('#has',)], l2) == select(has, l2), *[select(iv2.lv[p], l2) == select(iv.lv[p], l2) for p in iv.lv if p[0] not in ('#has', '#size')])))
            e.prove('counted', iv2.lv[('#size',)] == sz - z3.If(given, 1, 0))
        e.cover('ret')
    nm = '%s::block_builder, %s' % (cls[7:], T if T else 'not a value')
    target('C18', nm, covers=('ret',) if T else ('throw',), contracts=MAKE)(t)
ALT = {'double': 0, 'int': 1, 'bool': 2, 'Array': 3}
def iv_alt(e, iv, l):
    p = [p for p in iv.lv if p[-1] == '#idx']
    return select(iv.lv[p[0]], l)
def iv_val(e, iv, l, T):
    ps = [p for p in iv.lv if any(x == 'alt%d' % ALT[T] for x in p)]
    if T == 'Array':
        d = {p[-1]: select(iv.lv[p], l) for p in ps}
        return d['[]'], d['#len']
    return select(iv.lv[ps[0]], l)
for cls_ in (BP, BM):
    for T_name in ('double', 'int', 'bool', 'Array', None): mk(cls_, T_name)

def k_base_connect(e, this, args, node):
    """BusBlockBuilder::connect: uses up some of the initial values"""
    e.prove('the block itself is connected', e.addr(this) == THIS)
    e.prove('to the given buses', z3.And(ptr(e, args[0]) == e.st.extra['bi'], ptr(e, args[1]) == e.st.extra['bo']))
    emit2(e, K_BASE, THIS)
    if e.choose(e.fresh('rejects', B)): raise ThrowEx('connect')
    base = e.fld(e.obj(THIS, BM), INIT)
    has = e.fresh('has', z3.ArraySort(Str, B)); sz = e.fresh('size', I); l = z3.Const('q:l', Str)
    e.fact(z3.And(sz >= 0, z3.ForAll([l], z3.Implies(z3.Select(has, l), sz >= 1), patterns=[z3.Select(has, l)])))
    e.fact(z3.Implies(sz >= 1, z3.Select(has, z3.Const('gh:left', Str))))
    e.write_leaf(base, ('#has',), z3.ArraySort(Str, B), has); e.write_leaf(base, ('#size',), I, sz)
    e.st.extra['left'] = has
    return T_
@target('C18', 'BusMemory::connect', covers=('ret', 'throw'), contracts={BB + '::connect': k_base_connect, **FULLN})
def mconnect(e):
    b = e.this(BM, exact=True); ib, bi, ob, bo = buses(e, b); e.assume(tr(e, TRN) >= 0); n0 = tr(e, TRN)
    e.st.extra['bi'] = bi; e.st.extra['bo'] = bo; l = sk('label', Str)
    k, v = hook(e, BM, 'connect', b, [ib, ob])
    has = e.st.extra.get('left')
    e.prove('connected once', tr(e, TRN) == n0 + 1)
    if k == 'throw':
        if has is not None: e.prove('rejected only if a value is left', select(has, z3.Const('gh:left', Str))); e.cover('throw')
        return
    e.prove('reports success', v)
    if has is not None: e.prove('no value is left', z3.Not(select(has, l)))
    e.cover('ret')
def mk_ctor(cls):
    def t(e):
        P = z3.Const('gh:parent', Ref); e.type_fact(P, SM); e.assume(z3.And(P != null, aid(P) <= e.st.alloc, tr(e, TRN) >= 0))
        nm = cls.split('::')[-1]; f = [c for c in e.ast.recs[cls].ctors if len(e.ast.params(c)) == (3 if cls == BM else 2)]
        if not f: raise Unsupported('constructor of ' + cls)
        ts = [e.T.of_node(p) for p in e.ast.params(f[0])][1:]
        o = e.new(cls); lists = [e.sym('list%d' % i, t) for i, t in enumerate(ts)]; ex = lists[-1]
        for l in lists: e.assume(l.lv[('#len',)] >= 0)
        k, _ = e.call(cls + '::' + nm, o, [e.obj(P, SM)] + lists, nparams=len(lists) + 1)
        must_return(e, k)
        if k != 'ret': return
        v = e.get(o, EXL); i = sk('i', I); m = ex.lv[('#len',)]
        e.prove('excludes the given labels', z3.And(v.lv[('#len',)] == m, z3.Implies(z3.And(i >= 0, i < m), select(v.lv[('[]',)], i) == select(ex.lv[('[]',)], i))))
        if cls == BM:
            iv = e.get(o, INIT); src = lists[0]; n = src.lv[('#len',)]; K = src.lv[('[]', 'first')]; l = sk('label', Str); has = select(iv.lv[('#has',)], l); j = z3.Const('q:j', I)
            e.prove('every given label has a value', z3.Implies(z3.And(i >= 0, i < n), select(iv.lv[('#has',)], select(K, i))))
            first = z3.And(i >= 0, i < n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n, j != i), z3.Select(K, j) != z3.Select(K, i)), patterns=[z3.Select(K, j)]))
            e.prove('the one given for it', z3.Implies(first, z3.And(*[select(iv.lv[p], select(K, i)) == select(src.lv[('[]', 'second') + p[1:]], i) for p in iv.lv if p[0] == '[]'])))
            e.prove('no other label has one', z3.Implies(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(K, j) != l), patterns=[z3.Select(K, j)]), z3.Not(has)))
        op = e.get(o, PAR); op = op.root[1] if isinstance(op, Loc) else op
        e.prove('its parent', op == P); e.prove('any buses', z3.And(e.get(o, BK + '::_num_iports') == 65535, e.get(o, BK + '::_num_oports') == 65535))
        e.prove('no blocks yet', e.get(o, BLK).lv[('#len',)] == 0); e.cover('ret')
    target('C18', cls[7:] + ' constructor', covers=('ret',), contracts=MAKE)(t)
for cls_ in (BP, BM): mk_ctor(cls_)

also('C18', 'C15', *['%sT<%s>::%s' % (c, T, f) for c in ('Memory', 'Pipe') for T in ('double', 'int', 'bool', 'Array') for f in ('connect', 'post_step', 'activation_function')])

META = {'assumptions': ['the empty label is not among the excluded labels']}
