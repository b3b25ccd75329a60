"""C03: bus construction and lookup."""
from .common import *
from .c04 import EM, emendf, NM
BI = 'pooya::BusImpl'; SG = BI + '::_signals'; BUS = 'pooya::Bus'
ELT = Ty('pair', (STR, rec('pooya::Signal')))
at_def = z3.Function('at_defined', Ref, Str, B)
at_fn = z3.Function('at_signal', Ref, Str, Ref)

def sig_sv(r): return SV(rec('pooya::Signal'), {(PTR,): r})
def lab(e, o, i, st=None): return select(e.get(o, SG, st).lv[('[]', 'first')], i)
def sigp(e, o, i, st=None): return select(e.get(o, SG, st).lv[('[]', 'second', PTR)], i)
def blen(e, o, st=None): return e.get(o, SG, st).lv[('#len',)]
def rptr(e, v):
    v = e.read(v) if isinstance(v, Loc) else v
    return v.lv[(PTR,)]

LAB = z3.Const('arg:label', Str)
def descent(k, own):
    """the contract k for the calls made by the lookup functions themselves; variant: the label gets strictly shorter at every descent.
    The other lookup function may take over the whole task (own: k is the contract of the function under proof); it is then executed in place"""
    def c(e, this, args, node):
        v = e.read(args[0]) if isinstance(args[0], Loc) else args[0]
        if not own and isinstance(v, z3.ExprRef) and v.eq(LAB): return NotImplemented
        if isinstance(v, z3.ExprRef) and v.sort() == Str: e.prove('the label gets strictly shorter at every descent', str_len(v) < str_len(LAB))
        return k(e, this, args, node)
    return c
def k_at(e, this, args, node):
    """contract of the recursive at(label) on a nested bus"""
    v = e.read(args[0]) if isinstance(args[0], Loc) else args[0]
    if not (isinstance(v, z3.ExprRef) and v.sort() == Str): return NotImplemented
    r = this.root[1]
    if not e.choose(at_def(r, v)): raise ThrowEx('nested at')
    e.fact(at_fn(r, v) != null)
    return sig_sv(at_fn(r, v))
def k_try(e, this, args, node):
    v = e.read(args[0]) if isinstance(args[0], Loc) else args[0]
    r = this.root[1]
    ot = Ty('opt', (rec('pooya::Signal'),))
    return SV(ot, {('#has',): at_def(r, v), ('val', PTR): at_fn(r, v)})

def keys(label):
    p = str_find(label, str_lit('.'), z3.IntVal(0))
    return [label, str_sub(label, 0, p), str_sub(label, z3.IntVal(0), p)]
def hint(L):
    """no earlier entry has the label looked for"""
    e = L.eng; out = []
    label = z3.Const('arg:label', Str)
    o = e.obj(z3.Const('this', Ref), BI); arr = e.get(o, SG, L.pre).lv[('[]', 'first')]; n = e.get(o, SG, L.pre).lv[('#len',)]
    j = z3.Const('q:j', I)
    for k in L.counters:
        out.append(('position in range', z3.And(k.cur >= 0, k.cur <= n)))
        for key in keys(label)[:2]:
            out.append(('not found before', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k.cur), select(arr, j) != key), patterns=[z3.Select(arr, j)])))
    return out

def outcome(e, k, v, o, label, pre, exc):
    """the specification of at()/try_at(): exc tells which of the two"""
    p = str_find(label, str_lit('.'), z3.IntVal(0))
    e.str_find(label, str_lit('.'), z3.IntVal(0))
    nodot = p == NPOS
    key = label if e.choose(nodot) else e.str_substr(label, z3.IntVal(0), p)
    rest = e.str_substr(label, p + 1, z3.IntVal(NPOS))
    n = blen(e, o, pre); i = sk('i', I); j = z3.Const('q:j', I)
    first = z3.And(i >= 0, i < n, lab(e, o, i, pre) == key, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), lab(e, o, j, pre) != key)))
    r = sigp(e, o, i, pre)
    isbus = e.isa(r, BI)
    none = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), lab(e, o, j, pre) != key))
    frame_same(e, 'lookup', pre)
    if k == 'none':
        e.prove('a label that is present and not dotted is found', z3.Implies(z3.And(first, nodot), F_))
        e.prove('a dotted label is followed through a bus', z3.Implies(z3.And(first, z3.Not(nodot), isbus), z3.Not(at_def(r, rest))))
        e.cover('none')
    else:
        e.prove('a missing label yields no signal', z3.Not(none))
        e.prove('undotted: the first signal with the label', z3.Implies(z3.And(first, nodot), v == r))
        e.prove('dotted: never through a signal that is not a bus', z3.Implies(z3.And(first, z3.Not(nodot)), isbus))
        e.prove('dotted: the signal at the rest of the label in the nested bus', z3.Implies(z3.And(first, z3.Not(nodot)), z3.And(at_def(r, rest), v == at_fn(r, rest))))
        e.cover('found')

def call_own(e, q, o, args, sig, contract, other=()):
    """run q on this bus; recursive calls use the contract"""
    fs = [f for f in e.ast.functions(q) if sig in e.ast.sig(f)]
    if not fs: raise Unsupported('function %s' % q)
    e.contracts[q] = contract; e.contracts.update(other)
    try: return 'ret', e.call_fn(fs[0], o, args)
    except ThrowEx as t: return 'throw', t
    finally:
        for x in (q, *dict(other)): e.contracts.pop(x, None)

@target('C03', 'BusImpl::at(label)', covers=('none', 'found'), hints=[hint])
def at_label(e):
    o = e.this(BI); label = e.sym('label', STR); pre = e.snap()
    k, v = call_own(e, BI + '::at', o, [label], 'string_view', descent(k_at, True), {BI + '::try_at': descent(k_try, False)})
    outcome(e, 'none' if k == 'throw' else 'found', rptr(e, v) if k == 'ret' else None, o, label, pre, True)

@target('C03', 'BusImpl::try_at(label)', covers=('none', 'found'), hints=[hint])
def try_at(e):
    o = e.this(BI); label = e.sym('label', STR); pre = e.snap()
    k, v = call_own(e, BI + '::try_at', o, [label], 'string_view', descent(k_try, True), {BI + '::at': descent(k_at, False)})
    must_return(e, k)
    if k != 'ret': return
    v = e.read(v) if isinstance(v, Loc) else v
    if isinstance(v, Opaque) and v.tag == 'nullopt': has, r = False, None
    elif v.ty.k == 'opt': has, r = e.choose(v.lv[('#has',)]), v.lv[('val', PTR)]
    else: has, r = True, v.lv[(PTR,)]
    outcome(e, 'found' if has else 'none', r, o, label, pre, False)

def mk_idx(cls, fn, checked):
    def t(e):
        i = e.sym('i', SIZE)
        if cls == BUS:
            h = e.new_local(e.sym('h', rec(BUS)), rec(BUS)); o = e.obj(e.read(h).lv[(PTR,)], BI); this = h
        else: o = e.this(BI); this = o
        pre = e.snap()
        k, v = e.call(cls + '::' + fn, this, [i], sig='std::size_t')
        frame_same(e, 'lookup', pre)
        if k == 'throw': e.prove('rejected only beyond the end', i >= blen(e, o, pre)); e.cover('throw')
        else:
            e.prove('accepted only before the end', i < blen(e, o, pre))
            e.prove('the i-th signal', rptr(e, v) == sigp(e, o, i, pre)); e.cover('ret')
    target('C03', '%s::%s(index)' % (cls.split('::')[-1], fn), covers=('throw', 'ret'))(t)
for cls in (BI, BUS):
    for fn in ('at', 'operator[]'): mk_idx(cls, fn, True)

def mk_fwd(cls, fn):
    """operator[](label) and the handle's functions are at(label)"""
    def t(e):
        label = e.sym('label', STR)
        if cls == BUS:
            h = e.new_local(e.sym('h', rec(BUS)), rec(BUS)); r = e.read(h).lv[(PTR,)]; this = h
        else: o = e.this(BI); this = o; r = o.root[1]
        pre = e.snap()
        k, v = e.call(cls + '::' + fn, this, [label], sig='string_view')
        frame_same(e, 'lookup', pre)
        if k == 'throw': e.prove('rejected only if at() rejects', z3.Not(at_def(r, label))); e.cover('throw')
        else: e.prove('yields what at() yields', z3.And(at_def(r, label), rptr(e, v) == at_fn(r, label))); e.cover('ret')
    target('C03', '%s::%s(label)' % (cls.split('::')[-1], fn), covers=('throw', 'ret'), contracts={BI + '::at': k_at})(t)
mk_fwd(BI, 'operator[]'); mk_fwd(BUS, 'operator[]'); mk_fwd(BUS, 'at')

@target('C03', 'BusImpl::size/begin/end', covers=('ret',))
def sz(e):
    o = e.this(BI); pre = e.snap()
    k, v = e.call(BI + '::size', o, [])
    e.prove('size', v == blen(e, o, pre))
    k, b = e.call(BI + '::begin', o, []); k, c = e.call(BI + '::end', o, [])
    b = e.read(b) if isinstance(b, Loc) else b; c = e.read(c) if isinstance(c, Loc) else c
    e.prove('iteration covers the signals in order', z3.And(b.idx == 0, c.idx == blen(e, o, pre), z3.BoolVal(b.cont.root[1].eq(o.root[1]))))
    frame_same(e, 'size', pre); e.cover('ret')

# construction ---------------------------------------------------------------------------------------
NK = (NAME, NM)
def auto(i): return str_cat(str_lit('sig'), str_int(i))
def mk_ctor(pairs):
    et = ELT if pairs else rec('pooya::Signal')
    lt = Ty('vec', (et,))
    pp = ('[]', 'second', PTR) if pairs else ('[]', PTR)
    def lists():
        L = z3.Const('arg:l/' + '/'.join(pp), z3.ArraySort(I, Ref)); n = z3.Const('arg:l/#len', I)
        F = z3.Const('arg:l/[]/first', z3.ArraySort(I, Str))
        lb = (lambda i: emendf(select(F, i))) if pairs else (lambda i: emendf(auto(i)))
        return L, n, lb
    def hint(H):
        e = H.eng; L, n, lb = lists(); out = []
        j = z3.Const('q:j', I)
        o = z3.Const('new!1', Ref)
        nm0 = e.heap_get(NK, z3.ArraySort(Ref, Str), H.pre)
        lens = [s for s in H.syms if s[3][0] == 'HR' and s[3][1] == (SG, '#len')]
        fst = [s for s in H.syms if s[3][0] == 'HR' and s[3][1] == (SG, '[]', 'first')]
        snd = [s for s in H.syms if s[3][0] == 'HR' and s[3][1] == (SG, '[]', 'second', PTR)]
        nms = [s for s in H.syms if s[3][0] == 'HM' and s[3][1] == NK]
        r0, i0, r1, r2 = sk('r0', Ref), sk('i0', I), sk('r1', Ref), sk('r2', Ref)
        for k in H.counters:
            out.append(('counter in range', z3.And(k.cur >= 0, k.cur <= n)))
            for m in H.counters: out.append(('counters agree', k.cur == m.cur))
            for f in fst: out.append(('labels so far', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k.cur), select(f[0], j) == lb(j)), patterns=[select(f[0], j)])))
            for f in snd: out.append(('signals so far', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k.cur), select(f[0], j) == select(L, j)), patterns=[select(f[0], j)])))
            for f in nms:
                out.append(('first occurrence not renamed yet', z3.Implies(k.cur <= i0, select(f[0], r0) == select(nm0, r0))))
                out.append(('first occurrence named', z3.Implies(z3.And(k.cur > i0, select(nm0, r0) == str_lit(''), lb(i0) != str_lit('')), select(f[0], r0) == lb(i0))))
        for f in nms:
            out.append(('named signals keep their name', z3.Implies(select(nm0, r2) != str_lit(''), select(f[0], r2) == select(nm0, r2))))
            out.append(('the bus keeps its name', select(f[0], o) == select(nm0, o)))
            out.append(('other objects keep their name', select(f[0], r1) == select(nm0, r1)))
        return out
    def t(e):
        o = e.new(BI)
        l = e.sym('l', lt); s = e.sym('name', STR)
        L, n, lb = lists()
        r0, i0, r1, r2 = sk('r0', Ref), sk('i0', I), sk('r1', Ref), sk('r2', Ref)
        j = z3.Const('q:j', I)
        # i0: first position of r0; r1: any object that is not listed; r2: any object; all of them exist before the bus
        e.assume(z3.And(i0 >= 0, i0 < n, select(L, i0) == r0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i0), select(L, j) != r0))))
        e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(select(L, j) != r1, select(L, j) != null, select(L, j) != o.root[1]))))
        for r in (r0, r1, r2): e.assume(z3.And(r != o.root[1]))
        # the valid form of a valid form is itself (from C04: lemma and emend's postcondition, by extensionality of strings)
        x = z3.Const('q:s', Str); e.assume(z3.ForAll([x], emendf(emendf(x)) == emendf(x), patterns=[emendf(x)]))
        # strings sig0, sig1, ... are their own valid form and not empty
        e.assume(z3.ForAll([j], emendf(auto(j)) != str_lit(''), patterns=[emendf(auto(j))]))
        pre = e.snap(); nm0 = e.heap_get(NK, z3.ArraySort(Ref, Str), pre)
        prot = e.new_local(e.fresh_sv('p', rec(SI + '::Protected')), rec(SI + '::Protected'))
        fs = [f for f in e.ast.functions(BI + '::BusImpl') if 'initializer_list' in e.ast.sig(f) and ('pair' in e.ast.sig(f)) == pairs]
        if not fs: raise Unsupported('constructor')
        try: e.call_fn(fs[0], o, [prot, e.new_local(l, lt), s]); k = 'ret'
        except ThrowEx: k = 'throw'
        must_return(e, k)
        if k != 'ret': return
        e.prove('as many entries as listed', blen(e, o) == n)
        i = sk('i', I); inr = z3.And(i >= 0, i < n)
        e.prove('the i-th signal is the i-th listed', z3.Implies(inr, sigp(e, o, i) == select(L, i)))
        e.prove('labelled by the valid form of its label', z3.Implies(inr, lab(e, o, i) == lb(i)))
        nm = e.heap_get(NK, z3.ArraySort(Ref, Str))
        e.prove('a signal without a name takes its label', z3.Implies(z3.And(select(nm0, r0) == str_lit(''), lb(i0) != str_lit('')), select(nm, r0) == lb(i0)))
        e.prove('a named signal keeps its name', z3.Implies(select(nm0, r2) != str_lit(''), select(nm, r2) == select(nm0, r2)))
        e.prove('no other object is renamed', select(nm, r1) == select(nm0, r1))
        e.prove('the bus has its own name', select(nm, o.root[1]) == emendf(s))
        frame_same(e, 'construction', pre, [NK, (SG, '#len'), (SG, '[]', 'first'), (SG, '[]', 'second', PTR)])
        e.cover('ret')
    target('C03', 'BusImpl(%s)' % ('labelled list' if pairs else 'list'), covers=('ret',), contracts=EM, hints=[hint], handle_inv=False)(t)
mk_ctor(False); mk_ctor(True)

META = {'assumptions': ['strings of equal length and equal characters are equal (so emending is idempotent, by the C04 lemma); the generated label sig<i> is not empty']}
