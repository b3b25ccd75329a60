"""C02: typed handles denote signals of their own type only; construction of fresh signals; state variables."""
from .common import *
from .c04 import EM, emendf, NM
AV_ = AV
BASES = {'double': ('pooya::SignalT<double>', 'pooya::ScalarSignalImpl', 'pooya::ScalarSignal'),
         'int': ('pooya::SignalT<int>', 'pooya::IntSignalImpl', 'pooya::IntSignal'),
         'bool': ('pooya::SignalT<bool>', 'pooya::BoolSignalImpl', 'pooya::BoolSignal'),
         'Array': ('pooya::SignalT<Array>', 'pooya::ArraySignalImpl', 'pooya::ArraySignal'),
         'BusSpec': ('pooya::SignalT<BusSpec>', 'pooya::BusImpl', 'pooya::Bus')}

def denotes(e, h, B, r, what):
    e.prove(what + ' denotes the very signal', z3.And(e.get(h, PTR) == r, e.get(h, B + '::_typed_ptr') == r))

def mk(T):
    B, IM, H = BASES[T]
    def hand(e, name, any_=True):
        """an arbitrary handle (of the untyped class) on some signal; no invariant of typed handles is assumed"""
        g = e.new_local(e.sym(name, rec('pooya::Signal')), rec('pooya::Signal'))
        r = e.read(g).lv[(PTR,)]
        e.assume(r != null)
        return g, r
    def from_impl(cls):
        def t(e):
            r = e.ref('sig', SI); pre = e.snap()
            isT = e.isa(r, IM)
            h = e.new_local(e.fresh_sv('uninit', rec(cls)), rec(cls))
            k, v = e.call(cls + '::' + cls.split('::')[-1].split('<')[0], h, [e.obj(r, SI)], sig='(SignalImpl &)')
            frame_same(e, 'construction', pre)
            if k == 'throw': e.prove('rejected only for another type', z3.Not(isT)); e.cover('throw')
            else: e.prove('accepted only for its own type', isT); denotes(e, h, B, r, 'the handle'); e.cover('ret')
        return t
    def from_sig(cls):
        def t(e):
            g, r = hand(e, 'g'); pre = e.snap()
            isT = e.isa(r, IM)
            h = e.new_local(e.fresh_sv('uninit', rec(cls)), rec(cls))
            k, v = e.call(cls + '::' + cls.split('::')[-1].split('<')[0], h, [g], sig='(const Signal &)')
            frame_same(e, 'construction', pre)
            if k == 'throw': e.prove('rejected only for another type', z3.Not(isT)); e.cover('throw')
            else: e.prove('accepted only for its own type', isT); denotes(e, h, B, r, 'the handle'); e.cover('ret')
        return t
    def reset(e):
        g, r = hand(e, 'g')
        old = z3.Const('arg:old', Ref)
        e.type_fact(old, IM); e.assume(old != null); e.assume(e.isa(old, IM))
        h = e.new_local(SV(rec(B), {(PTR,): old, (B + '::_typed_ptr',): old}), rec(B))
        pre = e.snap(); isT = e.isa(r, IM)
        k, v = e.call(B + '::reset', h, [g])
        frame_same(e, 'reset', pre)
        if k == 'throw':
            e.prove('rejected only for another type', z3.Not(isT)); denotes(e, h, B, old, 'after a rejection the handle still'); e.cover('throw')
        else:
            e.prove('accepted only for its own type', isT); denotes(e, h, B, r, 'the handle'); e.cover('ret')
    def copy(e):
        r = z3.Const('arg:r', Ref); e.type_fact(r, IM); e.assume(r != null); e.assume(e.isa(r, IM))
        g = e.new_local(SV(rec(H), {(PTR,): r, (B + '::_typed_ptr',): r}), rec(H)); pre = e.snap()
        h = e.new_local(e.fresh_sv('uninit', rec(H)), rec(H))
        cs = [c for c in e.ast.recs[H].ctors if len(e.ast.params(c)) == 1 and H.split('::')[-1] + ' &' in e.ast.sig(c)]
        e.construct(H, e.ast.sig(cs[0]), [g], h)
        frame_same(e, 'copy', pre)
        denotes(e, h, B, r, 'the copy'); e.cover('ret')
        im = e.call(B + '::impl', h, [])[1]
        e.prove('impl() is the signal', (im.root[1] if isinstance(im, Loc) else im) == r)
        if T != 'BusSpec':
            a = e.call(B + '::operator->', h, [])[1]
            e.prove('operator-> is the signal', (e.read(a) if isinstance(a, Loc) else a) == r)
    kw = dict(handle_inv=False)
    target('C02', 'SignalT<%s>(SignalImpl&)' % T, covers=('throw', 'ret'), **kw)(from_impl(B))
    target('C02', 'SignalT<%s>(Signal)' % T, covers=('throw', 'ret'), **kw)(from_sig(B))
    target('C02', '%s(SignalImpl&)' % H.split('::')[-1], covers=('throw', 'ret'), **kw)(from_impl(H))
    target('C02', '%s(Signal)' % H.split('::')[-1], covers=('throw', 'ret'), **kw)(from_sig(H))
    target('C02', 'SignalT<%s>::reset' % T, covers=('throw', 'ret'), **kw)(reset)
    target('C02', '%s copy' % H.split('::')[-1], covers=('ret',), **kw)(copy)
for T in BASES: mk(T)

# fresh signals -----------------------------------------------------------------------------------
def mk_fresh(T):
    B, IM, H = BASES[T]; short = H.split('::')[-1]
    def t(e):
        s = e.sym('name', STR); n = e.sym('n', SIZE)
        h = e.new_local(e.fresh_sv('uninit', rec(H)), rec(H)); pre = e.snap()
        args = [n, s] if T == 'Array' else [s]
        k, v = e.call(H + '::' + short, h, args, sig='(std::size_t, std::string_view)' if T == 'Array' else '(std::string_view)')
        must_return(e, k)
        r = e.get(h, PTR); denotes(e, h, B, r, 'the handle')
        e.prove('the signal is new', z3.And(r != null, aid(r) > pre.alloc))
        e.prove('the signal is of the handle type', e.isa(r, IM))
        o = e.obj(r, IM)
        e.prove('unassigned', z3.Not(e.get(o, ASG)))
        e.prove('valid form of the name', e.get(o, NAME).lv[(NM,)] == emendf(s))
        if T in ('double', 'Array'):
            e.prove('not a state variable', e.get(o, 'pooya::FloatSignalImplT<%s>::_deriv_sig' % T) == null)
            e.prove('size', e.call('pooya::FloatSignalImplT<%s>::size' % T, o, [])[1] == (n if T == 'Array' else 1))
        if T == 'Array': e.prove('the stored array has the signal size (class invariant)', arr_inv(e, r))
        frame_same(e, 'construction', pre); e.cover('ret')
    target('C02', short + '(name)', covers=('ret',), contracts=EM, handle_inv=False)(t)
for T in ('double', 'int', 'bool', 'Array'): mk_fresh(T)

@target('C02', 'Bus()', covers=('ret',), contracts=EM, handle_inv=False)
def bus0(e):
    H = 'pooya::Bus'; IM = 'pooya::BusImpl'
    h = e.new_local(e.fresh_sv('uninit', rec(H)), rec(H)); pre = e.snap()
    s = e.sym('name', STR)
    lt = Ty('vec', (rec('pooya::Signal'),))
    l = e.sym('l', lt); e.assume(l.lv[('#len',)] == 0)
    k, v = e.call(H + '::Bus', h, [e.new_local(l, lt), s], sig='initializer_list<Signal>')
    must_return(e, k)
    r = e.get(h, PTR); denotes(e, h, 'pooya::SignalT<BusSpec>', r, 'the handle')
    e.prove('the bus is new', z3.And(r != null, aid(r) > pre.alloc)); e.prove('it is a bus', e.isa(r, IM))
    e.prove('it is empty', e.get(e.obj(r, IM), IM + '::_signals').lv[('#len',)] == 0)
    e.prove('its name', e.get(e.obj(r, IM), NAME).lv[(NM,)] == emendf(s))
    frame_same(e, 'construction', pre); e.cover('ret')

# state variables -----------------------------------------------------------------------------------
def mk_deriv(T):
    F = 'pooya::FloatSignalImplT<%s>' % T; IM = BASES[T][1]; D = F + '::_deriv_sig'; S = F + '::_size'
    def t(e):
        o = e.this(IM); g = e.new_local(e.sym('g', rec('pooya::Signal')), rec('pooya::Signal'))
        r = e.read(g).lv[(PTR,)]; e.assume(r != null)
        if T == 'double':
            # every scalar signal has size one (set by its only constructor, const member)
            for q in (o.root[1], r): e.assume(z3.Implies(e.isa(q, IM), e.get(e.obj(q, IM), S) == 1))
        pre = e.snap()
        ok = z3.And(e.isa(r, IM), e.get(e.obj(r, IM), S, pre) == e.get(o, S, pre))
        k, v = e.call(F + '::set_deriv_signal', o, [g])
        if k == 'throw':
            e.prove('rejected only for another type or size', z3.Not(ok)); frame_same(e, 'rejected', pre); e.cover('throw')
        else:
            e.prove('accepted only for the same type and size', ok)
            e.prove('it becomes the derivative signal', e.get(o, D) == r)
            for m in ('state_variable', 'deriv_signal'): e.prove('%s() reports it' % m, e.call(F + '::' + m, o, [])[1] == r)
            frame_other(e, o, pre, [(D,)]); e.cover('ret')
    target('C02', F.split('::')[-1] + '::set_deriv_signal', covers=('throw', 'ret'), handle_inv=False)(t)
for T in ('double', 'Array'): mk_deriv(T)

@target('C02', 'Signal: access to the signal', covers=('ret',))
def base_access(e):
    v = e.sym('h', rec('pooya::Signal')); r = v.lv[(PTR,)]; e.assume(r != null); h = e.new_local(v, rec('pooya::Signal')); pre = e.snap()
    for f in ('impl', 'operator*', 'operator->'):
        k, x = e.call('pooya::Signal::' + f, h, []); must_return(e, k)
        if k != 'ret': return
        x = x.root[1] if isinstance(x, Loc) and x.root[0] == 'H' and not x.steps else e.read(x) if isinstance(x, Loc) else x
        e.prove('%s is the signal' % f, x == r)
    frame_same(e, 'access', pre); e.cover('ret')
