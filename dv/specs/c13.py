"""C13: integrators expose and update their state correctly."""
from .ports import *
from .c04 import EM
from .c10 import DER
IBC = lambda T: 'pooya::IntegratorBaseT<%s>' % T
TRC = lambda T: 'pooya::TriggeredIntegratorT<%s>' % T
ITC = lambda T: 'pooya::IntegratorT<%s>' % T
def value(e, b, T, st=None):
    v = e.get(b, IBC(T) + '::_value', st)
    return (v.lv[('[]',)], v.lv[('#len',)]) if T == 'Array' else v
VKEYS = lambda T: [(IBC(T) + '::_value',)] if T != 'Array' else [(IBC(T) + '::_value', '#len'), (IBC(T) + '::_value', '[]')]
TG = lambda T: TRC(T) + '::_triggered'
def mk(T):
    IM = BASES[T][1]
    for cls, ni in ((ITC(T), 1), (TRC(T), 2)):
        def ctor(e, cls=cls, ni=ni):
            ic = arg(e, 'ic', T); w = valued(e, ic, T)
            o, k = construct(e, cls, [ic, null, e.sym('name', STR)], 3)
            must_return(e, k)
            if k != 'ret': return
            e.prove('holds the given initial value', same(value(e, o, T), w, T)); ports_are(e, o, ni, 1)
            if ni == 2: e.prove('not triggered yet', z3.Not(e.get(o, TG(T))))
            e.cover('ret')
        target('C13', cls.replace('pooya::', '') + ' constructor', covers=('ret',), contracts=EM)(ctor)
        if T == 'double':
            def ctor0(e, cls=cls):
                o, k = construct(e, cls, [], 3); must_return(e, k)
                if k == 'ret': e.prove('the default initial value is zero', value(e, o, T) == 0); e.cover('ret')
            target('C13', cls.replace('pooya::', '') + ' default constructor', covers=('ret',), contracts=EM)(ctor0)
    for cls in (ITC(T), TRC(T)):
        trig = cls == TRC(T)
        def connect(e, cls=cls, trig=trig):
            b = e.this(cls, exact=True); r = b.root[1]; ib, bi, ob, bo = buses(e, b)
            if trig: e.assume(e.get(b, BK + '::_num_iports') == 2)
            else: e.assume(e.get(b, BK + '::_num_iports') == 1)
            e.assume(e.get(b, BK + '::_num_oports') == 1)
            x, y = bsig(e, bi, z3.IntVal(0)), bsig(e, bo, z3.IntVal(0)); d0 = deriv_of(e, y, T)
            for s in (x, y):
                e.type_fact(s, SI)
                if T == 'Array': e.assume(arr_inv(e, s))
            pre = e.snap()
            fine = z3.And(conn_ok(e, r, bi, bo), e.isa(x, IM), e.isa(y, IM), d0 == null, x != y)
            fine = z3.And(fine, fsize(e, x, T) == fsize(e, y, T))       # scalars have size one (below)
            if trig:
                ts = trigger_of(e, bi); fine = z3.And(fine, ts[0], e.isa(ts[1], BASES['bool'][1])); e.type_fact(ts[1], SI); e.assume(z3.Implies(ts[0], ts[1] != null))
            k, v = hook(e, cls, 'connect', b, [ib, ob])
            if k == 'throw': e.prove('rejected only for unsuitable buses', z3.Not(fine)); e.cover('throw'); return
            e.prove('reports success', v)
            denotes_(e, b, SOUT(T), T, y, 'the output is the signal of the output port')
            e.prove('the derivative of the output is the first input', deriv_of(e, y, T) == x)
            bt = bits_of(e)
            e.prove('the output is required', z3.And(linked(e, r, y), flag(e, r, y, bt['Required']), flag(e, r, y, bt['Output'])))
            if trig:
                e.prove('has a trigger', ts[0]); denotes_(e, b, TRC(T) + '::_trigger', 'bool', ts[1], 'the trigger is the input of that name')
                e.prove('the trigger is required', z3.And(linked(e, r, ts[1]), flag(e, r, ts[1], bt['Required'])))
                # (an input that is the trigger as well would be a Boolean)
            e.prove('the input is linked as an input', z3.And(linked(e, r, x), flag(e, r, x, bt['Input'])))
            e.prove('the input is not required', z3.Implies(x != y, z3.Not(flag(e, r, x, bt['Required']))))
            e.cover('ret')
        target('C13', cls.replace('pooya::', '') + '::connect', covers=('ret', 'throw'), contracts=CONNS)(connect)
        def pre_step(e, cls=cls, trig=trig):
            b = e.this(cls, exact=True); s = port(e, b, SOUT(T), T); e.assume(z3.Not(assigned(e, s)))
            if T == 'Array': e.assume(value(e, b, T)[1] == size(e, s)); e.assume(value(e, b, T)[1] >= 0)
            v0 = value(e, b, T); g0 = e.get(b, TG(T)) if trig else F_; pre = e.snap()
            k, _ = hook(e, cls, 'pre_step', b, [e.sym('t', REAL)])
            must_return(e, k)
            if k != 'ret': return
            want = at(v0, T)
            if trig: want = z3.If(g0, z3.RealVal(0), want)
            n = val(e, s, T)[1] if T == 'Array' else None
            e.prove('the output gets the held value', z3.Implies(inr(n, T), at(val(e, s, T), T) == want))
            e.prove('which stays held', z3.Implies(inr(n, T), at(value(e, b, T), T) == want))
            if T == 'Array': e.prove('of the same size', z3.And(n == v0[1], value(e, b, T)[1] == v0[1]))
            if trig: e.prove('the trigger is used up', z3.Not(e.get(b, TG(T))))
            e.prove('the output is assigned', assigned(e, s))
            frame_obj(e, 'pre-step', [s, b.root[1]], pre, [(ASG,), *SIGV[T], *([(TG(T),), *VKEYS(T)] if trig else [])])
            e.cover('ret')
        target('C13', cls.replace('pooya::', '') + '::pre_step', covers=('ret',), contracts=FULLN)(pre_step)
        def post_step(e, cls=cls, trig=trig):
            b = e.this(cls, exact=True); s = port(e, b, SOUT(T), T); e.assume(assigned(e, s)); w = val(e, s, T); pre = e.snap()
            k, _ = hook(e, cls, 'post_step', b, [e.sym('t', REAL)])
            must_return(e, k)
            if k != 'ret': return
            e.prove('takes over the value of the output', same(value(e, b, T), w, T))
            frame_obj(e, 'post-step', [b.root[1]], pre, VKEYS(T)); e.cover('ret')
        target('C13', cls.replace('pooya::', '') + '::post_step', covers=('ret',), contracts=FULLN)(post_step)
        def act(e, cls=cls, trig=trig):
            b = e.this(cls, exact=True); port(e, b, SOUT(T), T); g0 = e.get(b, TG(T)) if trig else None
            if trig: ts = port(e, b, TRC(T) + '::_trigger', 'bool'); e.assume(assigned(e, ts)); tv = val(e, ts, 'bool')
            pre = e.snap()
            k, _ = hook(e, cls, 'activation_function', b, [e.sym('t', REAL)])
            must_return(e, k)
            if k != 'ret': return
            if trig: e.prove('remembers a trigger', e.get(b, TG(T)) == z3.Or(g0, tv))
            frame_obj(e, 'activation', [b.root[1]], pre, [(TG(T),)] if trig else []); e.cover('ret')
        target('C13', cls.replace('pooya::', '') + '::activation_function', covers=('ret',), contracts=FULLN)(act)
def deriv_of(e, s, T, st=None): return select(e.heap_get((DER[BASES[T][1]],), z3.ArraySort(Ref, Ref), st), s)
def fsize(e, s, T): return select(e.heap_get(('pooya::FloatSignalImplT<%s>::_size' % T,), z3.ArraySort(Ref, I)), s)
@target('C13', 'a scalar signal has size one', covers=('ret',), contracts=EM)
def scalar_size(e):
    k, v = e.call('pooya::ScalarSignalImpl::create_new', None, [e.sym('name', STR)])
    must_return(e, k)
    if k != 'ret': return
    r = v if isinstance(v, z3.ExprRef) else e.addr(v)
    e.prove('size one', fsize(e, r, 'double') == 1); e.cover('ret')
def trigger_of(e, bi):
    k = str_lit('trigger')
    return at_def(bi, k), at_fn(bi, k)
for T_name in ('double', 'Array'): mk(T_name)
