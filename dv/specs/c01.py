"""C01 signals: single assignment per pass."""
from .common import *

KINDS = {'pooya::ScalarSignalImpl': ('_scalar_value', REAL), 'pooya::IntSignalImpl': ('_int_value', INT), 'pooya::BoolSignalImpl': ('_bool_value', BOOL)}

def mk(rec_, fld, ty):
    short = rec_.split('::')[-1]
    vq = '%s::%s' % (rec_, fld)
    def get(e):
        s = e.this(rec_)
        pre = e.snap()
        asg = e.get(s, ASG, pre)
        k, v = e.call(rec_ + '::get_value', s, [])
        frame_same(e, 'get_value', pre)
        if k == 'throw':
            e.prove('get_value throws only if unassigned', z3.Not(asg)); e.cover('throw')
        else:
            e.prove('get_value returns only if assigned', asg)
            e.prove('get_value returns the stored value', v == e.get(s, vq, pre)); e.cover('ret')
    def put(e):
        s = e.this(rec_)
        x = e.sym('x', ty)
        pre = e.snap()
        asg = e.get(s, ASG, pre)
        k, v = e.call(rec_ + '::set_value', s, [x])
        if k == 'throw':
            e.prove('set_value throws only if assigned', asg)
            frame_same(e, 'rejected set_value', pre); e.cover('throw')
        else:
            e.prove('set_value accepted only if unassigned', z3.Not(asg))
            e.prove('set_value marks assigned', e.get(s, ASG))
            k2, w = e.call(rec_ + '::get_value', s, [])
            e.prove('a read after set_value is accepted', z3.BoolVal(k2 == 'ret'))
            if k2 == 'ret': e.prove('a read after set_value returns the value', w == x)
            frame_other(e, s, pre, [(ASG,), (vq,)]); e.cover('ret')
    target('C01', short + '::get_value', covers=('throw', 'ret'))(get)
    target('C01', short + '::set_value', covers=('throw', 'ret'))(put)

for rec_, (f, ty) in KINDS.items(): mk(rec_, f, ty)

AR = 'pooya::ArraySignalImpl'; SZ = ASZ

def arr_ready(e, s, pre=None):
    return z3.And(e.get(s, AV, pre).lv[('#len',)] == e.get(s, SZ, pre))

@target('C01', 'ArraySignalImpl::get_value', covers=('throw', 'ret'))
def arr_get(e):
    s = e.this(AR)
    e.assume(arr_ready(e, s))          # class invariant (established by the constructor, kept by set_value: see below)
    pre = e.snap(); asg = e.get(s, ASG, pre)
    k, v = e.call(AR + '::get_value', s, [], nparams=0)
    frame_same(e, 'get_value', pre)
    if k == 'throw': e.prove('throws only if unassigned', z3.Not(asg)); e.cover('throw')
    else:
        e.prove('returns only if assigned', asg)
        v = e.read(v) if isinstance(v, Loc) else v
        a = e.get(s, AV, pre)
        i = z3.Const('sk:i', I)
        e.prove('length', v.lv[('#len',)] == a.lv[('#len',)])
        e.prove('elements', select(v.lv[('[]',)], i) == select(a.lv[('[]',)], i)); e.cover('ret')

@target('C01', 'ArraySignalImpl::get_value(index)', covers=('throw', 'ret'))
def arr_get_i(e):
    s = e.this(AR)
    e.assume(arr_ready(e, s))
    i = e.sym('i', SIZE)
    e.assume(i < e.get(s, SZ))
    pre = e.snap(); asg = e.get(s, ASG, pre)
    k, v = e.call(AR + '::get_value', s, [i], nparams=1)
    frame_same(e, 'get_value', pre)
    if k == 'throw': e.prove('throws only if unassigned', z3.Not(asg)); e.cover('throw')
    else:
        e.prove('returns only if assigned', asg)
        e.prove('element', v == select(e.get(s, AV, pre).lv[('[]',)], i)); e.cover('ret')

@target('C01', 'ArraySignalImpl::set_value', covers=('throw', 'ret'))
def arr_set(e):
    s = e.this(AR)
    e.assume(arr_ready(e, s))
    x = e.new_local(e.sym('x', ARR), ARR)
    pre = e.snap(); asg = e.get(s, ASG, pre)
    n = e.read(x).lv[('#len',)]
    k, v = e.call(AR + '::set_value', s, [x])
    if k == 'throw':
        e.prove('throws only if assigned or of another length', z3.Or(asg, n != e.get(s, SZ, pre)))
        frame_same(e, 'rejected set_value', pre); e.cover('throw')
    else:
        e.prove('accepted only if unassigned', z3.Not(asg))
        e.prove('accepted only for the signal length', n == e.get(s, SZ, pre))
        e.prove('marks assigned', e.get(s, ASG))
        e.prove('keeps the class invariant', arr_ready(e, s))
        i = z3.Const('sk:i', I)
        e.prove('stores every element', z3.Implies(z3.And(i >= 0, i < n), select(e.get(s, AV).lv[('[]',)], i) == select(e.read(x).lv[('[]',)], i)))
        frame_other(e, s, pre, [(ASG,), (AV, '#len'), (AV, '[]')]); e.cover('ret')

@target('C01', 'ValueSignalImpl::clear', covers=('ret',))
def clear(e):
    s = e.this('pooya::ValueSignalImpl', exact=False)
    pre = e.snap()
    k, v = e.call('pooya::ValueSignalImpl::clear', s, [])
    e.prove('never throws', z3.BoolVal(k == 'ret'))
    e.prove('unassigned', z3.Not(e.get(s, ASG)))
    frame_other(e, s, pre, [(ASG,)])
    k, v = e.call('pooya::ValueSignalImpl::assigned', s, [])
    e.prove('assigned() reports it', v == e.get(s, ASG)); e.cover('ret')

# handles: they read and write the very signal they denote ----------------------------------------
def mk_handle(T):
    cls, ty, f = TYPES[T]; H = 'pooya::' + cls; vq = vkey(T)
    wkeys = [(ASG,)] + ([(vq,)] if T != 'Array' else [(vq, '#len'), (vq, '[]')])
    def handle(e, name):
        h = e.new_local(e.sym(name, rec(H)), rec(H))
        r = e.read(h).lv[(PTR,)]
        if T == 'Array': e.assume(arr_inv(e, r))
        return h, e.obj(r, impl(T))
    def asg_val(e):
        h, s = handle(e, 'h')
        x = e.sym('x', ty)
        a = e.new_local(x, ty) if T == 'Array' else x
        pre = e.snap(); asg = e.get(s, ASG, pre)
        k, v = e.call(H + '::operator=', h, [a], sig={'double': '(double)', 'int': '(int)', 'bool': '(bool)', 'Array': 'Array &'}[T])
        bad = asg if T != 'Array' else z3.Or(asg, x.lv[('#len',)] != e.get(s, SZ, pre))
        if k == 'throw':
            e.prove('rejected only when assigned (or of another length)', bad); frame_same(e, 'rejected assignment', pre); e.cover('throw')
        else:
            e.prove('accepted only when unassigned (and of the right length)', z3.Not(bad))
            e.prove('the signal becomes assigned', e.get(s, ASG))
            e.prove('the signal holds the value', same_val(e, T, e.get(s, vq), x))
            frame_other(e, s, pre, wkeys); e.cover('ret')
    def conv(e):
        h, s = handle(e, 'h')
        pre = e.snap(); asg = e.get(s, ASG, pre)
        nm = {'double': 'operator double', 'int': 'operator int', 'bool': 'operator bool', 'Array': 'operator const Array &'}[T]
        q = [x for x in e.ast.fn_by_q if x.startswith(H + '::operator ')]
        k, v = e.call(q[0] if q else H + '::' + nm, h, [])
        frame_same(e, 'conversion', pre)
        if k == 'throw': e.prove('rejected only when unassigned', z3.Not(asg)); e.cover('throw')
        else:
            e.prove('accepted only when assigned', asg)
            e.prove('yields the current value', same_val(e, T, v, e.get(s, vq, pre))); e.cover('ret')
    def asg_handle(e):
        h, s = handle(e, 'h'); g, o = handle(e, 'g')
        pre = e.snap(); sa = e.get(s, ASG, pre); oa = e.get(o, ASG, pre); ov = e.get(o, vq, pre)
        k, v = e.call(H + '::operator=', h, [g], sig=cls + ' &')
        bad = z3.Or(sa, z3.Not(oa)) if T != 'Array' else z3.Or(sa, z3.Not(oa), e.get(s, SZ, pre) != e.get(o, SZ, pre))
        if k == 'throw':
            e.prove('rejected only if the target is assigned, the source is not (or the sizes differ)', bad); frame_same(e, 'rejected', pre); e.cover('throw')
        else:
            e.prove('accepted only if allowed', z3.Not(bad))
            e.prove('the target becomes assigned', e.get(s, ASG))
            e.prove('the target takes the source value', same_val(e, T, e.get(s, vq), ov))
            e.prove('the source keeps its state', z3.And(e.get(o, ASG), same_val(e, T, e.get(o, vq), ov)))
            frame_other(e, s, pre, wkeys); e.cover('ret')
    target('C01', cls + '::operator=(value)', covers=('throw', 'ret'))(asg_val)
    target('C01', cls + '::operator value', covers=('throw', 'ret'))(conv)
    target('C01', cls + '::operator=(handle)', covers=('throw', 'ret'))(asg_handle)
for T in TYPES: mk_handle(T)

@target('C01', 'ArraySignal::operator[]', covers=('throw', 'ret'))
def arr_idx(e):
    H = 'pooya::ArraySignal'
    h = e.new_local(e.sym('h', rec(H)), rec(H)); s = e.obj(e.read(h).lv[(PTR,)], AR)
    e.assume(arr_ready(e, s)); i = e.sym('i', SIZE); e.assume(i < e.get(s, SZ))
    pre = e.snap(); asg = e.get(s, ASG, pre)
    k, v = e.call(H + '::operator[]', h, [i])
    frame_same(e, 'operator[]', pre)
    if k == 'throw': e.prove('rejected only when unassigned', z3.Not(asg)); e.cover('throw')
    else:
        e.prove('accepted only when assigned', asg); e.prove('element', v == select(e.get(s, AV, pre).lv[('[]',)], i)); e.cover('ret')
