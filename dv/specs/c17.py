"""C17: derivative and initial-value blocks follow their defining rule."""
from .ports import *
from .c04 import EM
from .c14 import held, finish, activation, single_connect
def keys(cls, f, T): return [(cls + '::' + f,)] if T != 'Array' else [(cls + '::' + f, '#len'), (cls + '::' + f, '[]')]
def mk(T):
    dv, iv = 'pooya::DerivativeT<%s>' % T, 'pooya::InitialValueT<%s>' % T
    FS, TM = dv + '::_first_step', dv + '::_t'
    def ctor(e):
        v = arg(e, 'y0', T); w = valued(e, v, T)
        o, k = construct(e, dv, [v, null, e.sym('name', STR)], 3); must_return(e, k)
        if k == 'ret':
            e.prove('holds the given initial value', same(held(e, o, dv, '_y', T), w, T)); e.prove('no post-step yet', e.get(o, FS)); ports_are(e, o, 1, 1); e.cover('ret')
    target('C17', dv[7:] + ' constructor', covers=('ret',), contracts=EM)(ctor)
    if T == 'double':
        def ctor0(e):
            o, k = construct(e, dv, [], 3); must_return(e, k)
            if k == 'ret': e.prove('the default initial value is zero', held(e, o, dv, '_y', T) == 0); e.prove('no post-step yet', e.get(o, FS)); e.cover('ret')
        target('C17', dv[7:] + ' default constructor', covers=('ret',), contracts=EM)(ctor0)
    def ictor(e):
        o, k = construct(e, iv, [null, e.sym('name', STR)], 2); must_return(e, k)
        if k == 'ret': e.prove('nothing captured yet', e.get(o, iv + '::_init')); ports_are(e, o, 1, 1); e.cover('ret')
    target('C17', iv[7:] + ' constructor', covers=('ret',), contracts=EM)(ictor)
    single_connect('C17', dv, T); single_connect('C17', iv, T)
    def post_step(e):
        b = e.this(dv, exact=True); x, y = port(e, b, SIN(T), T), port(e, b, SOUT(T, SIO(T)), T)
        e.assume(z3.And(assigned(e, x), assigned(e, y))); wx, wy = val(e, x, T), val(e, y, T); pre = e.snap()
        k, _ = hook(e, dv, 'post_step', b, [e.sym('t', REAL)]); must_return(e, k)
        if k != 'ret': return
        e.prove('remembers the time', e.get(b, TM) == z3.Const('arg:t', R))
        e.prove('remembers the input', same(held(e, b, dv, '_x', T), wx, T)); e.prove('remembers the output', same(held(e, b, dv, '_y', T), wy, T))
        e.prove('no longer before the first post-step', z3.Not(e.get(b, FS)))
        frame_obj(e, 'post-step', [b.root[1]], pre, [(FS,), (TM,), *keys(dv, '_x', T), *keys(dv, '_y', T)]); e.cover('ret')
    target('C17', dv[7:] + '::post_step', covers=('ret',), contracts=FULLN)(post_step)
    for case in ('before the first post-step', 'at the last time', 'at another time'):
        def act(e, case=case):
            b, r, s, (x,) = activation(e, dv, T, T, [SIN(T)], None, SIO(T)); v, y0, x0, t0 = val(e, x, T), held(e, b, dv, '_y', T), held(e, b, dv, '_x', T), e.get(b, TM); n = None
            t = e.sym('t', REAL); first = case.startswith('before')
            e.assume(e.get(b, FS) if first else z3.Not(e.get(b, FS)))
            if not first: e.assume(t == t0 if case == 'at the last time' else t != t0)
            if T == 'Array':
                n = v[1]; e.assume(z3.And(n == size(e, s), y0[1] == n))
                if not first: e.assume(x0[1] == n)
            pre = e.snap()
            k, _ = hook(e, dv, 'activation_function', b, [t]); must_return(e, k)
            if k != 'ret': return
            if case == 'at another time':
                # the quotient, without dividing
                w = val(e, s, T); m = w[1] if T == 'Array' else None
                e.prove('the output is the difference quotient', z3.Implies(inr(m, T), at(w, T) == (at(v, T) - at(x0, T)) / (t - t0)))
                if T == 'Array': e.prove('of the same size', m == n)
                e.prove('the output is assigned', assigned(e, s)); frame_obj(e, 'activation', [s, r], pre, [(ASG,), *SIGV[T]]); e.cover('ret')
            else: finish(e, s, T, at(y0, T), n, pre, r, [(TM,), *keys(dv, '_x', T)] if first else [])
        target('C17', dv[7:] + '::activation_function, ' + case, covers=('ret',), contracts=FULLN)(act)
    no_steps('C17', dv, ('pre_step',)); no_steps('C17', iv)
    def first(e):
        b, r, s, (x,) = activation(e, iv, T, T, [SIN(T)], None, SIO(T)); v = val(e, x, T); n = None
        e.assume(z3.And(e.get(b, iv + '::_init'), link_inv(e, r), linked(e, r, x)))
        if T == 'Array': n = v[1]; e.assume(n == size(e, s))
        bt = bits_of(e); o = sk('other', Ref); L0 = lk(e, r); pre = e.snap()
        k, _ = hook(e, iv, 'activation_function', b, [e.sym('t', REAL)]); must_return(e, k)
        if k != 'ret': return
        e.prove('captures the input', same(held(e, b, iv, '_value', T), v, T)); e.prove('only once', z3.Not(e.get(b, iv + '::_init')))
        e.prove('the input is not required afterwards', z3.And(linked(e, r, x), z3.Not(flag(e, r, x, bt['Required']))))
        e.prove('it stays an input', flag(e, r, x, bt['Input']) == flag(e, r, x, bt['Input'], pre))
        e.prove('the other links stay', z3.Implies(z3.And(linked(e, r, o, pre), o != x), z3.And(linked(e, r, o), select(lk(e, r)[1], pos(e, r, o)) == select(L0[1], pos(e, r, o, pre)))))
        finish(e, s, T, at(v, T), n, pre, r, [(iv + '::_init',), *keys(iv, '_value', T), (LS, '[]', 'second')])
    target('C17', iv[7:] + '::activation_function, first', covers=('ret',), contracts={**FULLN, **FIND})(first)
    def later(e):
        # the input may be unknown
        b = e.this(iv, exact=True); r = b.root[1]; s = port(e, b, SOUT(T, SIO(T)), T); x = port(e, b, SIN(T), T); e.assume(z3.Not(assigned(e, s)))
        e.assume(z3.And(z3.Not(e.get(b, iv + '::_init')), link_inv(e, r)))
        v = held(e, b, iv, '_value', T); n = None
        if T == 'Array': n = v[1]; e.assume(z3.And(n == size(e, s), n >= 0))
        pre = e.snap()
        k, _ = hook(e, iv, 'activation_function', b, [e.sym('t', REAL)]); must_return(e, k)
        if k == 'ret': finish(e, s, T, at(v, T), n, pre, r)
    target('C17', iv[7:] + '::activation_function, later', covers=('ret',), contracts={**FULLN, **FIND})(later)
for T_name in ('double', 'Array'): mk(T_name)
