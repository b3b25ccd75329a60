"""C15: a memory outputs the previous step's input; a pipe the current input."""
from .ports import *
from .c04 import EM
from .c14 import held, finish, activation, single_connect
def mk(T):
    mem, pipe = 'pooya::MemoryT<%s>' % T, 'pooya::PipeT<%s>' % T
    vkeys = [(mem + '::_value',)] if T != 'Array' else [(mem + '::_value', '#len'), (mem + '::_value', '[]')]
    def ctor(e):
        v = arg(e, 'ic', T); w = valued(e, v, T)
        o, k = construct(e, mem, [v, null, e.sym('name', STR)], 3); must_return(e, k)
        if k == 'ret': e.prove('holds the given initial value', same(held(e, o, mem, '_value', T), w, T)); ports_are(e, o, 1, 1); e.cover('ret')
    target('C15', mem[7:] + ' constructor', covers=('ret',), contracts=EM)(ctor)
    def pctor(e):
        o, k = construct(e, pipe, [null, e.sym('name', STR)], 2); must_return(e, k)
        if k == 'ret': ports_are(e, o, 1, 1); e.cover('ret')
    target('C15', pipe[7:] + ' constructor', covers=('ret',), contracts=EM)(pctor)
    single_connect('C15m', mem, T); single_connect('C15', pipe, T)
    def post_step(e):
        b = e.this(mem, exact=True); x = port(e, b, SIN(T), T); e.assume(assigned(e, x)); w = val(e, x, T); pre = e.snap()
        k, _ = hook(e, mem, 'post_step', b, [e.sym('t', REAL)]); must_return(e, k)
        if k != 'ret': return
        v = held(e, b, mem, '_value', T)
        e.prove('takes over the value of the input', same(v, w, T) if T == 'Array' else v == w)
        frame_obj(e, 'post-step', [b.root[1]], pre, vkeys); e.cover('ret')
    target('C15', mem[7:] + '::post_step', covers=('ret',), contracts=FULLN)(post_step)
    def act(e):
        # the input may be unknown
        b = e.this(mem, exact=True); r = b.root[1]; s = port(e, b, SOUT(T, SIO(T)), T); port(e, b, SIN(T), T); e.assume(z3.Not(assigned(e, s)))
        v = held(e, b, mem, '_value', T); n = None
        if T == 'Array': n = v[1]; e.assume(z3.And(n == size(e, s), n >= 0))
        pre = e.snap()
        k, _ = hook(e, mem, 'activation_function', b, [e.sym('t', REAL)]); must_return(e, k)
        if k == 'ret': finish(e, s, T, at(v, T), n, pre, r)
    target('C15', mem[7:] + '::activation_function', covers=('ret',), contracts=FULLN)(act)
    def pact(e):
        b, r, s, (x,) = activation(e, pipe, T, T, [SIN(T)], None, SIO(T)); v = val(e, x, T); n = None
        if T == 'Array': n = v[1]; e.assume(n == size(e, s))
        pre = e.snap()
        k, _ = hook(e, pipe, 'activation_function', b, [e.sym('t', REAL)]); must_return(e, k)
        if k == 'ret': finish(e, s, T, at(v, T), n, pre, r)
    target('C15', pipe[7:] + '::activation_function', covers=('ret',), contracts=FULLN)(pact)
    no_steps('C15', mem, ('pre_step',)); no_steps('C15', pipe)
for T_name in ('double', 'int', 'bool', 'Array'): mk(T_name)
