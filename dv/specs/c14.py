"""C14: arithmetic, function and source blocks compute exactly their formula."""
from .ports import *
from .c04 import EM
THIS = z3.Const('this', Ref)
TT = z3.Const('arg:t', R)
CB = z3.Const('arg:f', Fn)
FT = lambda T: T if T != 'int' else 'int'
acc = z3.Function('acc', I, R); acc1 = z3.Function('acc1', I, R)          # the result over the first n inputs
combine = {'Add': lambda a, x: a + x, 'Multiply': lambda a, x: a * x}
def held(e, b, cls, f, T, st=None):
    v = e.get(b, cls + '::' + f, st)
    return (v.lv[('[]',)], v.lv[('#len',)]) if T == 'Array' else v
def num(v, T): return at(v, T)

def inputs(e, r, T, n=None):
    """signals on the input bus of block r: assigned values of the type (debug builds reject others, C01, C02)"""
    ib = bus_of(e, r, IB); e.assume(z3.And(ib != null, aid(ib) <= e.st.alloc)); e.type_fact(ib, BI)
    A = e.get(e.obj(ib, BI), SG).lv[('[]', 'second', PTR)]; c = bcount(e, ib); j = z3.Const('q:j', I)
    s = z3.Select(A, j); IM = BASES[T][1]
    fs = [s != null, e.isa(s, IM), assigned(e, s), aid(s) <= e.st.alloc]
    if n is not None: fs += [val(e, s, T)[1] == n]
    e.assume(z3.And(c >= 0, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < c), z3.And(*fs)), patterns=[s])))
    if T == 'Array': e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < c), arr_inv(e, s)), patterns=[s]))
    return A, c
def sum_hint(L):
    e = L.eng; out = []
    for k in L.counters:
        for c, g, d, i in L.syms:
            if c.sort() == R: out.append(('%s is the result of the inputs so far' % d, c == acc(k.cur)))
            elif c.sort() == RA: out.append(('%s is the result of the inputs so far' % d, z3.Implies(z3.And(W0 >= 0, W0 < z3.Const('gh:size', I)), select(c, W0) == acc(k.cur))))
    for c, g, d, i in L.syms:
        if c.sort() == I and (d.endswith('#len') or '#len@' in d): out.append(('size stays', c == z3.Const('gh:size', I)))
    return out
def all_hint(T):
    def hint(L):
        e = L.eng; out = []; j = z3.Const('q:j', I)
        A = z3.Const('gh:in', z3.ArraySort(I, Ref))
        for k in L.counters: out.append(('all inputs so far have the type', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k.cur), e.isa(z3.Select(A, j), BASES[T][1])), patterns=[z3.Select(A, j)])))
        return out
    return hint
def defaults(e, name, cls, f, want):
    o, k = construct(e, cls, [], 3); must_return(e, k)
    if k == 'ret': e.prove('the default initial value is %s' % want, e.get(o, cls + '::' + f) == want); e.cover('ret')

def mk_many(name, T, want):
    cls = 'pooya::%sT<%s>' % (name, T); IM = BASES[T][1]
    def ctor(e):
        v = arg(e, 'initial', T); w = valued(e, v, T)
        o, k = construct(e, cls, [v, null, e.sym('name', STR)], 3); must_return(e, k)
        if k != 'ret': return
        e.prove('holds the given initial value', same(held(e, o, cls, '_initial', T), w, T)); ports_are(e, o, NOLIM, 1); e.cover('ret')
    target('C14', cls[7:] + ' constructor', covers=('ret',), contracts=EM)(ctor)
    if T == 'double': target('C14', cls[7:] + ' default constructor', covers=('ret',), contracts=EM)(lambda e: defaults(e, name, cls, '_initial', want))
    def connect(e):
        b = e.this(cls, exact=True); r = b.root[1]; ib, bi, ob, bo = buses(e, b)
        e.assume(z3.And(e.get(b, BK + '::_num_iports') == NOLIM, e.get(b, BK + '::_num_oports') == 1))
        A = e.get(e.obj(bi, BI), SG).lv[('[]', 'second', PTR)]; n = bcount(e, bi); j = z3.Const('q:j', I)
        e.assume(z3.Const('gh:in', z3.ArraySort(I, Ref)) == A)
        e.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(A, j) != null, aid(z3.Select(A, j)) <= e.st.alloc)), patterns=[z3.Select(A, j)]))
        y = bsig(e, bo, z3.IntVal(0)); e.type_fact(y, SI)
        i0 = z3.Const('sk:input', I)
        fine = z3.And(conn_ok(e, r, bi, bo), e.isa(y, IM), n >= 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), e.isa(z3.Select(A, j), IM)), patterns=[z3.Select(A, j)]))
        k, v = hook(e, cls, 'connect', b, [ib, ob])
        if k == 'throw': e.prove('rejected only for unsuitable buses', z3.Not(fine)); e.cover('throw'); return
        e.prove('reports success', v)
        denotes_(e, b, SOUT(T), T, y, 'the output is the signal of the output port')
        e.prove('the inputs are those of the bus', bus_of(e, r, IB) == bi)
        e.prove('every input has the type', z3.Implies(z3.And(i0 >= 0, i0 < n), e.isa(z3.Select(A, i0), IM)))
        e.cover('ret')
    target('C14', cls[7:] + '::connect', covers=('ret', 'throw'), contracts=CONNS, hints=[all_hint(T)], deep='hints')(connect)
    def act(e):
        b = e.this(cls, exact=True); r = b.root[1]; s = port(e, b, SOUT(T), T); e.assume(z3.Not(assigned(e, s)))
        v0 = held(e, b, cls, '_initial', T); n = v0[1] if T == 'Array' else None
        A, c = inputs(e, r, T, n)
        if T == 'Array': e.assume(z3.And(n == size(e, s), n >= 0, z3.Const('gh:size', I) == n))
        q = z3.Const('q:n', I)
        x = at(val(e, z3.Select(A, q - 1), T), T)
        e.assume(z3.ForAll([q], z3.And(acc(q) == acc1(q), acc(q) == z3.If(q <= 0, at(v0, T), combine[name](acc1(q - 1), x))), patterns=[acc(q)]))
        pre = e.snap()
        k, _ = hook(e, cls, 'activation_function', b, [e.sym('t', REAL)])
        must_return(e, k)
        if k != 'ret': return
        w = val(e, s, T); m = w[1] if T == 'Array' else None
        e.prove('the output combines the initial value and all inputs', z3.Implies(inr(m, T), at(w, T) == acc(c)))
        if T == 'Array': e.prove('of the same size', m == n)
        e.prove('the initial value stays', same(held(e, b, cls, '_initial', T), v0, T))
        ret = [(cls + '::_ret',)] if T != 'Array' else [(cls + '::_ret', '#len'), (cls + '::_ret', '[]')]
        e.prove('the output is assigned', assigned(e, s))
        frame_obj(e, 'activation', [s, r], pre, [(ASG,), *SIGV[T], *ret]); e.cover('ret')
    target('C14', cls[7:] + '::activation_function', covers=('ret',), contracts=FULLN, hints=[sum_hint], deep='hints')(act)
for T_name in ('double', 'Array'):
    mk_many('Add', T_name, 0); mk_many('Multiply', T_name, 1)

def activation(e, cls, T, Tout, fields, want, base, callback=False):
    """common part of the fixed-port blocks: fields are input ports; want(values) the expected number"""
    b = e.this(cls, exact=True); r = b.root[1]; s = port(e, b, SOUT(Tout, base), Tout); e.assume(z3.Not(assigned(e, s)))
    xs = [port(e, b, f, T) for f in fields]
    for x in xs: e.assume(z3.And(assigned(e, x), x != s))
    return b, r, s, xs
def finish(e, s, T, want, n, pre, r, own=()):
    w = val(e, s, T); m = w[1] if T == 'Array' else None
    e.prove('the output is the formula', z3.Implies(inr(m, T), at(w, T) == want))
    if T == 'Array': e.prove('of the same size', m == n)
    e.prove('the output is assigned', assigned(e, s))
    frame_obj(e, 'activation', [s, r], pre, [(ASG,), *SIGV[T], *own]); e.cover('ret')

def mk_two(name, T, op):
    cls = 'pooya::%sT<%s>' % (name, T); IM = BASES[T][1]; X = [cls + '::_s_x1', cls + '::_s_x2']
    def ctor(e):
        o, k = construct(e, cls, [null, e.sym('name', STR)], 2); must_return(e, k)
        if k == 'ret': ports_are(e, o, 2, 1); e.cover('ret')
    target('C14', cls[7:] + ' constructor', covers=('ret',), contracts=EM)(ctor)
    def connect(e):
        b = e.this(cls, exact=True); r = b.root[1]; ib, bi, ob, bo = buses(e, b)
        e.assume(z3.And(e.get(b, BK + '::_num_iports') == 2, e.get(b, BK + '::_num_oports') == 1))
        x1, x2, y = bsig(e, bi, z3.IntVal(0)), bsig(e, bi, z3.IntVal(1)), bsig(e, bo, z3.IntVal(0))
        for s in (x1, x2, y): e.type_fact(s, SI)
        fine = z3.And(conn_ok(e, r, bi, bo), e.isa(x1, IM), e.isa(x2, IM), e.isa(y, IM))
        k, v = hook(e, cls, 'connect', b, [ib, ob])
        if k == 'throw': e.prove('rejected only for unsuitable buses', z3.Not(fine)); e.cover('throw'); return
        e.prove('reports success', v)
        denotes_(e, b, SOUT(T), T, y, 'the output is the signal of the output port')
        denotes_(e, b, X[0], T, x1, 'the first operand is the first input')
        denotes_(e, b, X[1], T, x2, 'the second operand is the second input'); e.cover('ret')
    target('C14', cls[7:] + '::connect', covers=('ret', 'throw'), contracts=CONNS)(connect)
    def act(e):
        b, r, s, (x1, x2) = activation(e, cls, T, T, X, None, 'Leaf')
        v1, v2 = val(e, x1, T), val(e, x2, T); n = None
        if T == 'Array': n = v1[1]; e.assume(z3.And(n == v2[1], n == size(e, s)))
        if name == 'Divide': e.assume(z3.Implies(inr(n, T), at(v2, T) != 0))
        pre = e.snap()
        k, _ = hook(e, cls, 'activation_function', b, [e.sym('t', REAL)])
        must_return(e, k)
        if k == 'ret': finish(e, s, T, op(at(v1, T), at(v2, T)), n, pre, r)
    target('C14', cls[7:] + '::activation_function', covers=('ret',), contracts=FULLN)(act)
for T_name in ('double', 'Array'):
    mk_two('Subtract', T_name, lambda a, b: a - b); mk_two('Divide', T_name, lambda a, b: a / b)

def single_connect(pid, cls, T, ni=1):
    """connecting a block with one input and one output"""
    IM = BASES[T][1]
    def connect(e):
        b = e.this(cls, exact=True); r = b.root[1]; ib, bi, ob, bo = buses(e, b)
        e.assume(z3.And(e.get(b, BK + '::_num_iports') == 1, e.get(b, BK + '::_num_oports') == 1))
        x, y = bsig(e, bi, z3.IntVal(0)), bsig(e, bo, z3.IntVal(0))
        for s in (x, y): e.type_fact(s, SI)
        fine = z3.And(conn_ok(e, r, bi, bo), e.isa(x, IM), e.isa(y, IM))
        k, v = hook(e, cls, 'connect', b, [ib, ob])
        if k == 'throw': e.prove('rejected only for unsuitable buses', z3.Not(fine)); e.cover('throw'); return
        e.prove('reports success', v)
        denotes_(e, b, SOUT(T, SIO(T)), T, y, 'the output is the signal of the output port')
        denotes_(e, b, SIN(T), T, x, 'the input is the signal of the input port')
        bt = bits_of(e)
        e.prove('the input is linked as an input', z3.And(linked(e, r, x), flag(e, r, x, bt['Input'])))
        if pid == 'C15m': e.prove('the input is not required', z3.Not(flag(e, r, x, bt['Required'])))
        else: e.prove('the input is required', flag(e, r, x, bt['Required']))
        e.cover('ret')
    target(pid[:3], cls[7:] + '::connect', covers=('ret', 'throw'), contracts=CONNS)(connect)
def mk_gain(T, G):
    cls = 'pooya::GainT<%s,%s>' % (T, G)
    def ctor(e):
        g = e.sym('k', VT[G]); o, k = construct(e, cls, [g, null, e.sym('name', STR)], 3); must_return(e, k)
        if k == 'ret': e.prove('holds the given gain', e.get(o, cls + '::_k') == g); ports_are(e, o, 1, 1); e.cover('ret')
    target('C14', cls[7:] + ' constructor', covers=('ret',), contracts=EM)(ctor)
    single_connect('C14', cls, T)
    def act(e):
        b, r, s, (x,) = activation(e, cls, T, T, [SIN(T)], None, SIO(T)); v = val(e, x, T); n = None
        if T == 'Array': n = v[1]; e.assume(n == size(e, s))
        g = e.get(b, cls + '::_k'); pre = e.snap()
        k, _ = hook(e, cls, 'activation_function', b, [e.sym('t', REAL)])
        must_return(e, k)
        if k == 'ret': finish(e, s, T, g * at(v, T), n, pre, r)
    target('C14', cls[7:] + '::activation_function', covers=('ret',), contracts=FULLN)(act)
    def gain(e):
        b = e.this(cls); g = e.get(b, cls + '::_k'); k, v = e.call(cls + '::gain', b, []); must_return(e, k)
        if k == 'ret': e.prove('the gain', (e.read(v) if isinstance(v, Loc) else v) == g); e.cover('ret')
    target('C14', cls[7:] + '::gain', covers=('ret',))(gain)
mk_gain('double', 'double'); mk_gain('int', 'int'); mk_gain('Array', 'double')

def out_connect(cls, T, ni):
    """connecting a block with one output and any inputs"""
    IM = BASES[T][1]
    def connect(e):
        b = e.this(cls, exact=True); r = b.root[1]; ib, bi, ob, bo = buses(e, b)
        e.assume(e.get(b, BK + '::_num_oports') == 1)
        y = bsig(e, bo, z3.IntVal(0)); e.type_fact(y, SI)
        fine = z3.And(conn_ok(e, r, bi, bo), e.isa(y, IM))
        k, v = hook(e, cls, 'connect', b, [ib, ob])
        if k == 'throw': e.prove('rejected only for unsuitable buses', z3.Not(fine)); e.cover('throw'); return
        e.prove('reports success', v); e.prove('the inputs are those of the bus', bus_of(e, r, IB) == bi)
        denotes_(e, b, SOUT(T), T, y, 'the output is the signal of the output port'); e.cover('ret')
    target('C14', cls[7:] + '::connect', covers=('ret', 'throw'), contracts=CONNS)(connect)
def mk_const(T):
    cls = 'pooya::ConstT<%s>' % T
    def ctor(e):
        v = arg(e, 'value', T); w = valued(e, v, T)
        o, k = construct(e, cls, [v, null, e.sym('name', STR)], 3); must_return(e, k)
        if k == 'ret': e.prove('holds the given value', same(held(e, o, cls, '_value', T), w, T)); ports_are(e, o, 0, 1); e.cover('ret')
    target('C14', cls[7:] + ' constructor', covers=('ret',), contracts=EM)(ctor)
    out_connect(cls, T, 0)
    def act(e):
        b, r, s, _ = activation(e, cls, T, T, [], None, 'Leaf'); v = held(e, b, cls, '_value', T); n = None
        if T == 'Array': n = v[1]; e.assume(z3.And(n == size(e, s), n >= 0))
        pre = e.snap()
        k, _ = hook(e, cls, 'activation_function', b, [e.sym('t', REAL)])
        must_return(e, k)
        if k == 'ret': finish(e, s, T, at(v, T), n, pre, r)
    target('C14', cls[7:] + '::activation_function', covers=('ret',), contracts=FULLN)(act)
mk_const('double'); mk_const('Array')

# blocks that call a function -------------------------------------------------------------------------------------------------
def result(e, T, byref):
    """what the function returns: any value"""
    v = e.sym('res', VT[T])
    e.st.extra['res'] = valued(e, v, T)
    if T == 'Array': e.assume(z3.And(v.lv[('#len',)] == e.st.extra['size'], v.lv[('#len',)] >= 0))
    return e.new_local(v, ARR) if T == 'Array' and byref else v
def called(e, fn, t):
    x = e.st.extra
    e.prove('it is the given function', fn == CB)
    e.prove('only one call', z3.BoolVal(x['calls'] == 0)); x['calls'] += 1
    t = e.read(t) if isinstance(t, Loc) else t
    e.prove('called with the time', t == TT)
def is_bus(e, a, r, key):
    v = e.read(a) if isinstance(a, Loc) else a
    return v.lv[(PTR,)] == bus_of(e, r, key, e.st.extra['pre'])
def fn_ctor(cls, f, args, np, ni, no):
    def ctor(e):
        a = [z3.Const('arg:n%d' % i, I) if x == 'n' else x for i, x in enumerate(args)]
        for x in a:
            if isinstance(x, z3.ExprRef) and x.sort() == I: e.assume(z3.And(x >= 0, x < 65536))
        e.assume(CB != fnnull)
        o, k = construct(e, cls, [CB, null, e.sym('name', STR)] + a, np); must_return(e, k)
        if k != 'ret': return
        e.prove('holds the given function', e.get(o, cls + '::' + f) == CB)
        pi, po = e.get(o, BK + '::_num_iports'), e.get(o, BK + '::_num_oports')
        pick = lambda w: a[w[1]] if isinstance(w, tuple) else w
        if ni is not None: e.prove('number of input ports', pi == pick(ni))
        if no is not None: e.prove('number of output ports', po == pick(no))
        e.cover('ret')
    target('C14', cls[7:] + ' constructor', covers=('ret',), contracts=EM)(ctor)
def fn_act(cls, f, T, base, callback):
    def act(e):
        e.assume(CB != fnnull)
        if T is None:
            b = e.this(cls, exact=True); r = b.root[1]; s = None; xs = ()
        else:
            b, r, s, xs = activation(e, cls, T, T, [SIN(T)] if base != 'Leaf' else [], None, base)
        e.assume(e.get(b, cls + '::' + f) == CB)
        x = e.st.extra; x['calls'] = 0; x['r'] = r; x['in'] = val(e, xs[0], T) if xs else None
        if T == 'Array': x['size'] = size(e, s)
        pre = e.snap(); x['pre'] = pre
        k, _ = hook(e, cls, 'activation_function', b, [e.sym('t', REAL)])
        must_return(e, k)
        if k != 'ret': return
        x = e.st.extra
        e.prove('the function is called', z3.BoolVal(x['calls'] == 1))
        if x['calls'] != 1: return
        if T is None:
            frame_obj(e, 'activation', [r], x['post'], []); e.cover('ret'); return
        finish(e, s, T, at(x['res'], T), x.get('size'), pre, r)
    target('C14', cls[7:] + '::activation_function', covers=('ret',), contracts={**FULLN, 'callback': callback})(act)
def mk_fn(T):
    src, siso, so = ('pooya::%sT<%s>' % (n, T) for n in ('Source', 'SISOFunction', 'SOFunction'))
    def cb_src(e, fn, a, node): called(e, fn, a[0]); return result(e, T, False)
    fn_ctor(src, '_src_func', [], 3, None, 1); out_connect(src, T, 0); fn_act(src, '_src_func', T, 'Leaf', cb_src)
    if T == 'int': return
    def cb_siso(e, fn, a, node):
        called(e, fn, a[0]); e.prove('called with the input', same(valued(e, a[1], T), e.st.extra['in'], T)); return result(e, T, True)
    fn_ctor(siso, '_act_func', [], 3, 1, 1); single_connect('C14', siso, T); fn_act(siso, '_act_func', T, SIO(T), cb_siso)
    def cb_so(e, fn, a, node):
        called(e, fn, a[0]); e.prove('called with the input bus', is_bus(e, a[1], e.st.extra['r'], IB)); return result(e, T, True)
    fn_ctor(so, '_act_func', ['n'], 4, ('n', 0), 1); out_connect(so, T, 0); fn_act(so, '_act_func', T, 'Leaf', cb_so)
for T_name in ('double', 'int', 'Array'): mk_fn(T_name)
def cb_fun(e, fn, a, node):
    called(e, fn, a[0]); e.prove('called with the input bus', is_bus(e, a[1], e.st.extra['r'], IB)); e.prove('called with the output bus', is_bus(e, a[2], e.st.extra['r'], OB))
    havoc_signals(e); e.st.extra['post'] = e.snap(); return None
def cb_srcs(e, fn, a, node):
    called(e, fn, a[1]); e.prove('called with the output bus', is_bus(e, a[0], e.st.extra['r'], OB)); havoc_signals(e); e.st.extra['post'] = e.snap(); return None
fn_ctor('pooya::Function', '_act_func', ['n', 'n'], 5, ('n', 0), ('n', 1)); fn_act('pooya::Function', '_act_func', None, None, cb_fun)
fn_ctor('pooya::Sources', '_src_func', ['n'], 4, 0, ('n', 0)); fn_act('pooya::Sources', '_src_func', None, None, cb_srcs)
for T_name in ('double', 'Array'):
    for n_ in ('Add', 'Multiply', 'Subtract', 'Divide', 'Const', 'Source', 'SISOFunction', 'SOFunction'): no_steps('C14', 'pooya::%sT<%s>' % (n_, T_name))
for n_ in ('SourceT<int>', 'GainT<double,double>', 'GainT<int,int>', 'GainT<Array,double>', 'Function', 'Sources'): no_steps('C14', 'pooya::' + n_)
