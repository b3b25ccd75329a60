"""Vocabulary of the blocks with typed ports (C13-C18): connected ports, values of their signals, links."""
from .blocks import *
from .c02 import BASES
W0 = z3.Const('sk:entry', I)
FB = z3.ArraySort(Ref, B); RA = z3.ArraySort(I, R)
AVAL = z3.ArraySort(Ref, RA)
VT = {'double': REAL, 'int': INT, 'bool': BOOL, 'Array': ARR}
def asg(e, st=None): return e.heap_get((ASG,), FB, st)
def assigned(e, s, st=None): return select(asg(e, st), s)
def val(e, s, T, st=None):
    """value of signal s (term, or (contents, length) for arrays)"""
    v = e.get(e.obj(s, impl(T)), vkey(T), st)
    return (v.lv[('[]',)], v.lv[('#len',)]) if T == 'Array' else v
def valued(e, a, T):
    a = e.read(a) if isinstance(a, Loc) else a
    if T == 'Array':
        if isinstance(a, (Expr2, MapView)): a = e.force(e.to_expr(a))
        return a.lv[('[]',)], a.lv[('#len',)]
    return a
def at(v, T, i=None):
    """the number compared: the value itself, or the skolem element of an array"""
    return select(v[0], W0 if i is None else i) if T == 'Array' else v
def same(x, y, T):
    """equal values; arrays elementwise at the skolem index"""
    if T != 'Array': return x == y
    return z3.And(x[1] == y[1], z3.Implies(z3.And(W0 >= 0, W0 < x[1]), select(x[0], W0) == select(y[0], W0)))
def inr(n, T): return z3.And(W0 >= 0, W0 < n) if T == 'Array' else z3.BoolVal(True)
def port(e, b, q, T):
    """the signal of port field q, with the invariants of handles (C02) and of array signals (C01, C02)"""
    Bs, IM, H = BASES[T]
    v = e.get(b, q); r = v.lv[(PTR,)]
    e.assume(z3.And(r != null, v.lv[(Bs + '::_typed_ptr',)] == r, e.isa(r, IM), aid(r) <= e.st.alloc)); e.type_fact(r, IM)
    if T == 'Array': e.assume(arr_inv(e, r)); e.assume(val(e, r, T)[1] >= 0)
    return r
def size(e, s, st=None): return select(e.heap_get((ASZ,), z3.ArraySort(Ref, I), st), s)
def SOUT(T, base='Leaf'): return 'pooya::SingleOutputT<%s,%s>::_s_out' % (T, base)
def SIN(T): return 'pooya::SingleInputT<%s>::_s_in' % T
def SIO(T): return 'SingleInputT<%s>' % T
def assigns(e, s, T, pre, what, frame=(), free=()):
    """exactly signal s was assigned (its value is for the caller to compare)"""
    e.prove('%s: the output is assigned' % what, assigned(e, s))
    frame_obj(e, what, [s], pre, [(ASG,), *SIGV[T]], list(frame) + list(free))
SIGV = {T: [k for k, _ in SIG_STATE if k[0] == vkey(T)] for T in VT}
def obj_frame(e, what, objs, pre, keys): frame_obj(e, what, objs, pre, keys)
def k_find(e, this, args, node):
    """contract of Block::find_linked_signal, proved in C05"""
    b, s = e.addr(this), e.addr(args[0])
    l = e.fld(e.obj(b, BK), LS)
    if e.choose(linked(e, b, s)): return LocPtr(Loc(l.root, l.steps + (('i', pos(e, b, s)),), l.ty.a[0]))
    return null
FIND = {BK + '::find_linked_signal': k_find}
CONNS = {**FULLN, **LK, **AT, **CONN, **FIND}
def buses(e, b):
    """arbitrary buses to connect block b with"""
    ib, bi = handle(e, 'ib'); ob, bo = handle(e, 'ob')
    e.assume(z3.And(e.isa(bi, BI), e.isa(bo, BI), link_inv(e, b.root[1])))
    return ib, bi, ob, bo
def denotes_(e, b, q, T, s, what):
    h = e.get(b, q)
    e.prove(what, z3.And(h.lv[(PTR,)] == s, h.lv[(BASES[T][0] + '::_typed_ptr',)] == s))
def construct(e, cls, args, n=None):
    """run the constructor of cls; -> object, outcome"""
    o = e.new(cls); nm = cls.split('::')[-1].split('<')[0]
    k, _ = e.call(cls + '::' + nm, o, args, nparams=n)
    return o, k
def ports_are(e, o, ni, no):
    e.prove('number of input ports', e.get(o, BK + '::_num_iports') == ni); e.prove('number of output ports', e.get(o, BK + '::_num_oports') == no)
NOLIM = 65535
def arg(e, name, T): return e.sym(name, VT[T]) if T != 'Array' else e.new_local(e.sym(name, ARR), ARR)
def hook(e, cls, name, b, args):
    """call the final overrider of a method in class cls"""
    m = e.ast.find_method(e.ast.recs[cls], name, len(args))
    if m is None: raise Unsupported('%s of %s' % (name, cls))
    try: return 'ret', e.call_fn(m, b, args)
    except ThrowEx as x: return 'throw', x
def no_steps(pid, cls, which=('pre_step', 'post_step')):
    """the step hooks of the class leave everything as it is"""
    for nm in which:
        def steps(e, nm=nm):
            b = e.this(cls, exact=True); pre = e.snap()
            k, _ = hook(e, cls, nm, b, [e.sym('t', REAL)])
            must_return(e, k)
            if k == 'ret': frame_obj(e, nm, [b.root[1]], pre, []); e.cover('ret')
        target(pid, '%s::%s' % (cls[7:], nm), covers=('ret',))(steps)
