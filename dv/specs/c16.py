"""C16: a delay reproduces its input history, linearly interpolated."""
from .ports import *
from .c04 import EM
# ghost: the whole history of samples (times, values, count), of which the object keeps a suffix
HT = z3.Const('gh:times', RA); HN = z3.Const('gh:count', I)
HX = {'double': z3.Const('gh:values', RA), 'Array': z3.Const('gh:values', z3.ArraySort(I, RA))}
TT = z3.Const('arg:t', R)
def dl(T): return 'pooya::DelayT<%s>' % T
def times(e, b, T, st=None):
    v = e.get(b, dl(T) + '::_t', st); return v.lv[('[]',)], v.lv[('#len',)]
def samples(e, b, T, st=None):
    v = e.get(b, dl(T) + '::_x', st)
    return (v.lv[('[]',)], None, v.lv[('#len',)]) if T != 'Array' else (v.lv[('[]', '[]')], v.lv[('[]', '#len')], v.lv[('#len',)])
def life(e, b, T, st=None): return e.get(b, dl(T) + '::_lifespan', st)
def increasing(t, n):
    i, j = z3.Consts('q:i q:j', I)
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Select(t, i) < z3.Select(t, j)), patterns=[z3.MultiPattern(z3.Select(t, i), z3.Select(t, j))])
def state(e, b, T):
    """assume the invariant: the object holds a suffix of the history; a sample was only dropped if the oldest kept one is older than the lifespan"""
    tv, n = times(e, b, T); xv, xl, nx = samples(e, b, T); i = z3.Const('q:i', I); off = HN - n; N = z3.Const('gh:size', I)
    e.assume(z3.And(n >= 0, nx == n, HN >= n, z3.Implies(HN > 0, n > 0), increasing(HT, HN)))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(tv, i) == z3.Select(HT, i + off))), patterns=[z3.Select(tv, i)]))
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(xv, i) == z3.Select(HX[T], i + off)), patterns=[z3.Select(xv, i)]))
    # the same facts for the indices of the history
    e.assume(z3.ForAll([i], z3.Implies(z3.And(i >= off, i < HN), z3.And(z3.Select(tv, i - off) == z3.Select(HT, i), z3.Select(xv, i - off) == z3.Select(HX[T], i))), patterns=[z3.Select(HT, i)]))
    if T == 'Array': e.assume(z3.And(N >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(xl, i) == N), patterns=[z3.Select(xl, i)])))
    e.assume(z3.Implies(off > 0, select(HT, off) < select(HT, HN - 1) - life(e, b, T)))
    return tv, xv, n, off
def find_hint(T, bound):
    """the samples passed by a search are older than the bound"""
    def hint(L):
        e = L.eng; out = []; j = z3.Const('q:j', I); b = Loc(('H', z3.Const('this', Ref)), (), rec(dl(T))); tv, n = times(e, b, T)
        w = bound(e, b)
        cs = [k.cur for k in L.counters] + [c for c, g, d, i in L.syms if c.sort() == I and i[0] == 'L']
        for c in cs:
            out.append(('the samples so far are older', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < c), z3.Select(tv, j) < w), patterns=[z3.Select(tv, j)])))
            out.append(('position', z3.And(c >= 0, c <= n)))
        for x in cs:
            for y in cs:
                if not x.eq(y) and x.get_id() < y.get_id(): out.append(('same position', x == y))
        if any(i[0] in ('HR', 'HM') and i[1][0] == dl(T) + '::_t' for c, g, d, i in L.syms):        # samples are dropped one by one
            xv, xl, nx = samples(e, b, T); off = HN - n; N = z3.Const('gh:size', I)
            out.append(('a suffix of the history (times)', z3.And(n >= 0, n <= HN, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(tv, j) == z3.Select(HT, j + off)), patterns=[z3.Select(tv, j)]))))
            out.append(('not all are dropped', z3.Implies(HN > 0, n > 0)))
            out.append(('as many values as times', nx == n))
            out.append(('a suffix of the history (values)', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(xv, j) == z3.Select(HX[T], j + off)), patterns=[z3.Select(xv, j)])))
            if xl is not None: out.append(('sizes of the values', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(xl, j) == N), patterns=[z3.Select(xl, j)])))
            out.append(('the oldest kept one is old enough', z3.Implies(off > 0, z3.Select(HT, off) < w)))
        return out
    return hint
def mk(T):
    cls = dl(T); IM = BASES[T][1]
    X, D, S0 = cls + '::_s_x', cls + '::_s_delay', cls + '::_s_initial'
    def ctor(e):
        w = e.sym('lifespan', REAL)
        o, k = construct(e, cls, [w, null, e.sym('name', STR)], 3); must_return(e, k)
        if k != 'ret': return
        e.prove('has the given lifespan', life(e, o, T) == w); e.prove('no samples yet', z3.And(times(e, o, T)[1] == 0, samples(e, o, T)[2] == 0)); ports_are(e, o, 3, 1); e.cover('ret')
    target('C16', cls[7:] + ' constructor', covers=('ret',), contracts=EM)(ctor)
    def connect(e):
        b = e.this(cls, exact=True); r = b.root[1]; ib, bi, ob, bo = buses(e, b)
        e.assume(z3.And(e.get(b, BK + '::_num_iports') == 3, e.get(b, BK + '::_num_oports') == 1))
        y = bsig(e, bo, z3.IntVal(0)); e.type_fact(y, SI); ins = {}; fine = z3.And(conn_ok(e, r, bi, bo), e.isa(y, IM))
        for l, TY in (('in', T), ('delay', 'double'), ('initial', T)):
            k = str_lit(l); ins[l] = at_fn(bi, k); e.type_fact(ins[l], SI)
            e.assume(z3.Implies(at_def(bi, k), ins[l] != null)); fine = z3.And(fine, at_def(bi, k), e.isa(ins[l], BASES[TY][1]))
        k, v = hook(e, cls, 'connect', b, [ib, ob])
        if k == 'throw': e.prove('rejected only for unsuitable buses', z3.Not(fine)); e.cover('throw'); return
        e.prove('reports success', v)
        denotes_(e, b, SOUT(T), T, y, 'the output is the signal of the output port')
        for f, l, TY in ((X, 'in', T), (D, 'delay', 'double'), (S0, 'initial', T)):
            e.prove('has an input %s' % l, at_def(bi, str_lit(l))); denotes_(e, b, f, TY, ins[l], 'the %s signal is the input of that name' % l)
        e.cover('ret')
    target('C16', cls[7:] + '::connect', covers=('ret', 'throw'), contracts=CONNS)(connect)
    def post_step(e):
        b = e.this(cls, exact=True); x = port(e, b, X, T); e.assume(assigned(e, x)); w = val(e, x, T)
        tv, xv, n, off = state(e, b, T); t = e.sym('t', REAL); N = z3.Const('gh:size', I)
        e.assume(z3.Implies(HN > 0, t > select(HT, HN - 1)))
        if T == 'Array': e.assume(w[1] == N)
        L = life(e, b, T); pre = e.snap()
        k, _ = hook(e, cls, 'post_step', b, [t]); must_return(e, k)
        if k != 'ret': return
        t2, n2 = times(e, b, T); x2, l2, nx2 = samples(e, b, T); off2 = HN + 1 - n2; i = sk('sample', I)
        e.prove('as many values as times', nx2 == n2); e.prove('at least the new sample', z3.And(n2 >= 1, off2 >= 0))
        e.prove('the new time is the last', select(t2, n2 - 1) == t)
        new = select(x2, n2 - 1)
        e.prove('the new value is the last', new == w if T != 'Array' else z3.And(select(l2, n2 - 1) == w[1], z3.Implies(inr(w[1], T), select(new, W0) == select(w[0], W0))))
        ok = z3.And(i >= 0, i < n2 - 1)
        e.prove('the kept times are the latest', z3.Implies(ok, select(t2, i) == select(HT, i + off2)))
        if T == 'Array':
            e.prove('the kept values are the latest', z3.Implies(ok, z3.And(select(l2, i) == N, z3.Implies(inr(N, T), select(select(x2, i), W0) == select(select(HX[T], i + off2), W0)))))
        else: e.prove('the kept values are the latest', z3.Implies(ok, select(x2, i) == select(HX[T], i + off2)))
        e.prove('only samples that no delay within the lifespan needs are dropped', z3.Implies(off2 > 0, select(t2, z3.IntVal(0)) < t - L))
        keys = [(cls + '::_t', '#len'), (cls + '::_t', '[]')] + ([(cls + '::_x', '#len'), (cls + '::_x', '[]')] if T != 'Array' else [(cls + '::_x', '#len'), (cls + '::_x', '[]', '[]'), (cls + '::_x', '[]', '#len')])
        frame_obj(e, 'post-step', [b.root[1]], pre, keys); e.cover('ret')
    target('C16', cls[7:] + '::post_step', covers=('ret',), contracts=FULLN, deep='hints', hints=[find_hint(T, lambda e, b: TT - life(e, b, T))])(post_step)
    def act(e):
        b = e.this(cls, exact=True); r = b.root[1]; s, x, d, s0 = port(e, b, SOUT(T), T), port(e, b, X, T), port(e, b, D, 'double'), port(e, b, S0, T)
        e.assume(z3.And(z3.Not(assigned(e, s)), assigned(e, d), assigned(e, s0)))
        tv, xv, n, off = state(e, b, T); t = e.sym('t', REAL); N = z3.Const('gh:size', I)
        v0, dv = val(e, s0, T), val(e, d, 'double'); q = t - dv
        e.assume(z3.And(z3.Implies(HN > 0, t >= select(HT, HN - 1)), dv <= life(e, b, T)))
        if T == 'Array': e.assume(z3.And(v0[1] == N, size(e, s) == N))
        pre = e.snap()
        k, _ = hook(e, cls, 'activation_function', b, [t]); must_return(e, k)
        if k != 'ret': return
        w = val(e, s, T); wn = w[1] if T == 'Array' else None; ok = inr(wn, T); m = sk('sample', I)
        hx = (lambda i: select(HX[T], i)) if T != 'Array' else (lambda i: select(select(HX[T], i), W0))
        out = at(w, T); ht = lambda i: select(HT, i)
        early = z3.Or(HN == 0, q <= ht(z3.IntVal(0))); late = z3.And(z3.Not(early), q >= ht(HN - 1))
        e.prove('the initial value up to the first sample', z3.Implies(z3.And(ok, early), out == at(v0, T)))
        e.prove('the last sample from the last sample on', z3.Implies(z3.And(ok, late), out == hx(HN - 1)))
        mid = z3.And(z3.Not(early), z3.Not(late), m >= 1, m < HN, ht(m - 1) < q, q <= ht(m))
        e.prove('in between the interpolation', z3.Implies(z3.And(ok, mid), out == (hx(m) - hx(m - 1)) * (q - ht(m - 1)) / (ht(m) - ht(m - 1)) + hx(m - 1)))
        if T == 'Array': e.prove('of the same size', wn == N)
        e.prove('the output is assigned', assigned(e, s)); frame_obj(e, 'activation', [s, r], pre, [(ASG,), *SIGV[T]]); e.cover('ret')
    def q_of(e, b): return TT - val(e, e.get(b, D).lv[(PTR,)], 'double')
    target('C16', cls[7:] + '::activation_function', covers=('ret',), contracts=FULLN, deep='hints', hints=[find_hint(T, q_of)])(act)
    no_steps('C16', cls, ('pre_step',))
for T_name in ('double', 'Array'): mk(T_name)

META = {'assumptions': ['post-steps come at increasing times, activations not before the last one, the delay is at most the lifespan (outside the statement otherwise)']}
