"""C12: Euler, RK4 and RKF45 compute their textbook formulas."""
from fractions import Fraction as Q
from .common import *
W0 = z3.Const('sk:entry', I); RA = z3.ArraySort(I, R)
T0, T2 = z3.Const('arg:t0', R), z3.Const('arg:t1', R); H = T2 - T0
CB = z3.Const('arg:callback', Fn)
F = [z3.Const('deriv:%d' % i, RA) for i in range(8)]          # what the i-th evaluation of the derivative returns
# Butcher tableaus: nodes, rows, weights (textbook: Euler; Kutta 1901; Fehlberg 1969, formula 4(5))
f = lambda s: [Q(x) for x in s.split()]
TAB = {
 'Euler': (f('0'), [[]], f('1')),
 'Rk4': (f('0 1/2 1/2 1'), [[], f('1/2'), f('0 1/2'), f('0 0 1')], f('1/6 1/3 1/3 1/6')),
 'Rkf45': (f('0 1/4 3/8 12/13 1 1/2'), [[], f('1/4'), f('3/32 9/32'), f('1932/2197 -7200/2197 7296/2197'), f('439/216 -8 3680/513 -845/4104'), f('-8/27 2 -3544/2565 1859/4104 -11/40')],
           f('25/216 0 1408/2565 2197/4104 -1/5 0'))}
FIFTH = f('16/135 0 6656/12825 28561/56430 -9/50 2/55')
def q(x): return z3.RealVal('%d/%d' % (x.numerator, x.denominator))
def comb(v0, ws, i): return select(v0, i) + H * sum([q(w) * select(F[j], i) for j, w in enumerate(ws) if w != 0], z3.RealVal(0))
def content(e, a):
    v = e.read(a) if isinstance(a, Loc) else a
    if isinstance(v, (Expr2, MapView)): v = e.force(e.to_expr(v))
    return v.lv[('[]',)], v.lv[('#len',)]
def mk(name):
    nodes, rows, weights = TAB[name]; s = len(nodes)
    def k_cb(e, fn, args, node):
        x = e.st.extra; i = x['calls']
        e.prove('the given derivative function', fn == CB)
        e.prove('only %d evaluations' % s, z3.BoolVal(i < s))
        if i >= s: raise PathEnd()
        t = e.read(args[0]) if isinstance(args[0], Loc) else args[0]
        e.prove('time of stage %d' % (i + 1), t == T0 + q(nodes[i]) * H)
        a, n = content(e, args[1])
        e.prove('size of the state of stage %d' % (i + 1), n == x['n'])
        e.prove('state of stage %d' % (i + 1), z3.Implies(z3.And(W0 >= 0, W0 < n), select(a, W0) == comb(x['v0'], rows[i], W0)))
        x['calls'] = i + 1
        buf = x['buf']       # every evaluation overwrites the vector that the previous one returned
        e.write_leaf(buf, ('[]',), RA, F[i])
        return buf
    @target('C12', 'pooya::%s::step' % name, covers=('ret',), contracts={'callback': k_cb})
    def step(e):
        b = e.this('pooya::' + name)
        v0 = e.sym('v0', ARR); n = v0.lv[('#len',)]; e.assume(z3.And(n >= 1, n < 2 ** 31))
        l0, l1, buf = e.new_local(v0, ARR), e.new_local(e.sym('v1', ARR), ARR), e.new_local(e.sym('buf', ARR), ARR)
        e.assume(e.read(buf).lv[('#len',)] == n); e.assume(z3.And(T2 > T0, CB != fnnull))
        nh = e.new_local(e.sym('new_h', REAL), REAL)
        x = e.st.extra; x['calls'] = 0; x['n'] = n; x['v0'] = v0.lv[('[]',)]; x['buf'] = buf
        k, _ = e.call('pooya::%s::step' % name, b, [CB, T0, l0, T2, l1, nh])
        must_return(e, k)
        if k != 'ret': return
        x = e.st.extra
        e.prove('%d evaluations' % s, z3.BoolVal(x['calls'] == s))
        a, m = content(e, l1); given = z3.And(W0 >= 0, W0 < n)
        e.prove('size of the result', m == n)
        e.prove('the result is the combination of the stages', z3.Implies(given, select(a, W0) == comb(v0.lv[('[]',)], weights, W0)))
        a0, m0 = content(e, l0)
        e.prove('the start state is untouched', z3.And(m0 == n, z3.Implies(given, select(a0, W0) == select(v0.lv[('[]',)], W0))))
        p = e.read(nh)
        if name != 'Rkf45': e.prove('proposes the step it made', p == H)
        else:
            # the largest error of an element, and the scaled inverse error
            i = z3.Const('q:i', I)
            dl = lambda i: comb(v0.lv[('[]',)], weights, i) - comb(v0.lv[('[]',)], FIFTH, i)
            ab = lambda i: z3.If(dl(i) >= 0, dl(i), -dl(i))
            ms = e.st.extra.get('maxes', ())
            if len(ms) != 1: raise Unsupported('error estimate is not one maximum')
            mx, ex, w = ms[0]
            e.prove('the estimated error of an element is the difference of the two solutions', z3.Implies(given, ex.at(W0) == ab(W0)))
            e.prove('no element has a larger error', z3.Implies(given, ex.at(W0) <= mx)); e.prove('some element has it', z3.And(w >= 0, w < n, ex.at(w) == mx)); e.prove('the error is not negative', mx >= 0)
            s4 = (q(Q(1, 1000)) * H) / (2 * mx)
            e.prove('keeps the step without error', z3.Implies(mx == 0, p == H))
            e.prove('halves the step for a large error', z3.Implies(z3.And(mx > 0, s4 < q(Q(81, 256))), p == H / 2))
            e.prove('doubles the step for a small error', z3.Implies(z3.And(mx > 0, s4 > q(Q(81, 16))), p == 2 * H))
            e.prove('else keeps the step', z3.Implies(z3.And(mx > 0, s4 >= q(Q(81, 256)), s4 <= q(Q(81, 16))), p == H))
        e.cover('ret')
for n_ in TAB: mk(n_)

META = {'assumptions': ['the right-hand side returns a vector of the size of the state; t1 > t0']}
