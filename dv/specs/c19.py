"""C19: the history records exactly the tracked signals, row by row, without loss."""
from .ports import *
HI = 'pooya::History'; BASE = HI + '::$base'
GROW, BOT, TIME, SIGS = HI + '::_nrows_grow', HI + '::_bottom_row', HI + '::_time', HI + '::_signals'
RI = z3.ArraySort(Ref, I); IR = z3.ArraySort(I, Ref); MX = z3.ArraySort(I, RA); FBR = z3.ArraySort(Ref, B)
VSI = 'pooya::ValueSignalImpl'; NONE = 2 ** 32 - 1
WHERE = z3.Const('gh:where', RI)      # the place of every tracked signal in the list
X0, I0, J0 = z3.Const('sk:signal', Ref), z3.Const('sk:row', I), z3.Const('sk:column', I)
q_x, q_i, q_j = z3.Const('q:x', Ref), z3.Const('q:i', I), z3.Const('q:j', I)
def sigs(e, b, st=None):
    v = e.get(b, SIGS, st); return v.lv[('[]',)], v.lv[('#len',)]
def times(e, b, st=None):
    v = e.get(b, TIME, st); return v.lv[('[]',)], v.lv[('#len',)]
class Recs:
    def __init__(self, e, b, st=None):
        r = b.root[1]; g = lambda p, s: select(e.heap_get((BASE,) + p, z3.ArraySort(Ref, s), st), r)
        self.has, self.size, self.rows, self.cols, self.at = g(('#has',), FBR), g(('#size',), I), g(('[]', '#rows'), RI), g(('[]', '#cols'), RI), g(('[]', '[]'), z3.ArraySort(Ref, MX))
def tracked(A, n, x, w=None):
    w = select(WHERE, x) if w is None else w
    return z3.And(w >= 0, w < n, select(A, w) == x)
def arr(e, x): return e.isa(x, BASES['Array'][1])
def kinds(e, x): return z3.And(x != null, e.isa(x, VSI), z3.Or(*[e.isa(x, BASES[T][1]) for T in VT]))
def cols(e, x): return z3.If(arr(e, x), size(e, x), z3.IntVal(1))
def listed(e, b, n=None):
    """the tracked signals are different value signals"""
    A, m = sigs(e, b); n = m if n is None else n
    y = z3.Select(A, q_i)
    return z3.And(n >= 0, z3.ForAll([q_i], z3.Implies(z3.And(q_i >= 0, q_i < n), z3.And(kinds(e, y), aid(y) <= e.st.alloc, z3.Select(WHERE, y) == q_i)), patterns=[y]))
def inv(e, b, filled=None):
    """the invariant between calls; filled: the first update has been made"""
    A, n = sigs(e, b); h = Recs(e, b); bot = e.get(b, BOT); g = e.get(b, GROW)
    basics = [g >= 1, listed(e, b), times(e, b)[1] >= 0]
    none = [h.size == 0, h.has == z3.K(Ref, z3.BoolVal(False)), bot == NONE]
    some = [h.size >= 1, n >= 1, bot >= 0, bot < NONE, times(e, b)[1] > bot,
            z3.ForAll([q_x], z3.Select(h.has, q_x) == tracked(A, n, q_x), patterns=[z3.Select(h.has, q_x)]),
            z3.ForAll([q_x], z3.Implies(z3.Select(h.has, q_x), z3.And(z3.Select(h.rows, q_x) > bot, z3.Select(h.cols, q_x) == cols(e, q_x))), patterns=[z3.Select(h.rows, q_x)])]
    if filled is None: return z3.And(*basics, z3.Or(z3.And(*none), z3.And(*some)))
    return z3.And(*basics, *(some if filled else none))
def history(e, filled=None):
    b = e.this(HI, exact=True); e.assume(inv(e, b, filled)); return b
def arrays(e):
    """array signals have the size they were made with (C01, C02)"""
    v = e.heap_get((vkey('Array'), '#len'), RI)
    e.assume(z3.ForAll([q_x], z3.Implies(isa_fn(BASES['Array'][1])(q_x), z3.And(z3.Select(v, q_x) == select(e.heap_get((ASZ,), RI), q_x), z3.Select(v, q_x) >= 0)), patterns=[z3.Select(v, q_x)]))
def value(e, x, j, st=None):
    """what is recorded of signal x in column j"""
    s = lambda T: select(e.heap_get((vkey(T),), z3.ArraySort(Ref, {'double': R, 'int': I, 'bool': B}[T]), st), x)
    a = select(e.heap_get((vkey('Array'), '[]'), AVAL, st), x)
    v = z3.If(e.isa(x, BASES['double'][1]), s('double'), z3.If(e.isa(x, BASES['int'][1]), z3.ToReal(s('int')), z3.If(e.isa(x, BASES['bool'][1]), z3.If(s('bool'), z3.RealVal(1), z3.RealVal(0)), select(a, j))))
    return z3.If(assigned(e, x, st), v, z3.RealVal(0))

@target('C19', 'constructor', covers=('ret',))
def ctor(e):
    g = e.sym('grow', UINT); pre = e.snap(); o = e.new(HI)
    k, _ = e.call(HI + '::History', o, [g], sig='uint'); must_return(e, k)
    if k != 'ret': return
    e.prove('no signals are tracked', sigs(e, o)[1] == 0); e.prove('nothing is recorded', inv(e, o, False)); e.cover('ret')
def mk_track(un):
    def t(e):
        b = history(e); sig, x = handle(e, 'sig', 'pooya::Signal'); e.assume(x != null); e.assume(z3.Implies(e.isa(x, VSI), kinds(e, x)))
        A, n = sigs(e, b); h = Recs(e, b); p = e.sym('place', INT)
        old = z3.And(p >= 0, p < n, select(A, p) == x)
        pre = e.snap()
        k, v = e.call(HI + ('::untrack' if un else '::track'), b, [sig])
        if k == 'throw':
            e.prove('refused only after the first update', h.size > 0)
            e.cover('throw'); return
        e.prove('only before the first update', h.size == 0)
        A2, n2 = sigs(e, b); i = I0
        if not un:
            e.prove('only value signals are tracked', z3.Implies(v, e.isa(x, VSI)))
            e.prove('a tracked signal is not tracked again', z3.Implies(v, z3.Not(old)))
            e.prove('refused only if no value signal or tracked', z3.Implies(z3.Not(v), z3.Or(z3.Not(e.isa(x, VSI)), z3.Exists([q_i], z3.And(q_i >= 0, q_i < n, z3.Select(A, q_i) == x)))))
            e.prove('the signal is added', z3.If(v, z3.And(n2 == n + 1, select(A2, n) == x), n2 == n))
            e.prove('the others stay', z3.Implies(z3.And(i >= 0, i < n), select(A2, i) == select(A, i)))
        else:
            e.prove('at most one is removed', z3.And(n2 <= n, n2 >= n - 1))
            e.prove('a tracked signal is removed', z3.Implies(old, n2 == n - 1))
            e.prove('it is gone', z3.Implies(z3.And(i >= 0, i < n2), select(A2, i) != x))
            e.prove('the others stay', z3.Implies(z3.And(i >= 0, i < n, select(A, i) != x), z3.Or(z3.And(i < n2, select(A2, i) == select(A, i)), z3.And(i >= 1, select(A2, i - 1) == select(A, i)))))
            e.prove('nothing else is removed', z3.Implies(n2 < n, z3.Exists([q_i], z3.And(q_i >= 0, q_i < n, z3.Select(A, q_i) == x))))
        y = select(A2, i); j = J0
        e.prove('the tracked signals are value signals', z3.Implies(z3.And(i >= 0, i < n2), z3.And(kinds(e, y), aid(y) <= e.st.alloc)))
        e.prove('and different', z3.Implies(z3.And(i >= 0, i < j, j < n2), y != select(A2, j)))
        frame_obj(e, 'the rest of the history', [b.root[1]], pre, [(SIGS, '#len'), (SIGS, '[]')])
        e.cover('ret')
    target('C19', 'untrack' if un else 'track', covers=('ret', 'throw'))(t)
mk_track(False); mk_track(True)

def mk_update(filled):
    def hints(L):
        e = L.eng; out = []; b = Loc(('H', z3.Const('this', Ref)), (), rec(HI)); K = z3.Const('arg:k', I); st = L.pre; g = e.get(b, GROW)
        A, n = sigs(e, b); h, h0 = Recs(e, b), Recs(e, b, st); w = z3.Select(WHERE, q_x)
        for c in L.counters:
            p = c.cur
            done = tracked(A, p, q_x, w)
            out.append(('place', z3.And(p >= 0, p <= n)))
            # making the records
            out.append(('records are made in order', z3.ForAll([q_x], z3.Select(h.has, q_x) == done, patterns=[z3.Select(h.has, q_x)])))
            out.append(('counted', h.size == p))
            out.append(('records of the right shape', z3.ForAll([q_x], z3.Implies(done, z3.And(z3.Select(h.rows, q_x) == g, z3.Select(h.cols, q_x) == cols(e, q_x))), patterns=[z3.Select(h.rows, q_x)])))
            # recording
            out.append(('rows are added where needed', z3.ForAll([q_x], z3.Select(h.rows, q_x) == z3.If(z3.And(done, K >= z3.Select(h0.rows, q_x)), K + g, z3.Select(h0.rows, q_x)), patterns=[z3.Select(h.rows, q_x)])))
            m, m0 = z3.Select(z3.Select(z3.Select(h.at, q_x), q_i), q_j), z3.Select(z3.Select(z3.Select(h0.at, q_x), q_i), q_j)
            out.append(('the value is recorded', z3.ForAll([q_x, q_j], z3.Implies(z3.And(done, q_j >= 0, q_j < cols(e, q_x)), z3.Select(z3.Select(z3.Select(h.at, q_x), K), q_j) == value(e, q_x, q_j, st)), patterns=[z3.Select(z3.Select(z3.Select(h.at, q_x), K), q_j)])))
            out.append(('other rows stay', z3.ForAll([q_x, q_i, q_j], z3.Implies(z3.And(q_i >= 0, q_i < z3.Select(h0.rows, q_x), q_i != K), m == m0), patterns=[m])))
        return out
    def t(e):
        b = history(e, filled); arrays(e); K, T = e.sym('k', UINT), e.sym('t', REAL)
        A, n = sigs(e, b); h0 = Recs(e, b); bot = e.get(b, BOT); g = e.get(b, GROW); t0, tn = times(e, b)
        e.assume(K + g < 2 ** 31); e.assume(K < NONE)
        if not filled: e.assume(n >= 1)
        pre = e.snap()
        k, _ = e.call(HI + '::update', b, [K, T]); must_return(e, k)
        if k != 'ret': return
        h = Recs(e, b); x, i, j = X0, I0, J0; t1, tm = times(e, b); w = select(WHERE, x)
        e.prove('the last row', e.get(b, BOT) == (z3.If(K > bot, K, bot) if filled else K))
        e.prove('the time is recorded', z3.And(K < tm, select(t1, K) == T))
        e.prove('other times stay', z3.Implies(z3.And(i >= 0, i < tn, i != K), z3.And(i < tm, select(t1, i) == select(t0, i))))
        e.prove('exactly the tracked signals have records', select(h.has, x) == tracked(A, n, x))
        is_in = select(h.has, x)
        e.prove('a record has the row', z3.Implies(is_in, z3.And(select(h.rows, x) > K, select(h.rows, x) > e.get(b, BOT))))
        e.prove('of the size of the signal', z3.Implies(is_in, select(h.cols, x) == cols(e, x)))
        e.prove('the value of a signal is recorded', z3.Implies(z3.And(is_in, j >= 0, j < cols(e, x)), select(select(select(h.at, x), K), j) == value(e, x, j, pre)))
        if filled: e.prove('other recorded rows stay', z3.Implies(z3.And(is_in, i >= 0, i <= bot, i != K, j >= 0, j < cols(e, x)), select(select(select(h.at, x), i), j) == select(select(select(h0.at, x), i), j)))
        e.prove('there are records', h.size >= 1)
        frame_obj(e, 'update', [b.root[1]], pre, [(BASE, *p) for p in (('#has',), ('#size',), ('[]', '#rows'), ('[]', '#cols'), ('[]', '[]'))] + [(TIME, '#len'), (TIME, '[]'), (BOT,)])
        e.cover('ret')
    target('C19', 'update, ' + ('further' if filled else 'first'), covers=('ret',), hints=[hints])(t)
mk_update(False); mk_update(True)
@target('C19', 'update without tracked signals', covers=('ret',))
def update_none(e):
    b = history(e, False); e.assume(sigs(e, b)[1] == 0); pre = e.snap()
    k, _ = e.call(HI + '::update', b, [e.sym('k', UINT), e.sym('t', REAL)]); must_return(e, k)
    if k != 'ret': return
    frame_same(e, 'records nothing', pre); e.cover('ret')
def place(L, ptr):
    """position of a key in the order in which its container is traversed"""
    for s_, p in L.eng.st.enum.values():
        if s_.eq(ptr.enum): return p
def rowcount(bot): return z3.If(bot == NONE, z3.IntVal(0), bot + 1)
def shrink_hints(L):
    e = L.eng; out = []; b = Loc(('H', z3.Const('this', Ref)), (), rec(HI)); st = L.pre; h, h0 = Recs(e, b), Recs(e, b, st); bot = e.get(b, BOT); n = rowcount(bot)
    for c, g, desc, info in L.syms:
        if info[0] != 'E': continue
        P = place(L, info[2])
        if P is None: continue
        done = z3.And(z3.Select(h.has, q_x), z3.Select(P, q_x) < c)
        m, m0 = z3.Select(z3.Select(z3.Select(h.at, q_x), q_i), q_j), z3.Select(z3.Select(z3.Select(h0.at, q_x), q_i), q_j)
        out.append(('records so far are shrunk', z3.ForAll([q_x], z3.Select(h.rows, q_x) == z3.If(done, n, z3.Select(h0.rows, q_x)), patterns=[z3.Select(h.rows, q_x)])))
        out.append(('their rows stay', z3.ForAll([q_x, q_i, q_j], z3.Implies(z3.And(z3.Select(h.has, q_x), q_i >= 0, q_i < n), m == m0), patterns=[m])))
    return out
@target('C19', 'shrink_to_fit', covers=('ret',), hints=[shrink_hints])
def shrink(e):
    b = history(e); h0 = Recs(e, b); bot = e.get(b, BOT); t0, _ = times(e, b); n = rowcount(bot); e.assume(times(e, b)[1] >= n)
    pre = e.snap(); k, _ = e.call(HI + '::shrink_to_fit', b, []); must_return(e, k)
    if k != 'ret': return
    h = Recs(e, b); t1, tm = times(e, b); x, i, j = X0, I0, J0; is_in = select(h0.has, x); row = z3.And(i >= 0, i < n)
    e.prove('exactly the rows remain in the times', tm == n); e.prove('exactly the rows remain in a record', z3.Implies(is_in, select(h.rows, x) == n))
    e.prove('the times stay', z3.Implies(row, select(t1, i) == select(t0, i)))
    e.prove('the rows stay', z3.Implies(z3.And(is_in, row), select(select(select(h.at, x), i), j) == select(select(select(h0.at, x), i), j)))
    frame_obj(e, 'shrinking', [b.root[1]], pre, [(BASE, *p) for p in (('[]', '#rows'), ('[]', '[]'))] + [(TIME, '#len'), (TIME, '[]')])
    e.prove('the invariant holds', inv(e, b)); e.cover('ret')
@target('C19', 'reading', covers=('ret', 'throw'))
def reading(e):
    b = history(e); h = Recs(e, b); sig, x = handle(e, 'sig', 'pooya::Signal'); n = rowcount(e.get(b, BOT)); t, tn = times(e, b)
    pre = e.snap()
    k, v = e.call(HI + '::nrows', b, []); must_return(e, k, 'nrows'); e.prove('the number of rows is one more than the last row', v == n)
    k, v = e.call(HI + '::time', b, []); must_return(e, k, 'time'); v = e.read(v) if isinstance(v, Loc) else v
    e.prove('time gives the times', z3.And(v.lv[('#len',)] == tn, select(v.lv[('[]',)], I0) == select(t, I0)))
    k, v = e.call(HI + '::operator[]', b, [sig], sig='Signal')
    if k == 'throw': e.prove('only a signal without a record is refused', z3.Not(z3.And(e.isa(x, VSI), select(h.has, x)))); frame_same(e, 'reading', pre); e.cover('throw'); return
    e.prove('the signal has a record', z3.And(e.isa(x, VSI), select(h.has, x)))
    v = e.read(v) if isinstance(v, Loc) else v
    e.prove('its own record is given', z3.And(v.lv[('#rows',)] == select(h.rows, x), v.lv[('#cols',)] == select(h.cols, x), v.lv[('[]',)] == select(h.at, x)))
    frame_same(e, 'reading', pre); e.cover('ret')
META = {'bounded': [], 'assumptions': ['row number plus growth size below 2^31; signals are of the four value types of the library', 'the base-class interface of the history (std::unordered_map, public) is not used to change it']}
