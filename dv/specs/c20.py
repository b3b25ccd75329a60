"""C20: the CSV export is a faithful rectangular image of the history."""
from .c19 import *
from .c04 import EM, NM
from ..lib import GH
HW, CW = z3.Const('gh:title tokens', RI), z3.Const('gh:columns', RI)
ROWW = z3.Const('gh:row tokens', I)
P0, R0, C0 = z3.Const('sk:record', I), z3.Const('sk:row', I), z3.Const('sk:column', I)
def rec_fn(name):
    f, f1 = z3.Function(name, RI, IR, I, I), z3.Function(name + '1', RI, IR, I, I)
    return f, f1
upto, upto1 = rec_fn('upto')
rowpos, rowpos1 = z3.Function('rowpos', I, I, I), z3.Function('rowpos1', I, I, I)
def sums20(e):
    w, a, n = z3.Const('q:w', RI), z3.Const('q:a', IR), z3.Const('q:n', I); k = z3.Const('q:k', I)
    return [z3.ForAll([w, a, n], z3.And(upto(w, a, n) == upto1(w, a, n), upto(w, a, n) == z3.If(n <= 0, 0, upto1(w, a, n - 1) + z3.Select(w, z3.Select(a, n - 1)))), patterns=[upto(w, a, n)]),
            z3.ForAll([k, n], z3.And(rowpos(k, n) == rowpos1(k, n), rowpos(k, n) == z3.If(n <= 0, 0, rowpos1(k, n - 1) + k)), patterns=[rowpos(k, n)])]
def toks(e, st=None):
    v = lambda k, s: select(e.heap_get(('ghost::out',) + k, z3.ArraySort(Ref, s), st), GH)
    return v(('[]', 'first'), z3.ArraySort(I, Str)), v(('[]', 'second'), RA), v(('#len',), I)
def text(e, i, t, st=None): return select(toks(e, st)[0], i) == (str_lit(t) if isinstance(t, str) else t)
def number(e, i, x, st=None): return z3.And(text(e, i, '\0num', st), select(toks(e, st)[1], i) == x)
def name_of(e, x): return select(e.heap_get((NAME, NM), z3.ArraySort(Ref, Str)), x)
def title(e, at, x, j):
    """the tokens of the title of column j of signal x start at `at`"""
    n = name_of(e, x)
    return z3.If(arr(e, x), z3.And(text(e, at, ','), text(e, at + 1, n), text(e, at + 2, '['), text(e, at + 3, str_int(j)), text(e, at + 4, ']')), z3.And(text(e, at, ','), text(e, at + 1, n)))
def entry(e, h, at, x, r, j):
    return z3.And(text(e, at, ','), number(e, at + 1, select(select(select(h.at, x), r), j)))
def order(e, ptr=None):
    vs = list(e.st.enum.values())
    return vs[0] if len(vs) == 1 else None
def hints(L):
    e = L.eng; out = []; st = L.pre; b = Loc(('H', z3.Const('this', Ref)), (), rec(HI)); h = Recs(e, b); N, N0 = toks(e)[2], toks(e, st)[2]
    o = order(e)
    if o is None: return out
    en, pos = o; x = z3.Select(en, P0); W = z3.Select(CW, x); col = z3.And(C0 >= 0, C0 < W); t, tn = times(e, b)
    ints = [v for v in st.loc.values() if isinstance(v, z3.ExprRef) and v.sort() == I]
    cur = [v for v in st.loc.values() if isinstance(v, EnumPtr)]
    out.append(('the text grows', N >= N0))
    for k, (c, g, desc, info) in enumerate(L.syms):
        if info[0] == 'E':
            # one title after the other
            p = N0 + upto(HW, en, P0) + z3.If(arr(e, x), 5 * C0, 0)
            out.append(('titles so far', N == N0 + upto(HW, en, c)))
            out.append(('a title', z3.Implies(z3.And(P0 >= 0, P0 < c, col), z3.And(p >= N0, p + z3.If(arr(e, x), 5, 2) <= N, title(e, p, x, C0)))))
            out.append(('a title is written as one', z3.Implies(z3.And(P0 >= 0, P0 < c), z3.And(upto(HW, en, P0) >= 0, upto(HW, en, P0) + z3.Select(HW, x) <= upto(HW, en, c)))))
            # the values of a row
            out.append(('values so far', N == N0 + 2 * upto(CW, en, c)))
            p = N0 + 2 * (upto(CW, en, P0) + C0)
            for r in ints: out.append(('a value', z3.Implies(z3.And(P0 >= 0, P0 < c, col), z3.And(p >= N0, p + 2 <= N, entry(e, h, p, x, r, C0)))))
            out.append(('columns', upto(CW, en, c) >= 0)); out.append(('columns before', z3.Implies(z3.And(P0 >= 0, P0 < c), z3.And(upto(CW, en, P0) >= 0, upto(CW, en, P0) + W <= upto(CW, en, c)))))
        elif c.sort() == I and info[0] == 'L':
            for q in cur:
                y = select(q.enum, q.idx)
                out.append(('titles of an array', N == N0 + 5 * c)); out.append(('values of an array', N == N0 + 2 * c))
                out.append(('one title of an array', z3.Implies(z3.And(C0 >= 0, C0 < c), title(e, N0 + 5 * C0, y, C0))))
                for r in ints: out.append(('one value of an array', z3.Implies(z3.And(C0 >= 0, C0 < c), entry(e, h, N0 + 2 * C0, y, r, C0))))
                out.append(('no further than its columns', c <= z3.Select(CW, y)))
            # rows
            out.append(('rows so far', N == N0 + rowpos(ROWW, c)))
            p = N0 + rowpos(ROWW, R0); n = h.size
            inr_ = z3.And(R0 >= 0, R0 < c)
            out.append(('a row', z3.Implies(inr_, z3.And(p >= N0, p + ROWW <= N, number(e, p, select(t, R0)), text(e, p + ROWW - 1, '\n')))))
            out.append(('a value of a row', z3.Implies(z3.And(inr_, P0 >= 0, P0 < n, col), z3.And(upto(CW, en, P0) >= 0, upto(CW, en, P0) + W <= upto(CW, en, n), entry(e, h, p + 1 + 2 * (upto(CW, en, P0) + C0), x, R0, C0)))))
    return out
@target('C20', 'export_csv', covers=('ret', 'empty'), hints=[hints], axioms=sums20, contracts=EM)
def export(e):
    b = history(e); arrays(e); h = Recs(e, b); bot = e.get(b, BOT); n = rowcount(bot); t, tn = times(e, b); f = e.sym('filename', STR); N0 = toks(e)[2]
    e.assume(z3.ForAll([q_x], z3.And(z3.Select(HW, q_x) == z3.If(isa_fn(BASES['Array'][1])(q_x), 5 * size(e, q_x), z3.IntVal(2)), z3.Select(CW, q_x) == z3.If(isa_fn(BASES['Array'][1])(q_x), size(e, q_x), z3.IntVal(1))), patterns=[z3.Select(HW, q_x), z3.Select(CW, q_x)]))
    sz = e.heap_get((ASZ,), RI); e.assume(z3.ForAll([q_x], z3.Implies(isa_fn(BASES['Array'][1])(q_x), z3.Select(sz, q_x) >= 0), patterns=[z3.Select(sz, q_x)]))
    en, pos, m = e.enum_begin(b.f(*e.T.std_base(e.ast.recs[HI]))); e.assume(ROWW == 2 + 2 * upto(CW, en, m))
    pre = e.snap()
    k, _ = e.call(HI + '::export_csv', b, [e.new_local(f, STR)]); must_return(e, k)
    if k != 'ret': return
    if e.choose(h.size == 0): frame_same(e, 'an empty history writes nothing', pre); e.cover('empty'); return
    e.prove('records are there', z3.BoolVal(len(e.st.enum) == 1))
    if len(e.st.enum) != 1: return
    en, pos = order(e); x = z3.Select(en, P0); m = h.size; W = z3.Select(CW, x); N = toks(e)[2]
    H = 2 + upto(HW, en, m); some = z3.And(P0 >= 0, P0 < m); col = z3.And(C0 >= 0, C0 < W); row = z3.And(R0 >= 0, R0 < n)
    e.prove('into the file', select(e.heap_get(('ghost::file',), z3.ArraySort(Ref, Str)), GH) == f)
    e.prove('every record has its place', z3.Implies(select(h.has, X0), z3.And(select(pos, X0) >= 0, select(pos, X0) < m, select(en, select(pos, X0)) == X0)))
    e.prove('the header starts with the time', text(e, z3.IntVal(0), 'time'))
    e.prove('a title for every column', z3.Implies(z3.And(some, col), title(e, 1 + upto(HW, en, P0) + z3.If(arr(e, x), 5 * C0, 0), x, C0)))
    e.prove('the header ends the line', text(e, H - 1, '\n'))
    e.prove('a line for every row, and nothing else', N == H + rowpos(ROWW, n))
    p = H + rowpos(ROWW, R0)
    e.prove('a line starts with its time', z3.Implies(row, number(e, p, select(t, R0))))
    e.prove('and has the value of every column', z3.Implies(z3.And(row, some, col), entry(e, h, p + 1 + 2 * (upto(CW, en, P0) + C0), x, R0, C0)))
    e.prove('and ends', z3.Implies(row, text(e, p + ROWW - 1, '\n')))
    e.cover('ret')
