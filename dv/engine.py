"""Forward symbolic execution of clang's AST: path splitting, contracts at calls, inductive loop cuts."""
import z3, re, time
from .cxxast import AST, Unsupported, KIND_FN
from .types import *
from .values import *
from . import solve

T_, F_ = z3.BoolVal(True), z3.BoolVal(False)
MAXSZ = 2 ** 31 - 1
fnnull = z3.Const('fn_null', Fn)
_isa = {}
def isa_fn(rec):
    if rec not in _isa: _isa[rec] = z3.Function('isa:' + rec, Ref, B)
    return _isa[rec]
bitf_ = z3.Function('bit', I, I, B)
BITS = (0, 1, 2, 3, 31)
def lit(x):
    """python int of an integer literal term, else None"""
    if isinstance(x, int): return x
    if z3.is_int_value(x): return x.as_long()
    return None
def bitf(x, k):
    v = lit(x)
    if v is not None: return z3.BoolVal(bool((v >> k) & 1))
    return bitf_(x, z3.IntVal(k))
str_cat = z3.Function('str_cat', Str, Str, Str)
str_len = z3.Function('str_len', Str, I)
str_at = z3.Function('str_at', Str, I, I)
str_find = z3.Function('str_find', Str, Str, I, I)
str_sub = z3.Function('str_sub', Str, I, I, Str)
str_int = z3.Function('str_of_int', I, Str)
str_real = z3.Function('str_of_real', R, Str)
NPOS = 2 ** 64 - 1
_strlits = {}
def str_lit(s):
    if s not in _strlits: _strlits[s] = z3.Const('str:' + repr(s), Str)
    return _strlits[s]
def str_axioms():
    """facts about the string literals in use"""
    fs = []
    items = sorted(_strlits.items())
    if len(items) > 1: fs.append(z3.Distinct(*[t for _, t in items]))
    for s, t in items: fs.append(str_len(t) == len(s))
    if '' in _strlits:
        e = _strlits['']
        x = z3.Const('sx', Str)
        fs.append(z3.ForAll([x], str_cat(e, x) == x, patterns=[str_cat(e, x)]))
        fs.append(z3.ForAll([x], str_cat(x, e) == x, patterns=[str_cat(x, e)]))
        fs.append(z3.ForAll([x], (str_len(x) == 0) == (x == e), patterns=[str_len(x)]))
    x, y, w = z3.Consts('sx sy sz', Str)
    fs.append(z3.ForAll([x, y, w], str_cat(str_cat(x, y), w) == str_cat(x, str_cat(y, w)), patterns=[str_cat(str_cat(x, y), w)]))
    for s, t in items:
        if len(s) == 1: fs.append(str_at(t, 0) == ord(s))
    return fs
_cx, _cy = z3.Consts('sx sy', Str); _ci = z3.Const('si', I)
str_char = z3.Function('str_char', I, Str)
str_compare = z3.Function('str_compare', Str, Str, I)
STR_AX = [
    z3.ForAll([_cx, _cy], (str_compare(_cx, _cy) == 0) == (_cx == _cy), patterns=[str_compare(_cx, _cy)]),
    z3.ForAll([_cx, _cy], str_len(str_cat(_cx, _cy)) == str_len(_cx) + str_len(_cy), patterns=[str_len(str_cat(_cx, _cy))]),
    z3.ForAll([_cx, _cy, _ci], str_at(str_cat(_cx, _cy), _ci) == z3.If(_ci < str_len(_cx), str_at(_cx, _ci), str_at(_cy, _ci - str_len(_cx))), patterns=[str_at(str_cat(_cx, _cy), _ci)]),
    z3.ForAll([_ci], z3.And(str_len(str_char(_ci)) == 1, str_at(str_char(_ci), 0) == _ci), patterns=[str_char(_ci)]),
]

def select(a, i):
    """array read with beta reduction and read-over-write on syntactically decidable indices"""
    while True:
        if z3.is_quantifier(a) and a.is_lambda():
            return z3.substitute_vars(a.body(), i) if a.num_vars() == 1 else z3.Select(a, i)
        if z3.is_store(a):
            b, j, v = a.children()
            if j.eq(i): return v
            if distinct_terms(j, i): a = b; continue
            if z3.is_int(i):
                d = z3.simplify(i - j)
                if z3.is_int_value(d):
                    if d.as_long() == 0: return v
                    a = b; continue
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_CONST_ARRAY:
            return a.children()[0]
        return z3.Select(a, i)
_fresh_refs = set()
def distinct_terms(a, b):
    if a.sort() == I or a.sort() == R:
        return z3.is_int_value(a) and z3.is_int_value(b) and not a.eq(b)
    if a.sort() == Ref and z3.is_const(a) and z3.is_const(b) and not a.eq(b):
        na, nb = a.decl().name(), b.decl().name()
        # a freshly allocated object differs from every other named object
        return (na.startswith('new!') and (nb.startswith('new!') or nb in ('this', 'null') or nb.startswith('arg:'))) or \
               (nb.startswith('new!') and (na in ('this', 'null') or na.startswith('arg:')))
    return False
def store(a, i, v):
    if z3.is_store(a):
        b, j, _ = a.children()
        if j.eq(i): a = b
    return z3.Store(a, i, v)
def lam(sort, body):
    """lambda array from a python function"""
    v = z3.FreshConst(sort, 'lv')
    return z3.Lambda([v], body(v))

class State:
    def __init__(self):
        self.heap = {}; self.loc = {}; self.lty = {}; self.pc = []; self.ghost = {}; self.optr = {}; self.n = 0; self.alloc = 0
        self.facts = set(); self.closures = {}; self.enum = {}; self.loops = 0; self.log = None; self.extra = {}
    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap); s.loc = dict(self.loc); s.lty = self.lty; s.pc = list(self.pc); s.ghost = dict(self.ghost)
        s.optr = dict(self.optr); s.n = self.n; s.alloc = self.alloc; s.facts = set(self.facts); s.closures = dict(self.closures)
        s.enum = dict(self.enum); s.loops = self.loops; s.log = self.log; s.extra = dict(self.extra)
        return s

class Frame:
    def __init__(self, fn, this, env): self.fn = fn; self.this = this; self.env = env; self.static_this = None

class Obl:
    def __init__(self, name, pc, goal, where, kind='post'):
        self.name = name; self.pc = pc; self.goal = goal; self.where = where; self.kind = kind
        self.status = None; self.backend = None; self.secs = 0; self.info = None; self.path = ''; self.loops = False; self.fn = ''

class Outcome:
    """one complete path of a function"""
    def __init__(self, kind, value, st): self.kind = kind; self.value = value; self.st = st

class Engine:
    def __init__(self, ast):
        self.ast = ast
        self.T = Types(ast)
        self.contracts = {}
        self.hints = []
        self.reset()
        self.max_depth = 60
        self.handle_inv = True
        self.used_fns = set()       # functions executed (extracted and verified as part of something)
        self.used_contracts = set()
        self.trusted = set()        # library models used
        self.axioms = []
        self.max_paths = 4000
        self.deadline = None

    def reset(self):
        self.st = State(); self.frames = []; self.decisions = []; self.pos = 0; self.pending = None
        self.ctx = (); self.loop_cache = {}; self.obls = []; self.obl_seen = set(); self.quiet = 0; self.this_rec = None
        self.pre = None; self.hints = []; self.houdini_log = []; self.exact = {}; self.loop_reports = []; self.path_has_loop = False
        self.axioms = []

    # fresh symbols, facts ------------------------------------------------------------------------
    def fresh(self, base, sort):
        self.st.n += 1
        return z3.Const('%s!%d' % (base, self.st.n), sort)
    def assume(self, f):
        if z3.is_true(f): return
        k = f.get_id()
        self.st.pc.append(f)
    def fact(self, f):
        """add a universally valid fact once per path"""
        if f.get_id() in self.st.facts: return
        self.st.facts.add(f.get_id()); self.st.pc.append(f)
        self._keep = getattr(self, '_keep', []); self._keep.append(f)
    def range_fact(self, t, ty, lp=()):
        if not z3.is_expr(t) or isinstance(t.sort(), z3.ArraySortRef): return
        if z3.is_int_value(t): return
        if has_bound_var(t): return
        if lp and lp[-1] in ('#len', '#size', '#rows', '#cols'):
            self.fact(z3.And(t >= 0, t <= MAXSZ)); return
        if ty is not None and ty.k == 'int':
            if ty.signed: self.fact(z3.And(t >= -2 ** (ty.bits - 1), t < 2 ** (ty.bits - 1)))
            else: self.fact(z3.And(t >= 0, t < 2 ** ty.bits))

    # isa ---------------------------------------------------------------------------------------
    KINDS = ['pooya::ScalarSignalImpl', 'pooya::IntSignalImpl', 'pooya::BoolSignalImpl', 'pooya::ArraySignalImpl', 'pooya::BusImpl']
    def isa(self, r, rec):
        """type predicate; adds the hierarchy facts for r"""
        if z3.is_const(r) and r.decl().name() in self.exact:
            return z3.BoolVal(self.ast.subclass(self.exact[r.decl().name()], rec))
        self.isa_facts(r, rec)
        return isa_fn(rec)(r)
    def isa_facts(self, r, rec):
        if has_bound_var(r): return
        key = ('isa', r.get_id(), self._family(rec))
        if key in self.st.facts: return
        self.st.facts.add(key); self._keep = getattr(self, '_keep', []); self._keep.append(r)
        fs = self.isa_axioms_for(r, self._family(rec))
        if fs: self.st.pc.append(z3.And(*fs))
    def _family(self, rec):
        m = self.ast.mro(self.ast.recs[rec])
        return m[-1].name if m[-1].name != 'pooya::NamedObject' else (m[-2].name if len(m) > 1 else rec)
    def isa_axioms_for(self, r, fam):
        fs = []
        if fam == 'pooya::SignalImpl':
            fl = []
            for q, rc in self.ast.recs.items():
                if self.ast.subclass(q, 'pooya::SignalImpl'): fl.append(q)
        else:
            fl = ['pooya::Block', 'pooya::Leaf', 'pooya::Submodel'] if fam == 'pooya::Block' else []
        for q in fl:
            for b in self.ast.recs[q].bases:
                if b.name in fl: fs.append(z3.Implies(isa_fn(q)(r), isa_fn(b.name)(r)))
        ks = [k for k in self.KINDS if k in fl]
        for i in range(len(ks)):
            for j in range(i + 1, len(ks)):
                fs.append(z3.Not(z3.And(isa_fn(ks[i])(r), isa_fn(ks[j])(r))))
        if fam == 'pooya::SignalImpl' and 'pooya::ValueSignalImpl' in fl:
            fs.append(z3.Not(z3.And(isa_fn('pooya::ValueSignalImpl')(r), isa_fn('pooya::BusImpl')(r))))
        if fam == 'pooya::Block': fs.append(z3.Not(z3.And(isa_fn('pooya::Leaf')(r), isa_fn('pooya::Submodel')(r))))
        return fs
    def isa_axioms_quant(self, fam):
        r = z3.Const('qr', Ref)
        fs = self.isa_axioms_for(r, fam)
        return [z3.ForAll([r], f) for f in fs]

    # memory ------------------------------------------------------------------------------------
    def _key(self, loc, lp):
        names = []; idx = []
        for s in loc.steps:
            if s[0] == 'f': names.append(s[1])
            elif s[0] == 'j': idx.append(s[1])          # second index of a matrix entry
            else: names.append('[]'); idx.append(s[1])
        return tuple(names) + tuple(lp), idx

    def heap_sort(self, leaf_sort, idx):
        s = leaf_sort
        for t in reversed(idx): s = z3.ArraySort(t.sort(), s)
        return z3.ArraySort(Ref, s)

    def heap_get(self, key, sort, st=None):
        st = st or self.st
        if key not in st.heap:
            return z3.Const('H:' + '/'.join(key), sort)
        return st.heap[key]

    def read_leaf(self, loc, lp, sort, ty, st=None):
        st = st or self.st
        key, idx = self._key(loc, lp)
        if loc.root[0] == 'H':
            a = self.heap_get(key, self.heap_sort(sort, idx), st)
            t = select(a, loc.root[1])
        else:
            v = st.loc.get(loc.root[1])
            if isinstance(v, SV):
                if key not in v.lv: raise Unsupported('leaf %s of %s' % (key, v.ty))
                t = v.lv[key]
            elif key == (): return v
            else: raise Unsupported('read %s of %r' % (key, v))
        for i in idx: t = select(t, i)
        if isinstance(t, z3.ExprRef):
            self.range_fact(t, ty, lp)
            if t.sort() == Ref and ty is not None and ty.rec and ty.rec in self.ast.recs and not has_bound_var(t):
                self.type_fact(t, ty.rec)
            # elements of containers of handles are complete handles
            if self.handle_inv and idx and key[-1] == 'pooya::Signal::_ptr' and t.sort() == Ref and not has_bound_var(t):
                self.handle_inv_leaf(SV(ty, {(key[-1],): t}), (key[-1],), t)
        return t

    def type_fact(self, t, rec):
        if t.eq(null): return
        fam = self._family(rec)
        if fam in ('pooya::SignalImpl', 'pooya::Block'):
            e = self.isa(t, rec)
            if not z3.is_true(e): self.fact(z3.Or(t == null, e))
        if not (z3.is_const(t) and t.decl().name().startswith('new!')):
            self.alloc_fact(t)

    def alloc_fact(self, t):
        """everything reachable is older than objects allocated later"""
        self.fact(aid(t) <= self.st.alloc)

    def read(self, loc, st=None):
        st = st or self.st
        if not isinstance(loc, Loc): return loc
        if loc.root[0] == 'L' and not loc.steps:
            v = st.loc.get(loc.root[1])
            if v is None: raise Unsupported('uninitialised local')
            return v
        if loc.ty is None: raise Unsupported('read of unknown type')
        if loc.root[0] == 'H':
            k = self._okey(loc)
            if k in st.optr: return st.optr[k]
        lvs = self.T.leaves(loc.ty)
        if len(lvs) == 1 and lvs[0][0] == ():
            t = self.read_leaf(loc, (), lvs[0][1], lvs[0][2], st)
            if isinstance(t, z3.ExprRef) and t.sort() == Fn and z3.is_const(t) and t.decl().name() in st.closures:
                return st.closures[t.decl().name()]
            if isinstance(t, z3.ExprRef) and t.sort() == Ref and z3.is_const(t) and t.decl().name().startswith('ptrelem!'):
                return self.ptr_elems[t.decl().name()]
            return t
        lv = {p: self.read_leaf(loc, p, s, t, st) for p, s, t in lvs}
        sv = SV(loc.ty, lv)
        self.handle_facts(sv, loc)
        return sv

    def handle_facts(self, sv, loc):
        if not self.handle_inv: return
        for p, t in sv.lv.items():
            if not isinstance(t, z3.ExprRef) or has_bound_var(t): continue
            if p[-1] == 'pooya::Signal::_ptr' and t.sort() == Ref:
                self.handle_inv_leaf(sv, p, t)

    def handle_inv_leaf(self, sv, p, t):
        if z3.is_const(t) and t.decl().name().startswith('new!'): return
        self.fact(t != null)
        for q, u in sv.lv.items():
            if q[:-1] == p[:-1] and q[-1].endswith('::_typed_ptr'):
                if not u.eq(t): self.fact(u == t)

    def _okey(self, loc): return (tuple(s[1] if s[0] == 'f' else str(s[1]) for s in loc.steps), str(loc.root[1]))

    def write_leaf(self, loc, lp, sort, val):
        key, idx = self._key(loc, lp)
        st = self.st
        if loc.root[0] == 'H':
            r = loc.root[1]
            a = self.heap_get(key, self.heap_sort(sort, idx))
            if idx:
                cur = select(a, r)
                val = self._nested_store(cur, idx, val)
            st.heap[key] = store(a, r, val)
            if st.log is not None: st.log.setdefault(('H', key), {'sort': a.sort(), 'refs': []})['refs'].append(r)
        else:
            uid = loc.root[1]
            v = st.loc.get(uid)
            if isinstance(v, SV):
                if idx: val = self._nested_store(v.lv[key], idx, val)
                st.loc[uid] = v.with_({key: val})
            elif key == ():
                st.loc[uid] = val
            else: raise Unsupported('write to %s of %r' % (key, v))
            if st.log is not None: st.log.setdefault(('L', uid), set()).add(key)

    def _nested_store(self, a, idx, val):
        if not idx: return val
        return store(a, idx[0], self._nested_store(select(a, idx[0]), idx[1:], val))

    def write(self, loc, val):
        """assign a value (already read) to a location"""
        if not isinstance(loc, Loc): raise Unsupported('assignment to %r' % (loc,))
        if isinstance(val, Loc): val = self.read(val)
        if loc.root[0] == 'L' and not loc.steps:
            ty = loc.ty
            if isinstance(val, Expr2): val = self.force(val)
            if isinstance(val, z3.ExprRef) and ty is not None: val = self.coerce(val, ty)
            cur = self.st.loc.get(loc.root[1])
            self.st.loc[loc.root[1]] = val
            if self.st.log is not None:
                self.st.log.setdefault(('L', loc.root[1]), set()).add(())
            return
        if isinstance(val, Expr2): val = self.force(val)
        if isinstance(val, (LocPtr, Ptr)):
            if loc.root[0] == 'H':
                self.st.optr[self._okey(loc)] = val
                if self.st.log is not None: self.st.log.setdefault(('O', self._okey(loc)), True)
                return
            raise Unsupported('pointer stored in a structured local')
        if isinstance(val, Closure):
            val = self.closure_const(val)
        if loc.root[0] == 'H' and self._okey(loc) in self.st.optr: del self.st.optr[self._okey(loc)]
        lvs = self.T.leaves(loc.ty)
        if isinstance(val, SV):
            src = val.lv
            if len(lvs) != len(src) or any(p not in src for p, _, _ in lvs):
                # slicing to a base class
                if all(p in src for p, _, _ in lvs): pass
                else: raise Unsupported('assign %s to %s' % (val.ty, loc.ty))
            for p, s, t in lvs: self.write_leaf(loc, p, s, src[p])
        elif isinstance(val, z3.ExprRef):
            if len(lvs) != 1: raise Unsupported('assign scalar %s to %s' % (val, loc.ty))
            self.write_leaf(loc, lvs[0][0], lvs[0][1], self.coerce(val, loc.ty))
        else: raise Unsupported('assign %r' % (val,))

    ptr_elems = {}
    def ptr_const(self, p):
        """a pointer to (part of) a local or member object kept as an element of a list"""
        self.st.n += 1
        k = z3.Const('ptrelem!%d' % self.st.n, Ref)
        self.ptr_elems[k.decl().name()] = p
        self.fact(k != null)
        return k

    def closure_const(self, c):
        self.st.n += 1
        k = z3.Const('closure!%d' % self.st.n, Fn)
        self.st.closures[k.decl().name()] = c
        self.fact(k != fnnull)
        return k

    def coerce(self, v, ty):
        """silent conversion between scalar sorts"""
        if ty is None or not isinstance(v, z3.ExprRef): return v
        s = v.sort()
        if ty.k == 'real' and s == I: return z3.simplify(z3.ToReal(v))
        if ty.k == 'real' and s == B: return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        if ty.k == 'int' and s == B: return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if ty.k == 'bool' and s == I: return v != 0
        if ty.k == 'bool' and s == R: return v != 0
        return v

    def new_local(self, val, ty):
        self.st.n += 1
        uid = 'v%d' % self.st.n
        self.st.loc[uid] = val
        self.st.lty[uid] = ty
        return Loc(('L', uid), (), ty)

    def alloc(self, rec):
        self.st.alloc += 1
        self.st.n += 1
        r = z3.Const('new!%d' % self.st.n, Ref)
        self.exact[r.decl().name()] = rec
        self.assume(aid(r) == self.st.alloc)
        self.assume(r != null)
        if self.st.log is not None: self.st.log.setdefault(('A',), True)
        return r

    def sym(self, name, ty, st=None):
        """symbolic value of a type (used for function arguments in specs)"""
        lvs = self.T.leaves(ty)
        if len(lvs) == 1 and lvs[0][0] == ():
            t = z3.Const('arg:' + name, lvs[0][1])
            self.range_fact(t, ty)
            if ty.k == 'ref' and ty.rec: self.type_fact(t, ty.rec)
            return t
        lv = {}
        for p, s, t in lvs:
            lv[p] = z3.Const('arg:%s/%s' % (name, '/'.join(p)), s)
            if s == I: self.range_fact(lv[p], t, p)
        sv = SV(ty, lv)
        self.handle_facts(sv, None)
        return sv

    def fresh_sv(self, base, ty):
        lvs = self.T.leaves(ty)
        if len(lvs) == 1 and lvs[0][0] == ():
            t = self.fresh(base, lvs[0][1]); self.range_fact(t, ty); return t
        lv = {}
        for p, s, t in lvs:
            lv[p] = self.fresh(base + '/' + '/'.join(p), s)
            if s == I: self.range_fact(lv[p], t, p)
        return SV(ty, lv)

    def default(self, ty):
        """value-initialised / default constructed value of a non-record type"""
        k = ty.k
        if k in ('real', 'int', 'bool'): return self.fresh_sv('uninit', ty)
        if k in ('ref', 'ptr'): return null
        if k == 'str': return str_lit('')
        if k == 'fn': return fnnull
        if k == 'vec':
            lv = {p: (z3.IntVal(0) if p == ('#len',) else self.fresh('el', s)) for p, s, t in self.T.leaves(ty)}
            return SV(ty, lv)
        if k == 'arr':
            return SV(ty, {('#len',): z3.IntVal(0), ('[]',): self.fresh('el', z3.ArraySort(I, R))})
        if k == 'mat':
            return SV(ty, {('#rows',): z3.IntVal(0), ('#cols',): z3.IntVal(0), ('[]',): self.fresh('el', z3.ArraySort(I, z3.ArraySort(I, R)))})
        if k == 'opt':
            sv = self.fresh_sv('opt', ty); return sv.with_({('#has',): F_})
        if k == 'pair':
            lv = {}
            for nm, t in (('first', ty.a[0]), ('second', ty.a[1])):
                d = self.default(t)
                if isinstance(d, SV):
                    for p, x in d.lv.items(): lv[(nm,) + p] = x
                else: lv[(nm,)] = d
            return SV(ty, lv)
        if k in ('uset', 'umap'):
            sv = self.fresh_sv('cont', ty)
            ks = self.T.sort_of_key(ty.a[0])
            return sv.with_({('#has',): z3.K(ks, F_), ('#size',): z3.IntVal(0)})
        if k == 'variant': return self.fresh_sv('var', ty)
        if k in ('opaque', 'stream', 'void'): return Opaque(k)
        if k == 'rec':
            return self.fresh_sv('uninit', ty)
        raise Unsupported('default value of %s' % ty)

    # obligations -------------------------------------------------------------------------------
    def oblige(self, name, goal, where='', kind='post'):
        if self.quiet: return
        if z3.is_true(goal): goal = T_
        kk = (name, where, self.ctx, tuple(self.decisions[:self.pos]), kind, self.st.n, goal.get_id())      # (recorded goals stay alive)
        if kk in self.obl_seen and kind != 'post': return
        self.obl_seen.add(kk)
        o = Obl(name, list(self.st.pc), goal, where, kind)
        o.path = ''.join('T' if d is True else 'F' if d is False else str(d) for d in self.decisions[:self.pos])
        o.loops = self.st.loops > 0
        self.obls.append(o)
    def safety(self, kind, goal, node):
        """obligation that must hold on every execution (bounds, null, ...); assumed afterwards"""
        g = z3.simplify(goal)
        if z3.is_true(g): return
        self.oblige('safety:' + kind, goal, self.ast.where(node) if node else '', kind='safety')
        self.assume(goal)

    # path exploration --------------------------------------------------------------------------
    choice_log = None
    def choose(self, cond):
        """split on a condition; returns a python bool and records the decision"""
        if isinstance(cond, bool): return cond
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            if self.deadline and time.time() > self.deadline: raise Unsupported('time budget exceeded')
            t = not solve.quick_unsat(self.axioms + self.st.pc + [cond])
            f = not solve.quick_unsat(self.axioms + self.st.pc + [z3.Not(cond)]) if t else True
            if t and f:
                self.pending.append(self.decisions[:self.pos] + [False])
            if not t and not solve.quick_unsat(self.axioms + self.st.pc + [z3.Not(cond)]): d = False
            elif not t: raise PathEnd()   # contradictory path condition
            else: d = True
            self.decisions.append(d)
        self.pos += 1
        self.assume(cond if d else z3.Not(cond))
        if self.choice_log is not None: self.choice_log.append(cond if d else z3.Not(cond))
        return d

    def choose_n(self, n):
        if n == 1: return 0
        if self.pos < len(self.decisions): d = self.decisions[self.pos]
        else:
            for k in range(n - 1, 0, -1): self.pending.append(self.decisions[:self.pos] + [k])
            d = 0
            self.decisions.append(d)
        self.pos += 1
        return d

    def explore(self, fn, tag=''):
        base = self.st
        save = (self.decisions, self.pos, self.pending, self.frames, self.ctx); clog = self.choice_log
        self.ctx = self.ctx + ((tag, tuple(self.decisions[:self.pos])),)
        stack = [[]]; results = []
        n = 0
        try:
            while stack:
                n += 1
                if n > self.max_paths: raise Unsupported('too many paths')
                self.decisions = stack.pop(); self.pos = 0; self.pending = stack; self.choice_log = None
                self.st = base.copy(); self.frames = list(save[3])
                try:
                    results.append((fn(), self.st))
                except PathEnd:
                    pass
        finally:
            self.decisions, self.pos, self.pending, self.frames, self.ctx = save; self.choice_log = clog
            self.st = base
        return results

    # calling functions -------------------------------------------------------------------------
    @property
    def frame(self): return self.frames[-1]

    def return_is_ref(self, fn):
        q = fn.get('type', {}).get('qualType', '')
        if '->' in q: r = q.split('->')[-1].strip()
        else: r = q[:q.index('(')].strip() if '(' in q else ''
        if r in ('auto', 'const auto', 'decltype(auto)'): return False
        return r.endswith('&')

    def call_fn(self, fn, this, args, node=None):
        """execute a function body (fn: definition node) with evaluated arguments"""
        body = self.ast.body(fn)
        if body is None:
            raise Unsupported('no body: %s' % self.ast.qname.get(fn['id'], fn.get('name')))
        if len(self.frames) > self.max_depth: raise Unsupported('call depth')
        q = self.ast.qname.get(fn['id'])
        if q: self.used_fns.add(q)
        env = {}
        params = self.ast.params(fn)
        if len(args) > len(params): raise Unsupported('argument count for %s' % q)
        fr = Frame(fn, this, env)
        self.frames.append(fr)
        try:
            self.bind(params, args, env, fn)
            if fn['kind'] == 'CXXConstructorDecl': self.run_ctor_inits(fn, this)
            try:
                self.stmt(body)
                rv = None
            except ReturnEx as r:
                rv = r.v
        finally:
            self.frames.pop()
        if rv is not None and not self.return_is_ref(fn):
            if isinstance(rv, Loc): rv = self.read(rv)
        return rv

    def bind(self, params, args, env, fn=None):
        decls = None
        for i, p in enumerate(params):
            if i < len(args) and args[i] is not None: v = args[i]
            else:
                d = self.default_arg(fn, i)
                if d is None: raise Unsupported('missing argument %d of %s' % (i, fn and fn.get('name')))
                v = self.ev(d)
            env[p['id']] = self.bind_value(p, v)

    def default_arg(self, fn, i):
        cands = [fn]
        if fn is not None:
            c = self.ast.canon.get(fn['id'])
            if c in self.ast.decl: cands.append(self.ast.decl[c])
        for c in cands:
            ps = self.ast.params(c)
            if i < len(ps):
                for x in ps[i].get('inner', []):
                    if x.get('kind', '').endswith(('Expr', 'Literal', 'Cleanups', 'Operator')): return x
        return None

    def bind_value(self, p, v):
        """bind a parameter / reference variable to a value or location"""
        ty = self.T.of_node(p)
        if self.T.is_ref_type(p):
            if isinstance(v, Loc) or type(v).__name__ == 'CharRef': return v
            if isinstance(v, (Closure, Opaque, Ptr, LocPtr, FuncRef, MapView, Expr2, PairRef, EnumPtr, MapIt)):
                if isinstance(v, Expr2): v = self.force(v); return self.new_local(v, ty)
                return self.new_local(v, ty)
            if isinstance(v, z3.ExprRef) and ty is not None and ty.k == 'rec' and v.sort() == Ref:
                return Loc(('H', v), (), ty)
            return self.new_local(v, ty)
        if isinstance(v, Loc): v = self.read(v)
        if type(v).__name__ == 'CharRef': v = v.get(self)
        if isinstance(v, Expr2): v = self.force(v)
        if isinstance(v, z3.ExprRef): v = self.coerce(v, ty)
        if isinstance(v, SV) and ty is not None and ty.k == 'rec' and v.ty.k == 'rec' and v.ty.rec != ty.rec:
            v = self.slice(v, ty)
        return self.new_local(v, ty)

    def slice(self, v, ty):
        ps = [p for p, _, _ in self.T.leaves(ty)]
        if all(p in v.lv for p in ps): return SV(ty, {p: v.lv[p] for p in ps})
        return v

    def this_ptr(self):
        t = self.frame.this
        if t is None: raise Unsupported('no this')
        return self.addr(t)

    def addr(self, loc):
        if isinstance(loc, Loc):
            if loc.root[0] == 'H' and not loc.steps: return loc.root[1]
            return LocPtr(loc)
        if isinstance(loc, PairRef): return Opaque('pairptr', loc)
        raise Unsupported('address of %r' % (loc,))

    def deref(self, p, node, ty=None):
        if isinstance(p, Loc): p = self.read(p)
        if isinstance(p, LocPtr): return p.loc
        if isinstance(p, Opaque) and p.tag == 'pairptr': return p.data
        if isinstance(p, Ptr):
            if p.cont.ty.k == 'str':
                self.safety('deref', z3.And(p.idx >= 0, p.idx < str_len(self.read(p.cont))), node)
                return self.char_ref(p.cont, p.idx)
            et = self.elem_ty(p.cont.ty)
            n = self.read_leaf(p.cont, ('#len',), I, SIZE)
            self.safety('deref', z3.And(p.idx >= 0, p.idx < n), node)
            return p.cont.i(p.idx, et)
        if isinstance(p, EnumPtr):
            self.safety('deref', z3.And(p.idx >= 0, p.idx < p.n), node)
            key = select(p.enum, p.idx)
            self.enum_facts(p, p.idx)
            if p.cont.ty.k == 'uset': return key
            return PairRef(key, p.cont.i(key, p.cont.ty.a[1]))
        if isinstance(p, MapIt):
            self.safety('deref', p.valid, node)
            return PairRef(p.key, p.cont.i(p.key, p.cont.ty.a[1]))
        if isinstance(p, z3.ExprRef) and p.sort() == Ref:
            if ty is None: raise Unsupported('deref of untyped pointer')
            if not self.known_nonnull(p): self.safety('null', p != null, node)
            return Loc(('H', p), (), ty)
        raise Unsupported('deref of %r' % (p,))

    def known_nonnull(self, p):
        return z3.is_const(p) and (p.decl().name() == 'this' or p.decl().name().startswith('new!'))

    def elem_ty(self, ty):
        if ty.k == 'vec': return ty.a[0]
        if ty.k == 'arr': return REAL
        if ty.k == 'str': return CHAR
        raise Unsupported('element of %s' % ty)

    def enum_facts(self, p, idx):
        has = self.read_leaf(p.cont, ('#has',), None, None) if p.cont.root[0] == 'L' else self.read_cont_has(p.cont)
        if not has_bound_var(idx): self.fact(z3.Implies(z3.And(idx >= 0, idx < p.n), select(has, select(p.enum, idx))))

    def read_cont_has(self, cont):
        ks = self.T.sort_of_key(cont.ty.a[0])
        return self.read_leaf(cont, ('#has',), z3.ArraySort(ks, B), None)

    # function lookup and dispatch ---------------------------------------------------------------
    def invoke(self, declid, this, args, node, virtual_ok=True, recv_exact=None):
        """call the pooya function with the given declaration id"""
        decl = self.ast.decl.get(declid)
        q = self.ast.qname.get(declid) or (decl or {}).get('name')
        d = self.ast.def_of(declid)
        fnode = d or decl
        if fnode is None: raise Unsupported('unknown callee %s' % q)
        if virtual_ok and this is not None and self.ast.is_virtual(fnode):
            dyn = self.dynamic_rec(this)
            if dyn is not None:
                m = self.ast.find_method(self.ast.recs[dyn], fnode.get('name'), len(self.ast.params(fnode)))
                if m is None: raise Unsupported('override of %s in %s' % (q, dyn))
                q = self.ast.qname.get(m['id'], q); fnode = m
            else:
                c = self.virtual_contract(fnode)
                if c is None: raise Unsupported('virtual call without contract: %s at %s' % (q, self.ast.where(node) if node else ''))
                self.used_contracts.add(c[0])
                return c[1](self, this, args, node)
        return self.invoke_resolved(fnode, q, this, args, node)

    def invoke_resolved(self, fnode, q, this, args, node):
        c = self.contracts.get(q)
        if c is not None:
            r = c(self, this, args, node)
            if r is not NotImplemented:
                self.used_contracts.add(q)
                return r
        return self.call_fn(fnode, this, args, node)

    def virtual_contract(self, fnode):
        """contract of the method itself or of the method it overrides"""
        rec = self.ast.rec_of.get(fnode['id']) or self.ast.rec_of.get(self.ast.canon.get(fnode['id']))
        nm = fnode.get('name')
        for r in self.ast.mro(rec):
            k = 'virtual ' + r.name + '::' + nm
            if k in self.contracts: return k, self.contracts[k]
        return None

    def dynamic_rec(self, this):
        """exact class of an object if known"""
        if isinstance(this, Loc):
            if this.root[0] == 'L' or this.steps:
                return this.ty.rec if this.ty is not None and this.ty.k == 'rec' else None
            r = this.root[1]
            if z3.is_const(r) and r.decl().name() in self.exact: return self.exact[r.decl().name()]
        return None

    # constructors ------------------------------------------------------------------------------
    def find_ctor(self, rec, ctor_type, args):
        cands = [c for c in rec.ctors if not c.get('_pattern')]
        ex = [c for c in cands if self.ast.sig(c) == ctor_type]
        seen = []; uniq = []
        for c in ex:
            r = self.ast.canon.get(c['id'], c['id'])
            if r not in seen: seen.append(r); uniq.append(c)
        if len(uniq) == 1: return uniq[0]
        pool = uniq or cands
        pool = [c for c in pool if len(self.ast.params(c)) >= len(args)]
        if len(pool) > 1:
            want = [strip(x) for x in split_top(ctor_type[ctor_type.index('(') + 1:ctor_type.rindex(')')])] if '(' in ctor_type else []
            sc = []
            for c in pool:
                ps = [strip(p['type'].get('desugaredQualType') or p['type']['qualType']) for p in self.ast.params(c)]
                ps2 = [strip(p['type']['qualType']) for p in self.ast.params(c)]
                wt = [repr(self.T.parse(x)) for x in want]
                if ps == want or ps2 == want or (len(ps) == len(want) and [repr(self.T.of_node(p)) for p in self.ast.params(c)] == wt): sc.append(c)
            if len({self.ast.canon.get(c['id'], c['id']) for c in sc}) >= 1: pool = sc
        ids = {self.ast.canon.get(c['id'], c['id']) for c in pool}
        if len(ids) == 1: return pool[0]
        raise Unsupported('constructor %s %s' % (rec.name, ctor_type))

    def construct(self, recname, ctor_type, args, target, node=None):
        rec = self.ast.recs[recname]
        ty = Ty('rec', rec=recname)
        c = self.find_ctor(rec, ctor_type, args)
        d = self.ast.def_of(c['id']) or c
        key = rec.name + '::' + rec.name.split('::')[-1].split('<')[0]
        hook = self.contracts.get('ctor ' + rec.name)
        if hook is not None:
            r = hook(self, target, args, node)
            if r is not NotImplemented:
                self.used_contracts.add('ctor ' + rec.name); return target
        params = self.ast.params(d)
        implicit = d.get('isImplicit') or d.get('explicitlyDefaulted')
        if implicit and len(params) == 1:
            v = args[0]
            v = self.read(v) if isinstance(v, Loc) else v
            if isinstance(v, SV) and v.ty.rec != recname: v = self.slice(v, ty)
            self.write(target, v)
            return target
        if implicit and self.ast.body(d) is None:
            self.default_init_fields(rec, target)
            return target
        self.call_fn(d, target, args, node)
        return target

    def default_init_fields(self, rec, target):
        for b in rec.bases: self.default_ctor(b, target)
        for f in rec.fields: self.default_init_field(f, target)

    def default_ctor(self, rec, target):
        cs = [c for c in rec.ctors if not c.get('_pattern')]
        for c in cs:
            d = self.ast.def_of(c['id']) or c
            ps = self.ast.params(d)
            if (len(ps) == 0 or all(self.default_arg(d, i) is not None for i in range(len(ps)))):
                if self.ast.body(d) is not None:
                    self.call_fn(d, Loc(target.root, target.steps, Ty('rec', rec=rec.name)), [])
                    return
        self.default_init_fields(rec, target)

    def default_init_field(self, f, target):
        ft = self.T.field_type(f)
        loc = target.f(self.ast.qname[f['id']], ft)
        init = [x for x in f.get('inner', []) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
        if init:
            self.init_loc(loc, init[0]); return
        if ft.k == 'rec':
            self.default_ctor(self.ast.recs[ft.rec], loc)
        else:
            v = self.default(ft)
            if ft.k == 'ref' and f['type']['qualType'].strip().endswith('*'): v = self.fresh('uninit', Ref)
            if not isinstance(v, Opaque): self.write(loc, v)

    def run_ctor_inits(self, fn, this):
        rec = self.ast.rec_of.get(fn['id']) or self.ast.rec_of.get(self.ast.canon.get(fn['id']))
        inits = [c for c in fn.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        done = set()
        for c in inits:
            e = (c.get('inner') or [None])[0]
            if 'delegatingInit' in c:
                self.init_loc(this, e); return
            if 'baseInit' in c:
                bt = c['baseInit'].get('desugaredQualType') or c['baseInit']['qualType']
                q = self.ast.rec_name(bt)
                if q is None:
                    sb = self.T.std_base(rec)
                    if sb: self.write(this.f(sb[0], sb[1]), self.default(sb[1]))
                    continue
                self.init_loc(Loc(this.root, this.steps, Ty('rec', rec=q)), e)
                done.add(q)
            elif 'anyInit' in c:
                f = self.ast.decl.get(c['anyInit']['id'])
                if f is None: raise Unsupported('field initialiser')
                if f['id'] not in self.ast.qname: raise Unsupported('field %s' % f.get('name'))
                ft = self.T.field_type(f)
                loc = this.f(self.ast.qname[f['id']], ft)
                if e is None or e.get('kind') == 'CXXDefaultInitExpr':
                    self.default_init_field(f, this)
                elif self.T.is_ref_type(f):
                    v = self.ev(e)
                    self.write(loc, self.addr(v))
                else:
                    self.init_loc(loc, e)

    def init_loc(self, loc, e):
        """initialise a location from an initialiser expression"""
        k = e.get('kind')
        while k in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr') or (k == 'ImplicitCastExpr' and e.get('castKind') == 'NoOp'):
            e = e['inner'][0]; k = e.get('kind')
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and loc.ty is not None and loc.ty.k == 'rec':
            r = self.ev_construct(e, loc)
            return
        if k == 'CXXInheritedCtorInitExpr': raise Unsupported(k)
        v = self.ev(e)
        if isinstance(v, Loc): v = self.read(v)
        if isinstance(v, Opaque):
            if loc.root[0] == 'L' and not loc.steps: self.st.loc[loc.root[1]] = v
            return
        if isinstance(v, SV) and loc.ty is not None and loc.ty.k == 'rec' and v.ty.k == 'rec' and v.ty.rec != loc.ty.rec: v = self.slice(v, loc.ty)
        if loc.ty is not None and loc.ty.k == 'variant' and not (isinstance(v, SV) and v.ty.k == 'variant'): v = self.to_variant(v, loc.ty)
        self.write(loc, v)

    # Eigen lazy values ---------------------------------------------------------------------------
    def force(self, e):
        for loc, a in getattr(e, 'deps', ()):
            b = self.read_leaf(loc, ('[]',), a.sort(), None)
            if not b.eq(a): raise Unsupported('operand of a lazy Eigen expression changed before the evaluation')
        return SV(ARR, {('#len',): e.n, ('[]',): lam(I, e.at)})

def aid(t): return _aid(t)
_aid = z3.Function('alloc_id', Ref, I)

def has_bound_var(t):
    """does the term contain de Bruijn variables or quantifier skolem placeholders"""
    seen = set(); st = [t]
    while st:
        x = st.pop()
        if z3.is_var(x): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and (x.decl().name().startswith('lv!') or x.decl().name().startswith('q:')): return True
        if z3.is_app(x): st.extend(x.children())
        elif z3.is_quantifier(x): st.append(x.body()) if False else None
    return False

def split_top(s):
    from .cxxast import split_targs
    return split_targs(s)
