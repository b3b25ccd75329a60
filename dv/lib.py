"""Assumed contracts of the C++ standard library and Eigen operations the code uses (part of the trusted base)."""
import z3
from .engine import *
from .cxxast import Unsupported
CharRef = None     # injected by exec

def zsimp(t): return z3.simplify(t)
def mk_min(a, b):
    s = z3.simplify(a <= b)
    if z3.is_true(s): return a
    if z3.is_false(s): return b
    return z3.If(a <= b, a, b)

GH = z3.Const('ghost', Ref)
TOKVEC = Ty('vec', (Ty('pair', (STR, REAL)),))

class Lib:
    # small helpers -----------------------------------------------------------------------------
    def use(self, name): self.trusted.add(name)

    def char_ref(self, cont, idx): return CharRef(cont, idx)

    def rv(self, v):
        return self.read(v) if isinstance(v, Loc) else v

    def vlen(self, loc): return self.read_leaf(loc, ('#len',), I, SIZE)

    def set_len(self, loc, n): self.write_leaf(loc, ('#len',), I, n)

    def iptr(self, loc, idx): return Ptr(loc, idx)

    def mk(self, loc, ty=None):
        """make sure we have a location"""
        if isinstance(loc, Loc): return loc
        if isinstance(loc, SV): return self.new_local(loc, loc.ty)
        if isinstance(loc, z3.ExprRef) and loc.sort() == Str: return self.new_local(loc, STR)
        raise Unsupported('location of %r' % (loc,))

    def convert(self, ty, v):
        """implicit/explicit conversion of an argument value to a value of type ty"""
        if ty.k == 'rec':
            if isinstance(v, z3.ExprRef): raise Unsupported('conversion to %s' % ty)
            vt = v.ty if isinstance(v, (Loc, SV)) else None
            if vt is not None and vt.k == 'rec' and self.ast.subclass(vt.rec, ty.rec):
                x = self.rv(v)
                return self.slice(x, ty) if x.ty.rec != ty.rec else x
            loc = self.new_local(self.fresh_sv('uninit', ty), ty)
            c = self.ctor_by_args(self.ast.recs[ty.rec], [v])
            self.call_ctor(c, loc, [v], ty.rec)
            return self.read(loc)
        x = self.rv(v)
        if isinstance(x, Expr2) and ty.k == 'arr': return self.force(x)
        if isinstance(x, MapView) and ty.k == 'arr': return self.force(self.view_expr(x))
        if ty.k == 'mat' and isinstance(x, SV) and x.ty.k == 'arr': return self.arr_to_mat(x)
        if ty.k == 'mat' and isinstance(x, Expr2): return self.arr_to_mat(self.force(x))
        if ty.k == 'variant' and not (isinstance(x, SV) and x.ty.k == 'variant'): return self.to_variant(x, ty)
        if ty.k == 'opt' and not (isinstance(x, SV) and x.ty.k == 'opt'):
            if isinstance(x, Opaque) and x.tag == 'nullopt': return self.default(ty)
            return self.mk_opt(ty, x)
        if ty.k == 'int' and isinstance(x, z3.ExprRef) and x.sort() == I: return x
        return self.coerce(x, ty) if isinstance(x, z3.ExprRef) else x

    def mk_opt(self, ty, x):
        lv = {('#has',): T_}
        if isinstance(x, SV):
            for p, t in x.lv.items(): lv[('val',) + p] = t
        else: lv[('val',)] = self.coerce(x, ty.a[0])
        return SV(ty, lv)

    def arr_to_mat(self, x):
        n = x.lv[('#len',)]; a = x.lv[('[]',)]
        fa = self.fresh('m', z3.ArraySort(I, z3.ArraySort(I, R)))
        return SV(MAT, {('#rows',): n, ('#cols',): z3.IntVal(1), ('[]',): lam(I, lambda i: z3.Store(select(fa, i), 0, select(a, i)))})

    def call_ctor(self, c, loc, args, recname):
        d = self.ast.def_of(c['id']) or c
        hook = self.contracts.get('ctor ' + recname)
        if hook is not None:
            r = hook(self, loc, args, None)
            if r is not NotImplemented:
                self.used_contracts.add('ctor ' + recname); return
        if self.ast.body(d) is None and (d.get('isImplicit') or d.get('explicitlyDefaulted')):
            if len(args) == 1: self.write(loc, self.rv(args[0])); return
            self.default_init_fields(self.ast.recs[recname], loc); return
        self.call_fn(d, loc, args)

    def arg_kind(self, v):
        if isinstance(v, (Loc, SV)): return v.ty
        if isinstance(v, z3.ExprRef):
            s = v.sort()
            return {R: REAL, I: INT, B: BOOL, Str: STR, Fn: FN}.get(s) or (REF if s == Ref else None)
        if isinstance(v, Closure): return FN
        if isinstance(v, Expr2): return ARR
        return None

    def ctor_by_args(self, rec, args):
        best = []
        seen = set()
        for c in rec.ctors:
            if c.get('_pattern'): continue
            cid = self.ast.canon.get(c['id'], c['id'])
            if cid in seen: continue
            d = self.ast.def_of(c['id']) or c
            ps = self.ast.params(d)
            if len(ps) < len(args): continue
            if any(self.default_arg(d, i) is None for i in range(len(args), len(ps))): continue
            sc = 0; ok = True
            for p, v in zip(ps, args):
                pt = self.T.of_node(p); vt = self.arg_kind(v)
                if pt is None:
                    ok = False; break
                if vt is None: sc += 1; continue
                if pt.k == vt.k == 'rec':
                    if pt.rec == vt.rec: sc += 3
                    elif self.ast.subclass(vt.rec, pt.rec): sc += 2
                    else: ok = False
                elif pt.k == vt.k: 
                    if pt.k in ('vec', 'pair', 'opt') and pt.a != vt.a: ok = False
                    sc += 2
                elif pt.k in ('int', 'real', 'bool') and vt.k in ('int', 'real', 'bool'): sc += 1
                elif pt.k == 'rec' and 'ValidName' in str(pt.rec) and vt.k == 'str': sc += 1
                else: ok = False
                if not ok: break
            if ok: best.append((sc, c)); seen.add(cid)
        if not best: raise Unsupported('no constructor of %s for %r' % (rec.name, args))
        m = max(b[0] for b in best)
        bs = [b[1] for b in best if b[0] == m]
        if len(bs) > 1: raise Unsupported('ambiguous constructor of %s' % rec.name)
        return bs[0]

    def make_from_args(self, et, args):
        if et.k == 'pair' and len(args) == 2:
            a = self.convert(et.a[0], args[0]); b = self.convert(et.a[1], args[1])
            return self.mk_pair(et, a, b)
        if et.k == 'rec' and len(args) != 1:
            loc = self.new_local(self.fresh_sv('uninit', et), et)
            if not args: self.default_ctor(self.ast.recs[et.rec], loc)
            else: self.call_ctor(self.ctor_by_args(self.ast.recs[et.rec], args), loc, args, et.rec)
            return self.read(loc)
        if not args: return self.default(et) if et.k not in ('real', 'int', 'bool') else self.zero(et)
        if len(args) == 1: return self.convert(et, args[0])
        raise Unsupported('construct %s from %d arguments' % (et, len(args)))

    def mk_pair(self, ty, a, b):
        lv = {}
        for nm, x, t in (('first', a, ty.a[0]), ('second', b, ty.a[1])):
            if isinstance(x, SV):
                for p, y in x.lv.items(): lv[(nm,) + p] = y
            else:
                if isinstance(x, Closure): x = self.closure_const(x)
                lv[(nm,)] = self.coerce(x, t)
        return SV(ty, lv)

    # methods -----------------------------------------------------------------------------------
    def lib_method(self, name, recv, argn, n, callee):
        if isinstance(recv, (Ptr, EnumPtr, MapIt)): raise Unsupported('iterator method %s' % name)
        if name == 'shared_from_this' and isinstance(recv, Loc) and recv.root[0] == 'H' and not recv.steps:
            self.use('std::enable_shared_from_this (signals are always owned by a shared_ptr)')
            return recv.root[1]
        if isinstance(recv, Loc):
            ty = recv.ty
            v = None
            if ty is None:
                v = self.read(recv)
                if isinstance(v, (MapView, Expr2, Opaque)): recv = v
                elif isinstance(v, SV): recv = self.new_local(v, v.ty)
                elif isinstance(v, z3.ExprRef) and v.sort() == Ref: return self.m_ref(name, v, argn, n)
                elif isinstance(v, z3.ExprRef) and v.sort() == Str: recv = self.new_local(v, STR)
                else: raise Unsupported('method %s of untyped value %r' % (name, v))
            elif recv.root[0] == 'L' and not recv.steps:
                v = self.st.loc.get(recv.root[1])
                if isinstance(v, (MapView, Expr2, Opaque, Closure)): recv = v
        if isinstance(recv, SV): recv = self.new_local(recv, recv.ty)
        if isinstance(recv, Loc) and recv.ty is not None and recv.ty.k in ('ref', 'fn') and name in ('swap', 'reset'):
            self.use('%s::%s' % ('std::shared_ptr' if recv.ty.k == 'ref' else 'std::function', name))
            if name == 'swap':
                o = self.mk(self.arg(argn[0])); a, b = self.read(recv), self.read(o)
                self.write(recv, b); self.write(o, a); return None
            self.assign(recv, self.rv(self.arg(argn[0])) if argn else null, n); return None
        if isinstance(recv, Closure):
            if name == 'operator bool': return T_
            raise Unsupported('method %s of a closure' % name)
        if isinstance(recv, (MapView, Expr2)): return self.m_eigen_expr(name, recv, argn, n)
        if isinstance(recv, Opaque):
            if recv.tag == 'stream':
                if name == 'str':
                    return self.fresh('msg', Str)
                for a in argn: self.arg(a)
                return recv
            if recv.tag in ('inserted',): raise Unsupported('method of insert result')
            raise Unsupported('method %s of %r' % (name, recv))
        if isinstance(recv, z3.ExprRef):
            if recv.sort() == Str: recv = self.new_local(recv, STR)
            elif recv.sort() == Ref: return self.m_ref(name, recv, argn, n)
            elif recv.sort() == Fn:
                if name == 'operator bool': return recv != fnnull
                raise Unsupported('function method %s' % name)
            else: raise Unsupported('method %s of %s' % (name, recv.sort()))
        if not isinstance(recv, Loc): raise Unsupported('method %s of %r' % (name, recv))
        k = recv.ty.k
        f = getattr(self, 'm_' + k, None)
        if f is None: raise Unsupported('method %s of %s' % (name, recv.ty))
        self.use('%s::%s' % ({'vec': 'std::vector', 'str': 'std::string', 'arr': 'Eigen::Array', 'mat': 'Eigen::Matrix', 'uset': 'std::unordered_set', 'umap': 'std::map', 'ref': 'std::shared_ptr', 'opt': 'std::optional', 'fn': 'std::function'}.get(k, k), name))
        return f(name, recv, argn, n)

    def m_ref(self, name, v, argn, n):
        v = self.rv(v)
        if name == 'get': return v
        if name == 'operator bool': return v != null
        if name == 'reset' : raise Unsupported('shared_ptr::reset')
        if name == 'shared_from_this': return v
        raise Unsupported('pointer method %s' % name)

    def m_fn(self, name, loc, argn, n):
        v = self.read(loc)
        if name == 'operator bool':
            return T_ if isinstance(v, Closure) else v != fnnull
        raise Unsupported('std::function::%s' % name)

    def m_ptr(self, name, loc, argn, n):
        return self.m_ref(name, self.read(loc), argn, n)

    def m_opt(self, name, loc, argn, n):
        has = self.read_leaf(loc, ('#has',), B, BOOL)
        if name in ('has_value', 'operator bool'): return has
        if name == 'value':
            if not self.choose(has): raise ThrowEx('bad_optional_access')
            return Loc(loc.root, loc.steps + (('f', 'val'),), loc.ty.a[0])
        if name == 'reset':
            self.write_leaf(loc, ('#has',), B, F_); return None
        if name == 'value_or':
            if not self.choose(has): return self.convert(loc.ty.a[0], self.rv(self.arg(argn[0])))
            return self.read(Loc(loc.root, loc.steps + (('f', 'val'),), loc.ty.a[0]))
        if name == 'emplace':
            self.write(loc, self.convert(loc.ty, self.make_from_args(loc.ty.a[0], self.args_of(argn))))
            return Loc(loc.root, loc.steps + (('f', 'val'),), loc.ty.a[0])
        raise Unsupported('optional::%s' % name)

    def m_vec(self, name, loc, argn, n):
        et = loc.ty.a[0]
        if name in ('begin', 'cbegin'): return Ptr(loc, z3.IntVal(0))
        if name in ('end', 'cend'): return Ptr(loc, self.vlen(loc))
        if name in ('size', 'capacity'): return self.vlen(loc)
        if name == 'empty': return self.vlen(loc) == 0
        if name == 'data': return Ptr(loc, z3.IntVal(0))
        if name in ('reserve', 'shrink_to_fit'):
            for a in argn: self.arg(a)
            return None
        if name == 'clear': self.set_len(loc, z3.IntVal(0)); return None
        if name in ('at', 'operator[]'):
            i = self.val(argn[0]); ln = self.vlen(loc)
            ok = z3.And(i >= 0, i < ln)
            if name == 'at':
                if not self.choose(ok): raise ThrowEx('out_of_range', self.ast.where(n))
            else: self.safety('index', ok, n)
            return loc.i(i, et)
        if name in ('front', 'back'):
            ln = self.vlen(loc)
            self.safety('nonempty', ln > 0, n)
            return loc.i(z3.IntVal(0) if name == 'front' else zsimp(ln - 1), et)
        if name in ('push_back', 'emplace_back'):
            args = self.args_of(argn)
            v = self.make_from_args(et, args)
            ln = self.vlen(loc)
            # the element array must be written through the container
            self.write(loc.i(ln, et), v)
            self.set_len(loc, zsimp(ln + 1))
            return loc.i(ln, et) if name == 'emplace_back' else None
        if name == 'pop_back':
            ln = self.vlen(loc)
            self.safety('nonempty', ln > 0, n)
            self.set_len(loc, zsimp(ln - 1)); return None
        if name == 'resize':
            args = self.args_of(argn); m = self.rv(args[0]); ln = self.vlen(loc)
            fill = self.convert(et, args[1]) if len(args) > 1 and args[1] is not None else (self.zero(et) if et.k in ('real', 'int', 'bool') else self.default(et))
            for p, s, t in self.T.leaves(et):
                a = self.read_leaf(loc, ('[]',) + p, z3.ArraySort(I, s), None)
                x = fill.lv[p] if isinstance(fill, SV) else fill
                self.write_leaf(loc, ('[]',) + p, z3.ArraySort(I, s), lam(I, lambda i: z3.If(i < ln, select(a, i), x)))
            self.set_len(loc, m); return None
        if name == 'assign':
            args = [self.rv(a) for a in self.args_of(argn)]
            if isinstance(args[0], Ptr):
                a, b = args[0], args[1]
                v = self.read(a.cont)
                for p, s, t in self.T.leaves(et):
                    src = v.lv[('[]',) + p]
                    self.write_leaf(loc, ('[]',) + p, z3.ArraySort(I, s), lam(I, lambda i: select(src, zsimp(i + a.idx))))
                self.set_len(loc, zsimp(b.idx - a.idx)); return None
            for p, s, t in self.T.leaves(et):
                x = args[1].lv[p] if isinstance(args[1], SV) else args[1]
                self.write_leaf(loc, ('[]',) + p, z3.ArraySort(I, s), z3.K(I, x))
            self.set_len(loc, args[0]); return None
        if name == 'swap':
            o = self.mk(self.arg(argn[0])); a, b = self.read(loc), self.read(o)
            self.write(loc, b); self.write(o, a); return None
        if name == 'erase':
            args = [self.rv(a) for a in self.args_of(argn)]
            ln = self.vlen(loc)
            if not isinstance(args[0], Ptr): raise Unsupported('erase argument')
            i = args[0].idx
            if len(args) == 1:
                self.safety('erase position', z3.And(i >= 0, i < ln), n)
                j = zsimp(i + 1)
            else:
                j = args[1].idx
                self.safety('erase range', z3.And(i >= 0, i <= j, j <= ln), n)
            d = zsimp(j - i)
            for p, s, t in self.T.leaves(et):
                a = self.read_leaf(loc, ('[]',) + p, z3.ArraySort(I, s), None)
                self.write_leaf(loc, ('[]',) + p, z3.ArraySort(I, s), lam(I, lambda q: z3.If(q < i, select(a, q), select(a, q + d))))
            self.set_len(loc, zsimp(ln - d))
            return Ptr(loc, i)
        if name == 'insert':
            args = [self.rv(a) for a in self.args_of(argn)]
            if len(args) == 2 and isinstance(args[0], Ptr) and not isinstance(args[1], Ptr):
                ln = self.vlen(loc); i = args[0].idx
                self.safety('insert position', z3.And(i >= 0, i <= ln), n)
                v = self.convert(et, args[1])
                for p, s, t in self.T.leaves(et):
                    a = self.read_leaf(loc, ('[]',) + p, z3.ArraySort(I, s), None)
                    x = v.lv[p] if isinstance(v, SV) else v
                    self.write_leaf(loc, ('[]',) + p, z3.ArraySort(I, s), lam(I, lambda q: z3.If(q < i, select(a, q), z3.If(q == i, x, select(a, q - 1)))))
                self.set_len(loc, zsimp(ln + 1))
                return Ptr(loc, i)
            if len(args) == 3 and isinstance(args[0], Ptr) and isinstance(args[1], Ptr) and isinstance(args[2], Ptr) and not args[1].cont.same(loc):
                ln = self.vlen(loc); i = args[0].idx; b, e = args[1], args[2]; d = zsimp(e.idx - b.idx)
                self.safety('insert position', z3.And(i >= 0, i <= ln), n)
                self.safety('inserted range', z3.And(b.idx >= 0, d >= 0, e.idx <= self.vlen(b.cont)), n)
                if b.cont.ty.k != 'vec' or b.cont.ty.a != loc.ty.a: raise Unsupported('insert of converted elements')
                src = self.read(b.cont)
                for p, s, t in self.T.leaves(et):
                    a = self.read_leaf(loc, ('[]',) + p, z3.ArraySort(I, s), None); x = src.lv[('[]',) + p]
                    self.write_leaf(loc, ('[]',) + p, z3.ArraySort(I, s), lam(I, lambda q: z3.If(q < i, select(a, q), z3.If(q < i + d, select(x, zsimp(q - i + b.idx)), select(a, q - d)))))
                self.set_len(loc, zsimp(ln + d))
                return Ptr(loc, i)
        if name == 'emplace' and len(argn) >= 1:
            args = self.args_of(argn); ln = self.vlen(loc); i = self.rv(args[0]).idx
            self.safety('insert position', z3.And(i >= 0, i <= ln), n)
            v = self.make_from_args(et, args[1:])
            for p, s, t in self.T.leaves(et):
                a = self.read_leaf(loc, ('[]',) + p, z3.ArraySort(I, s), None); x = v.lv[p] if isinstance(v, SV) else self.coerce(v, et)
                self.write_leaf(loc, ('[]',) + p, z3.ArraySort(I, s), lam(I, lambda q: z3.If(q < i, select(a, q), z3.If(q == i, x, select(a, q - 1)))))
            self.set_len(loc, zsimp(ln + 1))
            return Ptr(loc, i)
        raise Unsupported('vector::%s' % name)

    # strings
    def m_str(self, name, loc, argn, n):
        s = self.read(loc)
        if name in ('str', 'c_str', 'data', 'operator basic_string_view'): return s
        if name in ('size', 'length'):
            self.str_len_fact(s); return str_len(s)
        if name == 'empty': return s == str_lit('')
        if name == 'begin': return Ptr(loc, z3.IntVal(0))
        if name == 'end': self.str_len_fact(s); return Ptr(loc, str_len(s))
        if name == 'find':
            a = [self.rv(x) for x in self.args_of(argn)]
            pos = a[1] if len(a) > 1 and a[1] is not None else z3.IntVal(0)
            if isinstance(a[0], z3.ExprRef) and a[0].sort() == I:
                v = lit(a[0])
                if v is None: raise Unsupported('find of a character variable')
                a[0] = str_lit(chr(v))
            return self.str_find(s, a[0], pos)
        if name == 'substr':
            a = [self.rv(x) for x in self.args_of(argn)]
            pos = a[0] if a and a[0] is not None else z3.IntVal(0)
            cnt = a[1] if len(a) > 1 and a[1] is not None else z3.IntVal(NPOS)
            self.str_len_fact(s)
            if not self.choose(z3.And(pos >= 0, pos <= str_len(s))): raise ThrowEx('out_of_range', self.ast.where(n))
            return self.str_substr(s, pos, cnt)
        if name in ('operator[]', 'at', 'back', 'front'):
            self.str_len_fact(s)
            i = self.val(argn[0]) if argn else (z3.IntVal(0) if name == 'front' else str_len(s) - 1)
            ok = z3.And(i >= 0, i < str_len(s) + (1 if name == 'operator[]' else 0))
            if name == 'at':
                if not self.choose(ok): raise ThrowEx('out_of_range')
            else: self.safety('string index', ok, n)
            return CharRef(loc, i)
        if name == 'clear': self.write(loc, str_lit('')); return None
        if name in ('reserve', 'shrink_to_fit'):
            for a in argn: self.arg(a)
            return None
        if name == 'append':
            v = self.val(argn[0]); self.write(loc, str_cat(s, v)); return loc
        if name in ('push_back',):
            v = self.val(argn[0]); self.write(loc, str_cat(s, self.char_str(v))); return None
        if name == 'compare':
            a = [self.rv(x) for x in self.args_of(argn)]
            def part(x, pos, cnt):
                self.str_len_fact(x)
                if lit(pos) != 0 and not self.choose(z3.And(pos >= 0, pos <= str_len(x))): raise ThrowEx('out_of_range', self.ast.where(n))
                return self.str_substr(x, pos, z3.IntVal(NPOS) if cnt is None else cnt)
            x, v = s, a[0]
            if len(a) > 1:
                x = part(s, a[0], a[1]); v = a[2]
                if len(a) > 3 and not (isinstance(v, z3.ExprRef) and v.sort() == Str): raise Unsupported('string::compare')
                if len(a) > 3: v = part(v, a[3], a[4] if len(a) > 4 else None)
            if not (isinstance(v, z3.ExprRef) and v.sort() == Str): raise Unsupported('string::compare')
            r = str_compare(x, v)
            if not has_bound_var(r): self.fact((r == 0) == (x == v))
            return r
        if name in ('find_first_of', 'rfind', 'find_last_of'):
            a = [self.rv(x) for x in self.args_of(argn)]
            v = lit(a[0]) if isinstance(a[0], z3.ExprRef) and a[0].sort() == I else None
            if v is None:
                lits = {t.decl().name(): k for k, t in self.literals()}
                k = lits.get(a[0].decl().name()) if isinstance(a[0], z3.ExprRef) and z3.is_const(a[0]) else None
                if k is None or len(k) != 1: raise Unsupported('string::%s' % name)
                v = ord(k)
            if name == 'find_first_of': return self.str_find(s, str_lit(chr(v)), a[1] if len(a) > 1 and a[1] is not None else z3.IntVal(0))
            if len(a) > 1 and a[1] is not None and not (lit(a[1]) is not None and lit(a[1]) >= MAXSZ): raise Unsupported('string::%s from a position' % name)
            self.str_len_fact(s); r = self.fresh('rfind', I); j = z3.Const('q:f', I)
            self.fact(z3.Or(r == NPOS, z3.And(r >= 0, r < str_len(s), str_at(s, r) == v)))
            self.fact(z3.ForAll([j], z3.Implies(z3.And(j > z3.If(r == NPOS, -1, r), j < str_len(s)), str_at(s, j) != v), patterns=[str_at(s, j)]))
            return r
        if name == 'swap':
            o = self.mk(self.arg(argn[0])); b = self.read(o); self.write(loc, b); self.write(o, s); return None
        raise Unsupported('string::%s' % name)

    def char_str(self, c):
        v = lit(c)
        if v is None: return str_char(c)
        return str_lit(chr(v))

    def str_len_fact(self, s):
        if has_bound_var(s): return
        self.fact(z3.And(str_len(s) >= 0, str_len(s) <= MAXSZ))
        self.fact((str_len(s) == 0) == (s == str_lit('')))

    def str_find(self, s, pat, pos):
        r = str_find(s, pat, pos)
        self.str_len_fact(s)
        self.fact(z3.Or(r == NPOS, z3.And(r >= pos, r + str_len(pat) <= str_len(s))))
        lits = {t.decl().name(): k for k, t in __import__('dv.engine', fromlist=['x'])._strlits.items()}
        k = lits.get(pat.decl().name()) if z3.is_const(pat) else None
        if k is not None and len(k) == 1:
            ch = ord(k); j = z3.Const('q:f', I)
            self.fact(str_len(pat) == 1)
            self.fact(z3.Implies(r != NPOS, str_at(s, r) == ch))
            self.fact(z3.ForAll([j], z3.Implies(z3.And(j >= pos, j < z3.If(r == NPOS, str_len(s), r)), str_at(s, j) != ch), patterns=[str_at(s, j)]))
        return r

    def str_substr(self, s, pos, cnt):
        ln = zsimp(str_len(s) - pos)
        m = zsimp(mk_min(cnt, ln)) if lit(cnt) is None or lit(cnt) < MAXSZ else ln
        if z3.is_app_of(m, z3.Z3_OP_ITE) and not has_bound_var(m) and not has_bound_var(s):
            c = self.fresh('sublen', I); self.fact(c == m); m = c     # no ite inside patterns
        r = str_sub(s, pos, m)
        j = z3.Const('q:j', I)
        if not has_bound_var(r):
            self.fact(str_len(r) == m)
            self.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), str_at(r, j) == str_at(s, pos + j)), patterns=[str_at(r, j)]))
            self.fact(z3.Implies(z3.And(pos == 0, m == str_len(s)), r == s))
        return r

    # Eigen
    def m_arr(self, name, loc, argn, n):
        ln = self.read_leaf(loc, ('#len',), I, LONG)
        if name in ('size', 'rows'): return ln
        if name == 'cols': return z3.IntVal(1)
        if name == 'data': return Ptr(loc, z3.IntVal(0))
        if name in ('begin',): return Ptr(loc, z3.IntVal(0))
        if name in ('end',): return Ptr(loc, ln)
        if name in ('operator[]', 'operator()', 'coeff', 'coeffRef'):
            i = self.val(argn[0])
            self.safety('index', z3.And(i >= 0, i < ln), n)
            return loc.i(i, REAL)
        if name in ('resize', 'conservativeResize'):
            m = self.val(argn[0])
            self.safety('size', m >= 0, n)
            a = self.read_leaf(loc, ('[]',), z3.ArraySort(I, R), None)
            fr = self.fresh('uninit', z3.ArraySort(I, R))
            if name == 'resize':
                # resize keeps the contents when the size does not change
                new = z3.If(m == ln, a, fr)
            else: new = lam(I, lambda i: z3.If(i < ln, select(a, i), select(fr, i)))
            self.write_leaf(loc, ('[]',), z3.ArraySort(I, R), new)
            self.write_leaf(loc, ('#len',), I, m)
            return None
        if name in ('setZero',):
            self.write_leaf(loc, ('[]',), z3.ArraySort(I, R), z3.K(I, z3.RealVal(0))); return loc
        if name in ('setConstant', 'fill'):
            v = self.coerce(self.val(argn[0]), REAL)
            self.write_leaf(loc, ('[]',), z3.ArraySort(I, R), z3.K(I, v)); return loc
        if name in ('segment', 'head', 'tail', 'middleRows', 'topRows', 'bottomRows') and argn:
            a = [self.val(x) for x in argn]
            i, m = (a[0], a[1]) if name in ('segment', 'middleRows') else (z3.IntVal(0), a[0]) if name in ('head', 'topRows') else (zsimp(ln - a[0]), a[0])
            v = MapView('map', None, Ptr(loc, i), m); self.check_map(v, n); return v
        if name in ('array', 'matrix', 'derived', 'noalias'): return loc
        return self.m_eigen_expr(name, self.to_expr(self.read(loc)), argn, n)

    def m_mat(self, name, loc, argn, n):
        rows = self.read_leaf(loc, ('#rows',), I, LONG); cols = self.read_leaf(loc, ('#cols',), I, LONG)
        if name == 'rows': return rows
        if name == 'cols': return cols
        if name == 'size': return rows * cols
        if name == 'row':
            k = self.val(argn[0])
            self.safety('row', z3.And(k >= 0, k < rows), n)
            return MapView('row', loc, k, cols)
        if name == 'col':
            k = self.val(argn[0])
            self.safety('col', z3.And(k >= 0, k < cols), n)
            return MapView('col', loc, k, rows)
        if name in ('operator()', 'operator[]', 'coeff', 'coeffRef'):
            a = [self.val(x) for x in argn]
            return self.mat_at(loc, a, n)
        if name in ('conservativeResize', 'resize'):
            m = self.val(argn[0]); c2 = cols
            if len(argn) > 1:
                x = argn[1]
                t = self.T.of_node(x)
                q = x.get('type', {}).get('qualType', '')
                if 'NoChange' not in q:
                    y = self.val(x)
                    c2 = y
            self.safety('size', m >= 0, n)
            srt = z3.ArraySort(I, z3.ArraySort(I, R))
            a = self.read_leaf(loc, ('[]',), srt, None)
            fr = self.fresh('uninit', srt)
            if name == 'resize': new = z3.If(z3.And(m == rows, c2 == cols), a, fr)
            else: new = lam(I, lambda i: z3.If(i < rows, select(a, i), select(fr, i)))
            if name == 'conservativeResize' and not c2.eq(cols): raise Unsupported('conservativeResize of columns')
            self.write_leaf(loc, ('[]',), srt, new)
            self.write_leaf(loc, ('#rows',), I, m)
            if not c2.eq(cols): self.write_leaf(loc, ('#cols',), I, c2)
            return None
        if name == 'setZero':
            self.write_leaf(loc, ('[]',), z3.ArraySort(I, z3.ArraySort(I, R)), z3.K(I, z3.K(I, z3.RealVal(0)))); return loc
        raise Unsupported('Matrix::%s' % name)

    def mat_at(self, loc, a, n):
        rows = self.read_leaf(loc, ('#rows',), I, LONG); cols = self.read_leaf(loc, ('#cols',), I, LONG)
        if len(a) == 2:
            self.safety('matrix index', z3.And(a[0] >= 0, a[0] < rows, a[1] >= 0, a[1] < cols), n)
            return Loc(loc.root, loc.steps + (('i', a[0]), ('j', a[1])), REAL)
        k = a[0]
        # column-major linear index
        self.safety('matrix index', z3.And(k >= 0, z3.Or(z3.And(k < rows, cols >= 1), k < rows * cols)), n)
        if self.choose(k < rows): return Loc(loc.root, loc.steps + (('i', k), ('j', z3.IntVal(0))), REAL)
        return Loc(loc.root, loc.steps + (('i', k % rows), ('j', k / rows)), REAL)

    def view_expr(self, v):
        if isinstance(v, Expr2): return v
        if v.kind == 'map':
            p = v.a; a = self.read_leaf(p.cont, ('[]',), z3.ArraySort(I, R), None)
            off = p.idx
            return Expr2(v.b, lambda i: select(a, zsimp(i + off)), (p.cont, a))
        if v.kind == 'row':
            a = self.read_leaf(v.loc, ('[]',), z3.ArraySort(I, z3.ArraySort(I, R)), None)
            return Expr2(v.b, lambda i: select(select(a, v.a), i), (v.loc, a))
        if v.kind == 'col':
            a = self.read_leaf(v.loc, ('[]',), z3.ArraySort(I, z3.ArraySort(I, R)), None)
            return Expr2(v.b, lambda i: select(select(a, i), v.a), (v.loc, a))
        raise Unsupported('view')

    def check_map(self, v, n):
        p = v.a
        ln = self.read_leaf(p.cont, ('#len',), I, LONG)
        self.safety('map range', z3.And(p.idx >= 0, v.b >= 0, p.idx + v.b <= ln), n)

    def view_assign(self, v, val, n):
        e = self.to_expr(val); self.force(e)
        if v.kind == 'map':
            self.check_map(v, n)
            self.safety('assigned size', e.n == v.b, n)
            p = v.a
            a = self.read_leaf(p.cont, ('[]',), z3.ArraySort(I, R), None)
            new = lam(I, lambda i: z3.If(z3.And(i >= p.idx, i < p.idx + v.b), e.at(zsimp(i - p.idx)), select(a, i)))
            self.write_leaf(p.cont, ('[]',), z3.ArraySort(I, R), new)
            return
        if v.kind == 'row':
            self.safety('assigned size', e.n == v.b, n)
            loc = Loc(v.loc.root, v.loc.steps + (('i', v.a),), None)
            old = select(self.read_leaf(v.loc, ('[]',), z3.ArraySort(I, z3.ArraySort(I, R)), None), v.a)
            new = lam(I, lambda i: z3.If(z3.And(i >= 0, i < v.b), e.at(i), select(old, i)))
            self.write_leaf(loc, (), z3.ArraySort(I, R), new)
            return
        raise Unsupported('assignment to a view')

    def to_expr(self, v):
        loc = v if isinstance(v, Loc) else None
        if isinstance(v, Loc): v = self.read(v)
        if isinstance(v, Expr2): return v
        if isinstance(v, MapView): return self.view_expr(v)
        if isinstance(v, SV) and v.ty.k == 'arr':
            a = v.lv[('[]',)]
            return Expr2(v.lv[('#len',)], lambda i: select(a, i), *([(loc, a)] if loc is not None else []))
        raise Unsupported('array expression %r' % (v,))

    def m_eigen_expr(self, name, v, argn, n):
        e = self.to_expr(v) if not isinstance(v, Expr2) else v
        if name in ('size', 'rows'): return e.n
        if name == 'cols': return z3.IntVal(1)
        if name in ('cwiseAbs', 'abs'): return Expr2(e.n, lambda i: z3.If(e.at(i) >= 0, e.at(i), -e.at(i)), e)
        if name in ('array', 'matrix', 'eval', 'derived'): return e
        if name in ('square', 'abs2', 'cwiseAbs2'): return Expr2(e.n, lambda i: e.at(i) * e.at(i), e)
        if name in ('inverse', 'cwiseInverse'): return Expr2(e.n, lambda i: 1 / e.at(i), e)
        if name in ('segment', 'head', 'tail') and argn and not isinstance(v, Loc):
            a = [self.val(x) for x in argn]
            o, m = (a[0], a[1]) if name == 'segment' else (z3.IntVal(0), a[0]) if name == 'head' else (zsimp(e.n - a[0]), a[0])
            self.safety('segment', z3.And(o >= 0, m >= 0, o + m <= e.n), n)
            return Expr2(m, lambda i: e.at(zsimp(i + o)), e)
        if name in ('cwiseProduct', 'cwiseQuotient'): return self.lib_binop('*' if name == 'cwiseProduct' else '/', e, self.to_expr(self.arg(argn[0])), n)
        if name in ('setConstant', 'fill') and isinstance(v, MapView):
            c = self.coerce(self.val(argn[0]), REAL); self.view_assign(v, Expr2(v.b, lambda i: c), n); return v
        if name in ('cwiseMax', 'cwiseMin', 'max', 'min') and argn:
            o = self.rv(self.arg(argn[0]))
            oe = self.to_expr(o) if not isinstance(o, z3.ExprRef) else Expr2(e.n, lambda i: self.coerce(o, REAL))
            big = 'ax' in name
            return Expr2(e.n, lambda i: z3.If((e.at(i) >= oe.at(i)) if big else (e.at(i) <= oe.at(i)), e.at(i), oe.at(i)), e, oe)
        if name in ('maxCoeff', 'minCoeff'):
            self.safety('nonempty', e.n > 0, n)
            m = self.fresh('max', R); w = self.fresh('maxi', I)
            j = z3.Const('q:m', I)
            self.fact(z3.And(w >= 0, w < e.n, m == e.at(w)))
            fa = self.force(e).lv[('[]',)]
            g = self.fresh('mx', z3.ArraySort(I, R)); self.fact(g == fa)
            cmp = (lambda x: x <= m) if name == 'maxCoeff' else (lambda x: x >= m)
            self.fact(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < e.n), cmp(e.at(j)))))
            self.st.extra.setdefault('maxes', ())
            self.st.extra['maxes'] = self.st.extra['maxes'] + ((m, e, w),)
            return m
        if name in ('setZero',) and isinstance(v, MapView):
            self.view_assign(v, Expr2(v.b, lambda i: z3.RealVal(0)), n); return v
        if name in ('operator[]', 'operator()', 'coeff'):
            i = self.val(argn[0])
            self.safety('index', z3.And(i >= 0, i < e.n), n)
            return e.at(i)
        raise Unsupported('Eigen expression method %s' % name)

    def eig_un(self, f, v):
        e = self.to_expr(v)
        return Expr2(e.n, lambda i: f(e.at(i)), e)

    def lib_binop(self, op, x, y, n):
        lx, ly = x, y
        x, y = self.rv(x), self.rv(y)
        def is_arr(v): return isinstance(v, (Expr2, MapView)) or isinstance(v, SV) and v.ty.k == 'arr'
        if is_arr(x) or is_arr(y):
            fn = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
                  '<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}.get(op)
            if fn is None: raise Unsupported('Eigen operator %s' % op)
            self.use('Eigen elementwise ' + op)
            if is_arr(x) and is_arr(y):
                ex, ey = self.to_expr(lx), self.to_expr(ly)
                self.safety('Eigen sizes', ex.n == ey.n, n)
                return Expr2(ex.n, lambda i: fn(ex.at(i), ey.at(i)), ex, ey)
            if is_arr(x):
                ex = self.to_expr(lx); s = self.coerce(y, REAL)
                return Expr2(ex.n, lambda i: fn(ex.at(i), s), ex)
            ey = self.to_expr(ly); s = self.coerce(x, REAL)
            return Expr2(ey.n, lambda i: fn(s, ey.at(i)), ey)
        if isinstance(x, SV) and isinstance(y, SV) and x.ty.k == 'pair' and op in ('==', '!='):
            e = z3.And(*[x.lv[p] == y.lv[p] for p in x.lv])
            return e if op == '==' else z3.Not(e)
        raise Unsupported('operator %s on %r, %r' % (op, x, y))

    def ptr_binop(self, op, x, y, n):
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if not x.cont.same(y.cont):
                raise Unsupported('comparison of pointers into different containers')
            d = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
                 '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '-': lambda a, b: zsimp(a - b)}.get(op)
            if d: return d(x.idx, y.idx)
        if isinstance(x, Ptr) and isinstance(y, z3.ExprRef) and y.sort() == I:
            if op == '+': return Ptr(x.cont, zsimp(x.idx + y))
            if op == '-': return Ptr(x.cont, zsimp(x.idx - y))
        if isinstance(y, Ptr) and isinstance(x, z3.ExprRef) and x.sort() == I and op == '+': return Ptr(y.cont, zsimp(y.idx + x))
        if isinstance(x, EnumPtr) and isinstance(y, EnumPtr):
            if op == '==': return x.idx == y.idx
            if op == '!=': return x.idx != y.idx
        def mapend(p): return isinstance(p, MapIt) and z3.is_false(p.valid)
        if isinstance(x, MapIt) and isinstance(y, MapIt):
            if mapend(y): e = z3.Not(x.valid)
            elif mapend(x): e = z3.Not(y.valid)
            else: e = z3.Or(z3.And(x.valid, y.valid, x.key == y.key), z3.And(z3.Not(x.valid), z3.Not(y.valid)))
            return e if op == '==' else z3.Not(e)
        if isinstance(x, MapIt) and isinstance(y, EnumPtr) or isinstance(x, EnumPtr) and isinstance(y, MapIt):
            m, e = (x, y) if isinstance(x, MapIt) else (y, x)
            c = z3.If(m.valid, z3.And(e.idx < e.n, select(e.enum, e.idx) == m.key), e.idx == e.n)
            return c if op == '==' else z3.Not(c)
        if isinstance(x, (LocPtr, Ptr)) and isinstance(y, z3.ExprRef) and y.eq(null): return F_ if op == '==' else T_
        if isinstance(y, (LocPtr, Ptr)) and isinstance(x, z3.ExprRef) and x.eq(null): return F_ if op == '==' else T_
        if isinstance(x, LocPtr) and isinstance(y, LocPtr):
            if x.loc.same(y.loc): return T_ if op == '==' else F_
            if [s[:2] for s in x.loc.steps if s[0] == 'f'] != [s[:2] for s in y.loc.steps if s[0] == 'f']: return F_ if op == '==' else T_
        raise Unsupported('pointer operator %s on %r, %r' % (op, x, y))

    # unordered containers ----------------------------------------------------------------------
    def has_of(self, loc): return self.read_cont_has(loc)
    def enum_begin(self, loc):
        has = self.has_of(loc); size = self.read_leaf(loc, ('#size',), I, SIZE)
        ks = self.T.sort_of_key(loc.ty.a[0])
        k = (has.get_id(), size.get_id())
        if k not in self.st.enum:
            e = self.fresh('enum', z3.ArraySort(I, ks)); pos = self.fresh('pos', z3.ArraySort(ks, I))
            self._keep = getattr(self, '_keep', []); self._keep += [has, size]
            self.st.enum[k] = (e, pos)
            i = z3.Const('q:i', I); x = z3.Const('q:x' + str(ks), ks)
            self.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < size), z3.And(z3.Select(has, z3.Select(e, i)), z3.Select(pos, z3.Select(e, i)) == i)), patterns=[z3.Select(e, i)]))
            self.fact(z3.ForAll([x], z3.Implies(select(has, x), z3.And(z3.Select(pos, x) >= 0, z3.Select(pos, x) < size, z3.Select(e, z3.Select(pos, x)) == x)), patterns=[z3.Select(pos, x)] if not z3.is_const(has) else [z3.Select(has, x), z3.Select(pos, x)]))
            self.fact(z3.And(size >= 0, size <= MAXSZ))
        e, pos = self.st.enum[k]
        return e, pos, size

    def m_uset(self, name, loc, argn, n):
        has = self.has_of(loc); size = self.read_leaf(loc, ('#size',), I, SIZE)
        ks = self.T.sort_of_key(loc.ty.a[0])
        if name == 'size': return size
        if name == 'empty': return size == 0
        if name == 'begin':
            e, pos, sz = self.enum_begin(loc); return EnumPtr(loc, e, sz, z3.IntVal(0))
        if name == 'end':
            e, pos, sz = self.enum_begin(loc); return EnumPtr(loc, e, sz, sz)
        if name in ('insert', 'emplace'):
            k = self.rv(self.arg(argn[0]))
            isin = select(has, k)
            new = z3.Not(isin)
            self.write_leaf(loc, ('#has',), z3.ArraySort(ks, B), store(has, k, T_))
            s = z3.simplify(isin)
            self.write_leaf(loc, ('#size',), I, zsimp(size + 1) if z3.is_false(s) else size if z3.is_true(s) else z3.If(isin, size, size + 1))
            self.fact(z3.Implies(isin, size >= 1))
            return Opaque('inserted', (MapIt(loc, k, T_), new))
        if name in ('count', 'contains'):
            k = self.rv(self.arg(argn[0])); isin = select(has, k)
            return isin if name == 'contains' else z3.If(isin, z3.IntVal(1), z3.IntVal(0))
        if name == 'clear':
            self.write_leaf(loc, ('#has',), z3.ArraySort(ks, B), z3.K(ks, F_)); self.write_leaf(loc, ('#size',), I, z3.IntVal(0)); return None
        if name == 'find':
            k = self.rv(self.arg(argn[0])); return MapIt(loc, k, select(has, k))
        if name == 'reserve': return None
        raise Unsupported('unordered_set::%s' % name)

    def m_umap(self, name, loc, argn, n):
        has = self.has_of(loc); size = self.read_leaf(loc, ('#size',), I, SIZE)
        kt, vt = loc.ty.a
        ks = self.T.sort_of_key(kt)
        if name == 'size': return size
        if name == 'empty': return size == 0
        if name in ('begin', 'cbegin'):
            e, pos, sz = self.enum_begin(loc); return EnumPtr(loc, e, sz, z3.IntVal(0))
        if name in ('end', 'cend'): return MapIt(loc, self.key_dummy(ks), F_)
        if name == 'find':
            k = self.rv(self.arg(argn[0])); k = self.key(k)
            self.fact(z3.Implies(select(has, k), size >= 1))
            return MapIt(loc, k, select(has, k))
        if name in ('lower_bound', 'upper_bound'):
            k = self.key(self.rv(self.arg(argn[0]))); kk = self.fresh('bound', ks); ok = self.fresh('bounded', B)
            self.fact(z3.Implies(ok, select(has, kk)))
            if name == 'lower_bound': self.fact(z3.Implies(select(has, k), z3.And(ok, kk == k)))
            else: self.fact(z3.Implies(ok, kk != k))
            return MapIt(loc, kk, ok)
        if name in ('count', 'contains'):
            k = self.key(self.rv(self.arg(argn[0])))
            isin = select(has, k)
            return isin if name == 'contains' else z3.If(isin, z3.IntVal(1), z3.IntVal(0))
        if name == 'at':
            k = self.key(self.rv(self.arg(argn[0])))
            if not self.choose(select(has, k)): raise ThrowEx('out_of_range', self.ast.where(n))
            return loc.i(k, vt)
        if name in ('insert_or_assign', 'emplace', 'try_emplace', 'operator[]'):
            args = self.args_of(argn)
            k = self.key(self.rv(args[0]))
            isin = select(has, k)
            if name != 'insert_or_assign':
                if self.choose(isin):
                    return loc.i(k, vt) if name == 'operator[]' else Opaque('inserted', (MapIt(loc, k, T_), F_))
            v = self.convert(vt, args[1]) if len(args) > 1 else self.default(vt)
            self.map_put(loc, k, v)
            return loc.i(k, vt) if name == 'operator[]' else Opaque('inserted', (MapIt(loc, k, T_), z3.Not(isin)))
        if name == 'erase':
            a = self.rv(self.arg(argn[0]))
            if isinstance(a, MapIt):
                self.safety('erase', a.valid, n)
                k = a.key
            elif isinstance(a, EnumPtr): raise Unsupported('erase while iterating')
            else: k = self.key(a)
            isin = select(has, k)
            self.fact(z3.Implies(isin, size >= 1))
            self.write_leaf(loc, ('#has',), z3.ArraySort(ks, B), store(has, k, F_))
            self.write_leaf(loc, ('#size',), I, z3.If(isin, size - 1, size))
            return Opaque('erased')
        if name == 'clear':
            self.write_leaf(loc, ('#has',), z3.ArraySort(ks, B), z3.K(ks, F_)); self.write_leaf(loc, ('#size',), I, z3.IntVal(0)); return None
        raise Unsupported('map::%s' % name)

    def map_put(self, loc, k, v):
        has = self.has_of(loc); size = self.read_leaf(loc, ('#size',), I, SIZE)
        ks = self.T.sort_of_key(loc.ty.a[0])
        isin = select(has, k)
        self.write(loc.i(k, loc.ty.a[1]), v)
        self.write_leaf(loc, ('#has',), z3.ArraySort(ks, B), store(has, k, T_))
        s = z3.simplify(isin)
        self.write_leaf(loc, ('#size',), I, zsimp(size + 1) if z3.is_false(s) else size if z3.is_true(s) else z3.If(isin, size, size + 1))
        self.fact(z3.Implies(isin, size >= 1))

    def key(self, v):
        if isinstance(v, z3.ExprRef): return v
        raise Unsupported('map key %r' % (v,))
    def key_dummy(self, ks): return z3.Const('nokey', ks)
    def enum_end(self, loc):
        e, pos, sz = self.enum_begin(loc); return EnumPtr(loc, e, sz, sz)
    # operators ---------------------------------------------------------------------------------
    def lib_operator(self, name, vals, n):
        op = name[len('operator'):]
        a = vals[0]
        if op == '=':
            loc, v = vals
            if isinstance(loc, Loc) and loc.root[0] == 'L' and not loc.steps:
                cur = self.st.loc.get(loc.root[1])
                if isinstance(cur, MapView): loc = cur
            if isinstance(loc, (MapView, CharRef)): return self.assign(loc, self.rv(v) if not isinstance(v, (Expr2, MapView)) else v, n)
            if isinstance(loc, Loc):
                ty = loc.ty
                if isinstance(v, CharRef): v = v.get(self)
                v = self.rv(v)
                if isinstance(v, MapView) and ty is not None and ty.k == 'arr': v = self.force(self.view_expr(v))
                if isinstance(v, Expr2): v = self.force(v)
                if ty is not None and ty.k in ('mat', 'variant', 'opt'): v = self.convert(ty, v)
                if ty is not None and ty.k == 'vec' and isinstance(v, SV) and v.ty.k != 'vec': raise Unsupported('vector assignment')
                if ty is not None and ty.k == 'rec' and isinstance(v, SV): v = self.slice(v, ty)
                if isinstance(v, SV) and v.ty.k == 'arr':
                    # Eigen resizes on assignment
                    pass
                if isinstance(v, (Ptr, EnumPtr, MapIt)): self.set_local(loc, v); return loc
                self.write(loc, v)
                return loc
            raise Unsupported('operator= on %r' % (loc,))
        if op in ('==', '!='):
            x, y = self.rv(vals[0]), self.rv(vals[1])
            if isinstance(x, CharRef): x = x.get(self)
            if isinstance(y, CharRef): y = y.get(self)
            def isfn(v): return isinstance(v, Closure) or isinstance(v, z3.ExprRef) and v.sort() == Fn
            if isfn(x) and isinstance(y, z3.ExprRef) and y.eq(null): x, y = self.truth(x), F_
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                return (x == y) if op == '==' else (x != y)
            if isinstance(x, (Ptr, EnumPtr, MapIt, LocPtr)) or isinstance(y, (Ptr, EnumPtr, MapIt, LocPtr)): return self.ptr_binop(op, x, y, n)
            if isinstance(x, SV) and x.ty.k == 'opt' and isinstance(y, Opaque):
                return z3.Not(x.lv[('#has',)]) if op == '==' else x.lv[('#has',)]
            return self.lib_binop(op, x, y, n)
        if op == '<<':
            return self.stream_out(vals[0], vals[1], n)
        if op in ('+', '-', '*', '/', '<', '>', '<=', '>=') and len(vals) == 2:
            x, y = self.rv(vals[0]), self.rv(vals[1])
            if isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef):
                if op == '+' and (x.sort() == Str or y.sort() == Str):
                    if x.sort() == I: x = self.char_str(x)
                    if y.sort() == I: y = self.char_str(y)
                    return self.cat(x, y)
                raise Unsupported('operator %s' % name)
            if isinstance(x, (Ptr, EnumPtr, MapIt)): return self.ptr_binop(op, x, y, n)
            return self.lib_binop(op, vals[0], vals[1], n)
        if op == '-' and len(vals) == 1: return self.eig_un(lambda t: -t, vals[0])
        if op in ('+=', '-=', '*=', '/='):
            loc = vals[0]; y = self.rv(vals[1])
            if isinstance(loc, Loc) and loc.ty is not None and loc.ty.k == 'str':
                if y.sort() == I: y = self.char_str(y)
                self.write(loc, self.cat(self.read(loc), y)); return loc
            if isinstance(loc, Loc):
                x = self.read(loc)
                if isinstance(x, (Ptr, EnumPtr)):
                    self.set_local(loc, self.ptr_binop(op[0], x, y, n)); return loc
                if isinstance(x, MapView):
                    self.view_assign(x, self.lib_binop(op[0], x, y, n), n); return loc
                r = self.lib_binop(op[0], x, y, n)
                self.write(loc, self.force(r)); return loc
            if isinstance(loc, MapView):
                self.view_assign(loc, self.lib_binop(op[0], loc, y, n), n); return loc
            raise Unsupported('operator %s' % name)
        if op == '*' and len(vals) == 1:
            v = self.rv(a)
            if isinstance(v, SV) and v.ty.k == 'opt':
                self.safety('optional', v.lv[('#has',)], n)
                l = self.mk(a); return Loc(l.root, l.steps + (('f', 'val'),), l.ty.a[0])
            ty = self.T.of_node(n)
            if isinstance(v, z3.ExprRef) and v.sort() == Ref:
                rec = ty.rec if ty is not None and ty.k == 'rec' else self.ptr_rec(a)
                return self.deref(v, n, Ty('rec', rec=rec) if rec else ty)
            return self.deref(v, n, ty)
        if op == '->':
            v = self.rv(a)
            if isinstance(v, (Ptr, EnumPtr, MapIt)):
                d = self.deref(v, n)
                if isinstance(d, Loc) and d.root[0] == 'H' and not d.steps: return d.root[1]
                return LocPtr(d) if isinstance(d, Loc) else Opaque('pairptr', d) if isinstance(d, PairRef) else d
            if isinstance(v, SV) and v.ty.k == 'opt':
                self.safety('optional', v.lv[('#has',)], n)
                l = self.mk(a); return LocPtr(Loc(l.root, l.steps + (('f', 'val'),), l.ty.a[0]))
            return v
        if op in ('++', '--'):
            loc = a
            old = self.rv(loc)
            new = self.step_value(old, 1 if op == '++' else -1, None, n)
            self.set_local(loc, new)
            return old if len(vals) == 2 else loc
        if op in ('[]', '()'):
            loc = a
            if isinstance(loc, Loc) and (loc.ty is None or loc.root[0] == 'L'):
                v = self.read(loc)
                if isinstance(v, (MapView, Expr2)): loc = v
                elif loc.ty is None and isinstance(v, SV): loc = self.new_local(v, v.ty)
            if isinstance(loc, SV): loc = self.new_local(loc, loc.ty)
            idx = [self.rv(x) for x in vals[1:]]
            if isinstance(loc, (Ptr,)): return self.deref(Ptr(loc.cont, zsimp(loc.idx + idx[0])), n)
            if isinstance(loc, (MapView, Expr2)):
                e = self.to_expr(loc)
                self.safety('index', z3.And(idx[0] >= 0, idx[0] < e.n), n)
                if isinstance(loc, MapView) and loc.kind == 'row': return Loc(loc.loc.root, loc.loc.steps + (('i', loc.a), ('j', idx[0])), REAL)
                if isinstance(loc, MapView) and loc.kind == 'map': return loc.a.cont.i(zsimp(loc.a.idx + idx[0]), REAL)
                return e.at(idx[0])
            if not isinstance(loc, Loc): raise Unsupported('%s on %r' % (name, loc))
            k = loc.ty.k
            if k in ('vec', 'arr'):
                if k == 'arr' and len(idx) == 2: self.safety('column', idx[1] == 0, n)
                ln = self.vlen(loc)
                self.safety('index', z3.And(idx[0] >= 0, idx[0] < ln), n)
                return loc.i(idx[0], self.elem_ty(loc.ty))
            if k == 'mat': return self.mat_at(loc, idx, n)
            if k == 'umap':
                kk = self.key(idx[0])
                if not self.choose(select(self.has_of(loc), kk)):
                    self.map_put(loc, kk, self.default(loc.ty.a[1]))
                return loc.i(kk, loc.ty.a[1])
            if k == 'str':
                s = self.read(loc); self.str_len_fact(s)
                self.safety('string index', z3.And(idx[0] >= 0, idx[0] <= str_len(s)), n)
                return CharRef(loc, idx[0])
            raise Unsupported('%s on %s' % (name, loc.ty))
        if op in ('&&', '||') : raise Unsupported('overloaded %s' % op)
        if op == '!':
            return z3.Not(self.truth(a))
        raise Unsupported('library operator %s at %s' % (name, self.ast.where(n)))

    def ptr_rec(self, a):
        if isinstance(a, Loc) and a.ty is not None and a.ty.k == 'ref': return a.ty.rec
        return None

    def cat(self, x, y):
        e = str_lit('')
        if x.eq(e): return y
        if y.eq(e): return x
        return str_cat(x, y)

    # streams
    def tok_loc(self): return Loc(('H', GH), (('f', 'ghost::out'),), TOKVEC)
    def file_open(self, args):
        fn = self.rv(args[0])
        self.write_leaf(self.tok_loc(), ('#len',), I, z3.IntVal(0))
        self.write_leaf(Loc(('H', GH), (('f', 'ghost::file'),), STR), (), Str, fn)
    def stream_out(self, s, v, n):
        st = s
        if isinstance(s, Loc):
            st = self.read(s)
        if not (isinstance(st, Opaque) and st.tag == 'stream'): raise Unsupported('operator<< on %r' % (st,))
        if st.data != 'file': return s
        if isinstance(v, CharRef): v = v.get(self)
        if isinstance(v, FuncRef):
            nm = v.decl.get('name')
            if nm == 'flush': return s
            if nm != 'endl': raise Unsupported('stream manipulator %s' % nm)
            v = str_lit('\n')
        v = self.rv(v)
        if isinstance(v, z3.ExprRef) and v.sort() == Str: ts = [(x, z3.RealVal(0)) for x in self.text_parts(v)]
        elif isinstance(v, z3.ExprRef) and v.sort() == R: ts = [(str_lit('\0num'), v)]
        elif isinstance(v, z3.ExprRef) and v.sort() == I:
            aty = self.T.of_node(n['inner'][-1]) if n.get('inner') else None
            if aty is not None and aty.k == 'int' and aty.bits == 8: ts = [(x, z3.RealVal(0)) for x in self.text_parts(self.char_str(v))]
            else: ts = [(str_int(v), z3.RealVal(0))]
        else: raise Unsupported('stream output of %r' % (v,))
        loc = self.tok_loc()
        for t in ts:
            ln = self.vlen(loc)
            self.write(loc.i(ln, TOKVEC.a[0]), SV(TOKVEC.a[0], {('first',): t[0], ('second',): t[1]}))
            self.set_len(loc, zsimp(ln + 1))
        return s
    def text_parts(self, v):
        """a text as the sequence of its parts: separators, the literal text between them, texts of unknown contents"""
        if z3.is_app(v) and v.decl().eq(str_cat): return [y for c in v.children() for y in self.text_parts(c)]
        for t, c in self.literals():
            if c.eq(v):
                out = []; run = ''
                for ch in t:
                    if ch in ',\n[]"; \t':
                        if run: out.append(str_lit(run)); run = ''
                        out.append(str_lit(ch))
                    else: run += ch
                return out + ([str_lit(run)] if run else [])
        return [v]
    def literals(self):
        from . import engine
        return list(engine._strlits.items())

    def moved(self, loc, node):
        """std::move(x): the value is handed over, x itself is left unspecified (empty smart pointers)"""
        t = node.get('type', {}); q = (t.get('desugaredQualType') or t.get('qualType', '')).strip()
        if not isinstance(loc, Loc) or q.startswith('const ') or loc.ty is None or loc.ty.k in ('real', 'int', 'bool', 'ptr', 'stream', 'opaque') or q.endswith('*'): return loc
        v = self.read(loc)
        if loc.ty.k == 'ref':
            if re.search(r'(shared|unique|weak)_ptr<', q): self.write(loc, null)
            return v
        if loc.ty.k == 'rec':
            if isinstance(v, SV): new = self.new_local(v, loc.ty)
            else: return loc
            for _, f in self.ast.all_fields(self.ast.recs[loc.ty.rec]):
                fl = self.fld_of(loc, f)
                if not self.T.is_ref_type(f): self.moved(fl, f)
            return new
        if loc.ty.k == 'pair': return loc
        if isinstance(v, (SV, z3.ExprRef)): self.write(loc, self.fresh_sv('moved', loc.ty))
        return v
    def fld_of(self, loc, f): return loc.f(self.ast.qname[f['id']], self.T.field_type(f))

    # free functions ----------------------------------------------------------------------------
    def lib_call(self, nm, argn, n, callee):
        self.use('std::' + str(nm))
        if nm == 'move' or nm == 'forward' and n.get('valueCategory') == 'xvalue': return self.moved(self.ev(argn[0]), argn[0])
        if nm in ('forward', 'as_const', '__addressof'): return self.ev(argn[0])
        if nm == 'addressof': return self.addr(self.ev(argn[0]))
        if nm in ('static_pointer_cast', 'dynamic_pointer_cast'):
            v = self.val(argn[0])
            ty = self.T.of_node(n)
            rec = self.ptr_target(n)
            if nm.startswith('dyn'): return self.dyn_cast(v, rec)
            if rec and not v.eq(null) and not self.static_up(argn[0], rec): self.safety('static_pointer_cast', z3.Or(v == null, self.isa(v, rec)), n)
            return v
        if nm == 'make_shared':
            rec = self.ptr_target(n)
            args = self.args_of(argn)
            return self.new_object(rec, args)
        if nm == 'get':
            v = self.ev(argn[0])
            return self.get_n(v, n, callee)
        if nm in ('max', 'min'):
            if not argn:
                t = self.T.of_node(n)
                if t.k == 'int': return z3.IntVal(2 ** (t.bits - (1 if t.signed else 0)) - 1 if nm == 'max' else (-2 ** (t.bits - 1) if t.signed else 0))
                raise Unsupported('numeric_limits')
            a, b = self.val(argn[0]), self.val(argn[1])
            if isinstance(a, SV): raise Unsupported('max of initializer_list')
            # std::max(a,b) = (a<b)?b:a ; std::min(a,b) = (b<a)?b:a
            c = a < b if nm == 'max' else b < a
            s = z3.simplify(c)
            if z3.is_true(s): return b
            if z3.is_false(s): return a
            return z3.If(c, b, a)
        if nm in ('abs', 'fabs'):
            v = self.val(argn[0])
            if isinstance(v, (SV, Expr2)): return self.m_eigen_expr('abs', self.to_expr(v), [], n)
            return z3.If(v >= 0, v, -v)
        if nm == 'to_string':
            v = self.val(argn[0])
            if v.sort() == B: v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return str_int(v) if v.sort() == I else str_real(v)
        if nm == 'swap':
            a, b = self.ev(argn[0]), self.ev(argn[1])
            va, vb = self.read(a), self.read(b)
            self.assign(a, vb, n) if not isinstance(vb, SV) else self.write(a, vb)
            self.assign(b, va, n) if not isinstance(va, SV) else self.write(b, va)
            return None
        if nm == 'exchange':
            a = self.ev(argn[0]); v = self.val(argn[1]); o = self.read(a); self.assign(a, v, n); return o
        if nm in ('Zero', 'Ones', 'Constant'):
            a = [self.val(x) for x in argn]
            c = z3.RealVal(0) if nm == 'Zero' else z3.RealVal(1) if nm == 'Ones' else self.coerce(a[1], REAL)
            return Expr2(a[0], lambda i: c)
        if nm in ('find', 'find_if', 'find_if_not', 'any_of', 'all_of', 'none_of', 'for_each', 'count_if', 'count'): return self.algo(nm, argn, n)
        if nm in ('sin', 'cos', 'exp', 'sqrt', 'pow', 'tanh', 'log', 'floor', 'ceil', 'round'):
            a = [self.coerce(self.val(x), REAL) for x in argn]
            f = z3.Function('std:' + nm, *([R] * (len(a) + 1)))
            return f(*a)
        if nm in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty'):
            v = self.ev(argn[0])
            return self.lib_method(nm, v, [], n, None)
        if nm in ('lower_bound', 'upper_bound', 'partition_point'): return self.bound(nm, argn, n)
        if nm in ('fill', 'fill_n', 'copy', 'copy_n', 'move_range'):
            if nm == 'copy':
                d = self.rv(self.arg(argn[2]))
                if isinstance(d, Opaque) and d.tag == 'backins': return self.element_algo(nm, argn, n)
            return self.fill_copy(nm, argn, n)
        if nm in ('transform', 'copy_if', 'remove_copy_if', 'replace', 'replace_if', 'generate', 'iota') or nm in ('copy', 'copy_n') and False: return self.element_algo(nm, argn, n)
        if nm in ('back_inserter', 'inserter'):
            return Opaque('backins', self.mk(self.ev(argn[0])))
        if nm == 'accumulate':
            b, e = self.val(argn[0]), self.val(argn[1]); it = self.new_local(b, None)
            ty = self.T.of_node(n); acc = self.new_local(self.val(argn[2]), ty); f = self.rv(self.arg(argn[3])) if len(argn) > 3 else None
            def step():
                x = self.deref(self.read(it), n); o = self.read(acc)
                self.write(acc, self.rv(self.call_pred(f, [o, x], n)) if f is not None else self.binop('+', o, self.rv(x), ty, n))
            self.loop(n, lambda: self.truth(self.ptr_binop('!=', self.read(it), e, n)), lambda: self.set_local(it, self.step_value(self.read(it), 1, None, n)), step, name='std::accumulate')
            return self.read(acc)
        if nm == 'clamp':
            v, lo, hi = [self.val(x) for x in argn[:3]]
            return z3.If(v < lo, lo, z3.If(hi < v, hi, v))
        if nm in ('fmax', 'fmin'):
            a, b = [self.coerce(self.val(x), REAL) for x in argn]
            return z3.If(a < b, b, a) if nm == 'fmax' else z3.If(b < a, b, a)
        if nm in ('isnan', 'isinf', 'isfinite'):
            self.val(argn[0]); return T_ if nm == 'isfinite' else F_
        if nm in ('distance',):
            a, b = self.val(argn[0]), self.val(argn[1]); return self.ptr_binop('-', b, a, n)
        if nm in ('next', 'prev'):
            a = self.val(argn[0]); k = self.val(argn[1]) if len(argn) > 1 and argn[1].get('kind') != 'CXXDefaultArgExpr' else z3.IntVal(1)
            return self.ptr_binop('+' if nm == 'next' else '-', a, k, n)
        if nm == 'make_pair':
            a, b = self.val(argn[0]), self.val(argn[1]); return self.mk_pair(self.T.of_node(n), a, b)
        if nm in ('isspace', 'isalnum', 'isalpha', 'isdigit'):
            v = self.val(argn[0]); f = z3.Function('std:' + nm, I, I); return f(v)
        raise Unsupported('library function %s at %s' % (nm, self.ast.where(n)))

    def static_up(self, e, rec):
        t = self.T.of_node(e)
        return t is not None and t.rec is not None and rec is not None and self.ast.subclass(t.rec, rec)

    def ptr_target(self, n):
        t = self.T.of_node(n)
        if t is not None and t.k == 'ref' and t.rec: return t.rec
        q = (n['type'].get('desugaredQualType') or '') + ' ' + n['type'].get('qualType', '')
        import re
        m = re.search(r'_NonArray<(.*?)>+', q) or re.search(r'shared_ptr<(.*)>', q)
        if m:
            x = m.group(1)
            while x.count('>') < x.count('<'): x += '>'
            t = self.T.parse(x)
            if t is not None and t.k == 'rec': return t.rec
        raise Unsupported('pointer target of %s' % q)

    def new_object(self, rec, args):
        hook = self.contracts.get('new ' + rec)
        if hook is not None:
            r = hook(self, args)
            if r is not NotImplemented:
                self.used_contracts.add('new ' + rec); return r
        r = self.alloc(rec)
        loc = Loc(('H', r), (), Ty('rec', rec=rec))
        if not args: self.default_ctor(self.ast.recs[rec], loc)
        else: self.call_ctor(self.ctor_by_args(self.ast.recs[rec], args), loc, args, rec)
        return r

    def get_n(self, v, n, callee):
        q = callee.get('type', {}).get('qualType', '')
        import re
        if isinstance(v, PairRef) or isinstance(v, Loc) and v.ty is not None and v.ty.k == 'pair' or isinstance(v, SV) and v.ty.k == 'pair':
            m = re.search(r'tuple_element<(\d+)', q)
            if not m: raise Unsupported('std::get index')
            i = int(m.group(1))
            if isinstance(v, PairRef): return v.first if i == 0 else v.second
            v = self.mk(v)
            return v.f(('first', 'second')[i], v.ty.a[i])
        v = self.mk(v)
        if v.ty.k == 'variant':
            t = self.T.of_node(n)
            for i, a in enumerate(v.ty.a):
                if a == t or (a.k == t.k and a.k in ('arr', 'real', 'bool')):
                    idx = self.read_leaf(v, ('#idx',), I, INT)
                    if not self.choose(idx == i): raise ThrowEx('bad_variant_access', self.ast.where(n))
                    return Loc(v.root, v.steps + (('f', 'alt%d' % i),), a)
        raise Unsupported('std::get on %s' % v.ty)

    def call_pred(self, p, x, n):
        if not isinstance(x, list): x = [x]
        if isinstance(p, Closure): r = self.call_closure(p, x, n)
        elif isinstance(p, z3.ExprRef) and p.sort() == Fn: r = self.call_fnval(p, x, n)
        elif isinstance(p, FuncRef): r = self.invoke(p.decl['id'], None, x, n)
        else: raise Unsupported('predicate %r' % (p,))
        return r

    def algo(self, nm, argn, n):
        """std algorithms over a range, executed as a loop of the verified program"""
        first = self.val(argn[0]); last = self.val(argn[1])
        x = self.ev(argn[2])
        x = self.rv(x) if nm in ('find', 'count') or isinstance(x, Loc) else x
        it = self.new_local(first, None)
        state = {}
        if nm in ('count', 'count_if'): cnt = self.new_local(z3.IntVal(0), LONG)
        def cond():
            return self.truth(self.ptr_binop('!=', self.read(it), last, n))
        def inc(): self.set_local(it, self.step_value(self.read(it), 1, None, n))
        found = self.new_local(z3.BoolVal(False), BOOL)
        def body():
            e = self.deref(self.read(it), n)
            if nm == 'for_each':
                self.call_pred(x, e, n); return
            if nm in ('find', 'count'):
                ev = self.rv(e)
                if isinstance(ev, z3.ExprRef) and isinstance(x, z3.ExprRef): c = ev == x
                else: c = self.lib_binop('==', ev, x, n)
            else:
                c = self.truth(self.call_pred(x, e, n))
                if nm in ('all_of', 'find_if_not'): c = z3.Not(c)
            if self.choose(c):
                if nm in ('count', 'count_if'):
                    self.write(cnt, zsimp(self.read(cnt) + 1)); return
                self.write(found, z3.BoolVal(True))
                raise BreakEx()
        save = self.lib_hints
        if nm != 'for_each' and isinstance(first, Ptr): self.lib_hints = save + [lambda L: self.pred_hint(L, nm, first, x, n, cnt if nm in ('count', 'count_if') else None)]
        try: self.loop(n, cond, inc, body, name='std::' + nm)
        finally: self.lib_hints = save
        if nm == 'for_each': return x
        if nm in ('count', 'count_if'): return self.read(cnt)
        if nm.startswith('find'): return self.read(it)
        f = self.read(found)
        return f if nm == 'any_of' else z3.Not(f)

    def element_algo(self, nm, argn, n):
        """algorithms that write elements one by one, executed as a loop of the verified program"""
        first = self.val(argn[0]); last = self.val(argn[1])
        rest = [self.rv(self.arg(x)) for x in argn[2:]]
        it = self.new_local(first, None); inplace = nm in ('replace', 'replace_if', 'generate', 'iota')
        out = None if inplace else rest[1] if nm == 'transform' and len(rest) == 3 else rest[0]
        second = self.new_local(rest[0], None) if nm == 'transform' and len(rest) == 3 else None
        ot = None
        if out is not None and not (isinstance(out, Opaque) and out.tag == 'backins'): ot = self.new_local(out, None)
        def put(v):
            if ot is None:
                c = out.data; et = c.ty.a[0]; ln = self.vlen(c)
                self.write(c.i(ln, et), self.convert(et, v)); self.set_len(c, zsimp(ln + 1))
            else:
                self.assign(self.deref(self.read(ot), n), v, n); self.set_local(ot, self.step_value(self.read(ot), 1, None, n))
        iota = self.new_local(rest[0], None) if nm == 'iota' else None
        def inc():
            self.set_local(it, self.step_value(self.read(it), 1, None, n))
            if second is not None: self.set_local(second, self.step_value(self.read(second), 1, None, n))
            if iota is not None: self.write(iota, zsimp(self.read(iota) + 1))
        def body():
            e = self.deref(self.read(it), n)
            if nm == 'transform': put(self.rv(self.call_pred(rest[-1], [e] if second is None else [e, self.deref(self.read(second), n)], n)))
            elif nm == 'copy': put(self.rv(e))
            elif nm in ('copy_if', 'remove_copy_if'):
                c = self.truth(self.call_pred(rest[-1], e, n))
                if self.choose(c if nm == 'copy_if' else z3.Not(c)): put(self.rv(e))
            elif nm == 'generate': self.assign(e, self.rv(self.call_pred(rest[0], [], n)), n)
            elif nm == 'iota': self.assign(e, self.read(iota), n)
            else:
                if nm == 'replace':
                    ev = self.rv(e); c = ev == rest[0] if isinstance(ev, z3.ExprRef) else self.lib_binop('==', ev, rest[0], n)
                else: c = self.truth(self.call_pred(rest[0], e, n))
                if self.choose(c): self.assign(e, rest[1], n)
        self.loop(n, lambda: self.truth(self.ptr_binop('!=', self.read(it), last, n)), inc, body, name='std::' + nm)
        return out if ot is None else self.read(ot)

    def bound(self, nm, argn, n):
        """lower_bound / upper_bound / partition_point: the elements before the result satisfy the condition, the others do not; the range must be partitioned"""
        b, e = self.val(argn[0]), self.val(argn[1])
        if not (isinstance(b, Ptr) and isinstance(e, Ptr) and b.cont.same(e.cont)): raise Unsupported('std::%s on %r' % (nm, b))
        x = self.rv(self.arg(argn[2])); f = self.rv(self.arg(argn[3])) if len(argn) > 3 else None
        k = self.fresh('pk', I); i, j = z3.Consts('q:b1 q:b2', I)
        n0 = len(self.st.pc)
        def go():
            el = self.deref(Ptr(b.cont, k), n)
            if nm == 'partition_point': return self.truth(self.call_pred(x, el, n))
            if f is not None: r = self.call_pred(f, [el, x] if nm == 'lower_bound' else [x, el], n)
            else:
                v = self.rv(el); r = self.binop('<', v, x, BOOL, n) if nm == 'lower_bound' else self.binop('<', x, v, BOOL, n)
            return self.truth(r) if nm == 'lower_bound' else z3.Not(self.truth(r))
        self.quiet += 1; save = self.st
        try:
            self.st = save.copy(); self.st.log = None
            rs = self.explore(go, 'pred')
        except (ThrowEx, ReturnEx): raise Unsupported('std::%s predicate' % nm)
        finally: self.st = save; self.quiet -= 1
        if not rs: raise Unsupported('std::%s predicate' % nm)
        c = rs[0][0] if len(rs) == 1 else z3.Or(*[z3.And(*(st.pc[n0:] + [c])) for c, st in rs])
        at = lambda y: z3.substitute(c, (k, y))
        self.safety('range', z3.And(b.idx >= 0, b.idx <= e.idx, e.idx <= self.vlen(b.cont)), n)
        self.safety('range sorted for std::%s' % nm, z3.ForAll([i, j], z3.Implies(z3.And(i >= b.idx, i < j, j < e.idx, at(j)), at(i))), n)
        r = self.fresh('bound', I)
        self.fact(z3.And(r >= b.idx, r <= e.idx))
        self.fact(z3.ForAll([i], z3.Implies(z3.And(i >= b.idx, i < r), at(i))))
        self.fact(z3.ForAll([i], z3.Implies(z3.And(i >= r, i < e.idx), z3.Not(at(i)))))
        self.fact(z3.Implies(r < e.idx, z3.Not(at(r)))); self.fact(z3.Implies(r > b.idx, at(zsimp(r - 1))))
        return Ptr(b.cont, r)

    def fill_copy(self, nm, argn, n):
        """std::fill, fill_n, copy, copy_n on contiguous ranges"""
        a = [self.rv(self.arg(x)) for x in argn]
        if nm == 'fill': d, m, src = a[0], zsimp(a[1].idx - a[0].idx), None
        elif nm == 'fill_n': d, m, src = a[0], a[1], None
        elif nm == 'copy': d, m, src = a[2], zsimp(a[1].idx - a[0].idx) if isinstance(a[1], Ptr) else None, a[0]
        else: d, m, src = a[2], a[1], a[0]
        if not isinstance(d, Ptr) or m is None or (src is not None and not isinstance(src, Ptr)): raise Unsupported('std::%s on %r' % (nm, d))
        et = self.elem_ty(d.cont.ty)
        self.safety('destination range', z3.And(d.idx >= 0, m >= 0, d.idx + m <= self.vlen(d.cont)), n)
        if src is not None:
            if self.elem_ty(src.cont.ty) != et: raise Unsupported('copy of converted elements')
            if src.cont.same(d.cont): raise Unsupported('copy within a container')
            self.safety('source range', z3.And(src.idx >= 0, src.idx + m <= self.vlen(src.cont)), n)
            sv = self.read(src.cont)
        x = None if src is not None else self.convert(et, a[2] if nm == 'fill' else a[2])
        for p, s, t in self.T.leaves(et):
            old = self.read_leaf(d.cont, ('[]',) + p, z3.ArraySort(I, s), None)
            if src is not None:
                sa = sv.lv[('[]',) + p]; v = lambda q: select(sa, zsimp(q - d.idx + src.idx))
            else:
                c = x.lv[p] if isinstance(x, SV) else x; v = lambda q: c
            self.write_leaf(d.cont, ('[]',) + p, z3.ArraySort(I, s), lam(I, lambda q: z3.If(z3.And(q >= d.idx, q < d.idx + m), v(q), select(old, q))))
        return Ptr(d.cont, zsimp(d.idx + m))

    def pred_hint(self, L, nm, first, x, n, cnt=None):
        """candidate: no element before the iterator satisfies the searched condition"""
        k = self.fresh('pk', I); q = z3.Const('q:pk', I)
        n0 = len(self.st.pc)
        def go():
            e = self.deref(Ptr(first.cont, k), n)
            if nm in ('find', 'count'):
                ev = self.rv(e)
                return ev == x if isinstance(ev, z3.ExprRef) and isinstance(x, z3.ExprRef) else self.lib_binop('==', ev, x, n)
            c = self.truth(self.call_pred(x, e, n))
            return z3.Not(c) if nm in ('all_of', 'find_if_not') else c
        self.quiet += 1
        save = self.st
        try:
            self.st = save.copy(); self.st.log = None
            rs = self.explore(go, 'pred')
        except (ThrowEx, ReturnEx, Unsupported): return []
        finally: self.st = save; self.quiet -= 1
        if len(rs) != 1: c = z3.Or(*[z3.And(*(s.pc[n0:] + [c])) for c, s in rs])
        else: c = rs[0][0]
        if not rs: return []
        body = lambda lo, hi: z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < hi), z3.Not(z3.substitute(c, (k, q)))))
        out = []
        for c_, g, desc, info in L.syms:
            if info[0] == 'P' and isinstance(g(L.pre), z3.ExprRef):
                if cnt is None: out.append(('nothing found before', body(first.idx, c_)))
                else:
                    m = self.read(cnt)
                    if isinstance(m, z3.ExprRef):
                        out += [('counted: none found before', z3.Implies(m == 0, body(first.idx, c_))), ('counted: not negative', m >= 0), ('counted: at most', m <= c_ - first.idx)]
                        out.append(('counted: found', z3.Implies(m > 0, z3.Exists([q], z3.And(q >= first.idx, q < c_, z3.substitute(c, (k, q)))))))
        return out

    # construction ------------------------------------------------------------------------------
    def lib_construct(self, ty, ct, argn, n):
        q = (n['type'].get('desugaredQualType') or '') + '|' + n['type'].get('qualType', '')
        if 'Eigen::Map<' in q or q.startswith('Map<') or '|Map<' in q:
            a = [self.arg(x) for x in argn]
            if len(a) == 1 and isinstance(self.rv(a[0]), MapView): return self.rv(a[0])
            p = self.rv(a[0]); m = self.rv(a[1])
            if not isinstance(p, Ptr): raise Unsupported('Eigen::Map of %r' % (p,))
            v = MapView('map', None, p, m)
            self.check_map(v, n)
            return v
        if ty is None:
            a = [self.arg(x) for x in argn]
            a = [x for x in a if x is not None]
            if len(a) == 1:
                v = self.rv(a[0])
                return v
            if any(s in q for s in ('allocator', 'runtime_error')): return Opaque('misc')
            if 'default_random' in q: raise Unsupported('construct %s' % q)
            raise Unsupported('construct %s at %s' % (q, self.ast.where(n)))
        k = ty.k
        if k in ('opaque', 'stream'):
            for x in argn: self.arg(x)
            return Opaque(k, 'mem')
        a = [self.arg(x) for x in argn]
        a = [x for x in a if x is not None]
        a = [x for x in a if not (isinstance(x, Opaque) and x.tag == 'misc')]
        if k == 'str':
            if not a: return str_lit('')
            v = self.rv(a[0])
            if len(a) == 1 and isinstance(v, z3.ExprRef) and v.sort() == Str: return v
            raise Unsupported('string construction at %s' % self.ast.where(n))
        if k in ('ref', 'ptr'):
            if not a: return null
            v = self.rv(a[0])
            return v
        if k == 'fn':
            if not a: return fnnull
            v = self.rv(a[0])
            if isinstance(v, z3.ExprRef) and v.sort() == Ref: return fnnull
            return v
        if k == 'arr':
            if not a: return self.default(ty)
            v = self.rv(a[0])
            if isinstance(v, (Expr2, MapView)): return self.force(self.to_expr(v))
            if isinstance(v, SV):
                if v.ty.k == 'arr': return v
                if v.ty.k == 'vec':
                    return SV(ARR, {('#len',): v.lv[('#len',)], ('[]',): v.lv[('[]',)]})
            if isinstance(v, z3.ExprRef) and v.sort() == I and len(a) == 1:
                self.safety('Array size', v >= 0, n)
                return SV(ARR, {('#len',): v, ('[]',): self.fresh('uninit', z3.ArraySort(I, R))})
            raise Unsupported('Array construction')
        if k == 'mat':
            if not a: return self.default(ty)
            v = self.rv(a[0])
            if len(a) == 2:
                r_, c_ = v, self.rv(a[1])
                return SV(MAT, {('#rows',): r_, ('#cols',): c_, ('[]',): self.fresh('uninit', z3.ArraySort(I, z3.ArraySort(I, R)))})
            return self.convert(MAT, v)
        if k == 'vec':
            if not a: return self.default(ty)
            v = self.rv(a[0])
            if isinstance(v, SV) and v.ty.k == 'vec':
                if v.ty.a == ty.a: return v
                raise Unsupported('vector conversion')
            if isinstance(v, Ptr):
                return self.vec_from_range(ty, a[0] if isinstance(a[0], Ptr) else v, self.rv(a[1]))
            if isinstance(v, z3.ExprRef) and v.sort() == I:
                fill = self.convert(ty.a[0], a[1]) if len(a) > 1 else (self.zero(ty.a[0]) if ty.a[0].k in ('real', 'int', 'bool') else self.default(ty.a[0]))
                lv = {('#len',): v}
                for p, s, t in self.T.leaves(ty.a[0]): lv[('[]',) + p] = z3.K(I, fill.lv[p] if isinstance(fill, SV) else fill)
                return SV(ty, lv)
            raise Unsupported('vector construction')
        if k == 'pair':
            if not a: return self.default(ty)
            if len(a) == 2: return self.make_from_args(ty, a)
            v = a[0]
            if isinstance(v, PairRef): return self.mk_pair(ty, self.rv(v.first), self.rv(v.second))
            v = self.rv(v)
            if isinstance(v, SV) and v.ty.k == 'pair':
                if v.ty.a == ty.a: return v
                l = self.mk(v)
                return self.mk_pair(ty, self.convert(ty.a[0], l.f('first', v.ty.a[0])), self.convert(ty.a[1], l.f('second', v.ty.a[1])))
            raise Unsupported('pair construction')
        if k == 'opt':
            if not a: return self.default(ty)
            return self.convert(ty, a[0])
        if k == 'variant':
            if not a: raise Unsupported('default variant')
            v = self.rv(a[0])
            if isinstance(v, SV) and v.ty.k == 'variant': return v
            return self.to_variant(v, ty)
        if k in ('uset', 'umap'):
            if not a: return self.default(ty)
            v = self.rv(a[0])
            if isinstance(v, SV) and v.ty.k == k: return v
            if isinstance(v, SV) and v.ty.k == 'vec' and k == 'umap':
                ln = lit(v.lv[('#len',)])
                if ln is None: return self.map_from_list(ty, v)
                loc = self.new_local(self.default(ty), ty)
                src = self.new_local(v, v.ty)
                for i in range(ln):
                    e = src.i(z3.IntVal(i), v.ty.a[0])
                    kk = self.read(e.f('first', v.ty.a[0].a[0]))
                    if not self.choose(select(self.has_of(loc), kk)):
                        self.map_put(loc, kk, self.convert(ty.a[1], e.f('second', v.ty.a[0].a[1])))
                return self.read(loc)
            raise Unsupported('container construction')
        if k in ('real', 'int', 'bool'):
            if not a: return self.zero(ty)
            return self.coerce(self.rv(a[0]), ty)
        raise Unsupported('construct %s at %s' % (ty, self.ast.where(n)))

    def map_from_list(self, ty, v):
        """map built from a list of pairs of unknown length: the keys of the list, each with its first value"""
        kt, vt = ty.a; ks = self.T.sort_of_key(kt); n = v.lv[('#len',)]; keys = v.lv[('[]', 'first')]
        has = self.fresh('has', z3.ArraySort(ks, B)); at = self.fresh('from', z3.ArraySort(ks, I)); size = self.fresh('size', I)
        i, j = z3.Consts('q:i q:j', I); k = z3.Const('q:k', ks)
        w = z3.Select(at, k)
        self.fact(z3.And(size >= 0, size <= n, z3.Implies(n >= 1, size >= 1)))
        self.fact(z3.ForAll([k], z3.Implies(z3.Select(has, k), z3.And(w >= 0, w < n, z3.Select(keys, w) == k)), patterns=[z3.Select(has, k)]))
        self.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(z3.Select(has, z3.Select(keys, i)), z3.Select(at, z3.Select(keys, i)) <= i)), patterns=[z3.Select(keys, i)]))
        lv = {('#has',): has, ('#size',): size}
        for p, s, t in self.T.leaves(vt):
            a = self.fresh('val', z3.ArraySort(ks, s)); lv[('[]',) + p] = a
            self.fact(z3.ForAll([k], z3.Implies(z3.Select(has, k), z3.Select(a, k) == z3.Select(v.lv[('[]', 'second') + p], w)), patterns=[z3.Select(a, k)]))
        return SV(ty, lv)
    def vec_from_range(self, ty, b, e):
        v = self.read(b.cont)
        lv = {('#len',): zsimp(e.idx - b.idx)}
        for p, s, t in self.T.leaves(ty.a[0]):
            src = v.lv[('[]',) + p]
            lv[('[]',) + p] = lam(I, lambda i: select(src, zsimp(i + b.idx))) if lit(b.idx) != 0 else src
        return SV(ty, lv)
