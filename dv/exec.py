"""Statements, expressions and loops of the executor (mixed into Engine)."""
import re, z3
from .engine import *
from .engine import _aid
from .cxxast import Unsupported, KIND_FN
from .lib import Lib
from .loops import Loops

SKIP = ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'FullExpr')

def peel(n):
    while n.get('kind') in SKIP or n.get('kind') in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr') and n.get('castKind') in ('NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'BuiltinFnToFnPtr') or n.get('kind') == 'MaterializeTemporaryExpr':
        n = n['inner'][0]
    return n

def wrap(t, ty):
    """value of an integer term converted to an unsigned / signed type"""
    v = lit(t)
    if ty.k != 'int': return t
    b = ty.bits
    if v is not None:
        v &= (1 << b) - 1
        if ty.signed and v >= 1 << (b - 1): v -= 1 << b
        return z3.IntVal(v)
    return None

class Exec(Lib, Loops, Engine):
    # statements --------------------------------------------------------------------------------
    def stmt(self, n):
        k = n.get('kind')
        m = getattr(self, 's_' + k, None)
        if m is not None: return m(n)
        if k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal') or k == 'ExprWithCleanups':
            self.ev(n); return
        raise Unsupported('statement %s at %s' % (k, self.ast.where(n)))

    def s_CompoundStmt(self, n):
        for c in n.get('inner', []): self.stmt(c)
    def s_NullStmt(self, n): pass
    def s_AttributedStmt(self, n):
        self.stmt(n['inner'][-1])
    def s_DeclStmt(self, n):
        for c in n.get('inner', []):
            k = c.get('kind')
            if k == 'VarDecl': self.declare(c)
            elif k == 'DecompositionDecl': self.decompose(c)
            elif k in ('TypedefDecl', 'TypeAliasDecl', 'UsingDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'EmptyDecl'): pass
            else: raise Unsupported('declaration %s' % k)

    def is_tracer(self, n):
        t = n.get('type', {})
        return 'PooyaTracer' in (t.get('desugaredQualType') or '') + t.get('qualType', '')

    def init_of(self, c):
        for x in c.get('inner', []):
            k = x.get('kind', '')
            if k.endswith(('Expr', 'Literal', 'Operator')) or k == 'ExprWithCleanups': return x
        return None

    def declare(self, c):
        if self.is_tracer(c): return
        env = self.frame.env
        e = self.init_of(c)
        if c.get('storageClass') == 'static':
            q = c['type'].get('qualType', '')
            if not q.startswith('const') and not c.get('constexpr'): raise Unsupported('static local variable')
        ty = self.T.of_node(c)
        if self.T.is_ref_type(c):
            v = self.ev(e)
            env[c['id']] = self.bind_value(c, v)
            return
        if e is None:
            if ty is None: raise Unsupported('variable of type %s' % c['type'])
            if ty.k == 'rec':
                loc = self.new_local(self.fresh_sv('uninit', ty), ty)
                self.default_ctor(self.ast.recs[ty.rec], loc)
            else: loc = self.new_local(self.default(ty), ty)
            if ty.k == 'stream': self.st.loc[loc.root[1]] = Opaque('stream', 'file' if 'ofstream' in c['type']['qualType'] else 'mem')
            env[c['id']] = loc
            return
        env[c['id']] = self.make_var(c, ty, e)

    def make_var(self, c, ty, e):
        if ty is not None and ty.k == 'rec':
            loc = self.new_local(self.fresh_sv('uninit', ty), ty)
            self.init_loc(loc, e)
            return loc
        if ty is not None and ty.k == 'stream':
            a = peel(e)
            args = [self.ev(x) for x in a.get('inner', []) if x.get('kind') != 'CXXDefaultArgExpr']
            kind = 'file' if 'fstream' in (c['type'].get('desugaredQualType') or '') + c['type']['qualType'] else 'mem'
            loc = self.new_local(Opaque('stream', kind), ty)
            if kind == 'file': self.file_open(args)
            return loc
        v = self.ev(e)
        if isinstance(v, Loc): v = self.read(v)
        if isinstance(v, CharRef): v = v.get(self)
        if isinstance(v, Expr2):
            if ty is not None and ty.k == 'arr': v = self.force(v)
            else: raise Unsupported('lazy Eigen expression kept in a variable')
        if isinstance(v, MapView) and (ty is None or ty.k in ('arr',)):
            if ty is not None and 'Map' not in c['type'].get('qualType', '') + (c['type'].get('desugaredQualType') or ''): v = self.force(self.view_expr(v))
        if isinstance(v, z3.ExprRef): v = self.coerce(v, ty)
        if ty is not None and ty.k == 'variant' and not (isinstance(v, SV) and v.ty.k == 'variant'): v = self.to_variant(v, ty)
        return self.new_local(v, ty)

    def decompose(self, c):
        e = self.init_of(c)
        v = self.ev(e)
        if not self.T.is_ref_type(c):
            if isinstance(v, Loc): v = self.new_local(self.read(v), v.ty)
        if isinstance(v, SV): v = self.new_local(v, v.ty)
        bs = [x for x in c.get('inner', []) if x.get('kind') == 'BindingDecl']
        for i, b in enumerate(bs):
            f = ('first', 'second')[i]
            if isinstance(v, PairRef): x = v.first if i == 0 else v.second
            elif isinstance(v, Opaque) and v.tag == 'inserted': x = v.data[i]
            elif isinstance(v, Loc) and v.ty is not None and v.ty.k == 'pair': x = v.f(f, v.ty.a[i])
            elif isinstance(v, Loc) and v.ty is not None and v.ty.k == 'rec':
                fl = self.ast.all_fields(self.ast.recs[v.ty.rec]); x = self.field_loc(v, fl[i][1])
            else: raise Unsupported('structured binding of %r' % (v,))
            if not isinstance(x, Loc): x = self.new_local(x, None)
            self.frame.env[b['id']] = x
            for y in b.get('inner', []):
                if y.get('kind') == 'VarDecl': self.frame.env[y['id']] = x
        self.frame.env[c['id']] = v if isinstance(v, Loc) else self.new_local(v, None)

    def s_ReturnStmt(self, n):
        inner = n.get('inner', [])
        if not inner: raise ReturnEx(None)
        fn = self.frame.fn
        rt = None
        if fn is not None and not self.return_is_ref(fn):
            v = self.ev_init(inner[0], self.ret_ty(fn))
        else: v = self.ev(inner[0])
        raise ReturnEx(v)

    def ret_ty(self, fn):
        q = fn.get('type', {}).get('qualType', '')
        if '->' in q: r = q.split('->')[-1].strip()
        else: r = q[:q.index('(')].strip() if '(' in q else ''
        if 'auto' in r or not r: return None
        return self.T.parse(r)

    def ev_init(self, e, ty):
        """value of an expression used to initialise an object of type ty (by value)"""
        v = self.ev(e)
        if isinstance(v, Loc): v = self.read(v)
        if isinstance(v, Expr2) and (ty is None or ty.k == 'arr'): v = self.force(v)
        if isinstance(v, MapView): v = self.force(self.view_expr(v))
        if isinstance(v, SV) and ty is not None and ty.k == 'rec' and v.ty.k == 'rec' and v.ty.rec != ty.rec: v = self.slice(v, ty)
        if isinstance(v, z3.ExprRef): v = self.coerce(v, ty)
        return v

    def s_IfStmt(self, n):
        inner = list(n['inner'])
        if n.get('hasInit'): self.stmt(inner.pop(0))
        if n.get('hasVar'): self.stmt(inner.pop(0))
        c = inner.pop(0)
        if n.get('isConstexpr'):
            v = self.const_cond(c)
            if v is None: raise Unsupported('if constexpr condition')
            if v: self.stmt(inner[0])
            elif len(inner) > 1: self.stmt(inner[1])
            return
        if self.choose(self.cond(c)): self.stmt(inner[0])
        elif len(inner) > 1: self.stmt(inner[1])

    def const_cond(self, c):
        x = c
        while x is not None:
            if x.get('kind') == 'ConstantExpr' and 'value' in x: return x['value'] in ('true', '1')
            if x.get('kind') == 'CXXBoolLiteralExpr': return bool(x.get('value'))
            if x.get('kind') in ('DeclRefExpr',): 
                d = self.ast.decl.get(x['referencedDecl']['id'])
                return None
            x = x['inner'][0] if x.get('inner') else None
        return None

    def s_BreakStmt(self, n): raise BreakEx()
    def s_ContinueStmt(self, n): raise ContinueEx()

    def s_WhileStmt(self, n):
        inner = list(n['inner'])
        v = inner.pop(0) if n.get('hasVar') else None
        c, b = inner[0], inner[-1]
        def cf():
            if v is not None: self.stmt(v)
            return self.cond(c)
        self.loop(n, cf, None, lambda: self.stmt(b), name='while')
    def s_DoStmt(self, n):
        b, c = n['inner'][0], n['inner'][1]
        self.loop(n, (lambda: self.cond(c)), None, lambda: self.stmt(b), name='do', post=True)
    def s_ForStmt(self, n):
        init, var, c, inc, b = n['inner']
        if init.get('kind'): self.stmt(init)
        def cf0():
            if var.get('kind'): self.stmt(var)
            return self.cond(c)
        cf = cf0 if c.get('kind') else None
        incf = (lambda: self.ev(inc)) if inc.get('kind') else None
        self.loop(n, cf, incf, lambda: self.stmt(b), name='for')
    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        init, rng, beg, end, c, inc, var, body = inner
        if init.get('kind'): self.stmt(init)
        self.stmt(rng); self.stmt(beg); self.stmt(end)
        def b():
            self.stmt(var); self.stmt(body)
        self.loop(n, (lambda: self.cond(c)), (lambda: self.ev(inc)), b, name='range-for')
    def s_CXXTryStmt(self, n):
        b = n['inner'][0]; depth = len(self.frames)
        try: self.stmt(b)
        except ThrowEx as t:
            del self.frames[depth:]
            for h in n['inner'][1:]:
                var = next((x for x in h.get('inner', []) if x.get('kind') == 'VarDecl'), None)
                if var is not None:
                    q = var['type'].get('desugaredQualType') or var['type'].get('qualType', '')
                    c = self.catches(q, t.what)
                    if c is None: raise Unsupported('catch of %s' % q)
                    if not c: continue
                    self.frame.env[var['id']] = self.new_local(Opaque('exception'), Ty('opaque'))
                self.catching = getattr(self, 'catching', ()) + (t,)
                try: self.stmt(h['inner'][-1])
                finally: self.catching = self.catching[:-1]
                return
            raise
    def catches(self, q, what):
        """does a handler of type q take an exception of this kind?"""
        m = re.search(r'std::(\w+)', q)
        if not m or what == 'throw': return None
        bases = {'pooya': ('runtime_error', 'exception'), 'out_of_range': ('out_of_range', 'logic_error', 'exception'), 'bad_optional_access': ('bad_optional_access', 'exception'), 'bad_variant_access': ('bad_variant_access', 'exception')}
        if what not in bases: return None
        return m.group(1) in bases[what]
    def s_SwitchStmt(self, n):
        if n.get('hasVar') or n.get('hasInit'): raise Unsupported('switch with declaration')
        v = self.val(n['inner'][0]); body = n['inner'][-1]
        if body.get('kind') != 'CompoundStmt': raise Unsupported('switch body')
        if isinstance(v, z3.ExprRef) and v.sort() == B: v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
        flat = []; entries = []; default = None
        for st in body.get('inner', []):
            while st.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if st['kind'] == 'DefaultStmt': default = len(flat)
                else:
                    if len(st['inner']) != 2: raise Unsupported('case range')
                    entries.append((st['inner'][0], len(flat)))
                st = st['inner'][-1]
            flat.append(st)
        start = default
        for e, i in entries:
            if self.choose(self.binop('==', v, self.val(e), BOOL, n)): start = i; break
        if start is None: return
        try:
            for st in flat[start:]: self.stmt(st)
        except BreakEx: pass

    # conditions --------------------------------------------------------------------------------
    def truth(self, v):
        if isinstance(v, Loc): v = self.read(v)
        if isinstance(v, bool): return z3.BoolVal(v)
        if isinstance(v, z3.ExprRef):
            if v.sort() == B: return v
            if v.sort() == I: return v != 0
            if v.sort() == R: return v != 0
            if v.sort() == Ref: return v != null
            if v.sort() == Fn: return v != fnnull
        if isinstance(v, (LocPtr, Ptr, Closure)): return T_
        if isinstance(v, Opaque) and v.tag == 'pairptr': return T_
        if isinstance(v, Opaque) and v.tag == 'stream': return T_
        raise Unsupported('truth value of %r' % (v,))
    def cond(self, n):
        return self.truth(self.ev(n))

    # expressions -------------------------------------------------------------------------------
    def val(self, n):
        v = self.ev(n)
        if isinstance(v, Loc): v = self.read(v)
        return v

    def ev(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression %s at %s' % (k, self.ast.where(n)))
        return m(n)

    def e_ParenExpr(self, n): return self.ev(n['inner'][0])
    e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_SubstNonTypeTemplateParmExpr = e_ParenExpr
    def e_ConstantExpr(self, n):
        return self.ev(n['inner'][0])
    def e_MaterializeTemporaryExpr(self, n):
        v = self.ev(n['inner'][0])
        if isinstance(v, Loc) : return v
        if isinstance(v, (SV, z3.ExprRef)):
            ty = v.ty if isinstance(v, SV) else self.T.of_node(n)
            if isinstance(v, z3.ExprRef): v = self.coerce(v, ty)
            return self.new_local(v, ty)
        return v
    def e_IntegerLiteral(self, n): return z3.IntVal(int(n['value']))
    def e_CharacterLiteral(self, n): return z3.IntVal(int(n['value']))
    def e_CXXBoolLiteralExpr(self, n): return z3.BoolVal(bool(n['value']))
    def e_FloatingLiteral(self, n):
        t = self.ast.text(n).rstrip('fFlL').replace("'", '')
        try:
            from fractions import Fraction
            f = Fraction(t if not t.endswith('.') else t + '0')
        except (ValueError, ZeroDivisionError):
            from fractions import Fraction
            f = Fraction(n['value'])
        return z3.RealVal(str(f))
    def e_StringLiteral(self, n):
        import json
        v = n['value']
        try: v = json.loads(v) if v.startswith('"') else v
        except Exception: v = v[1:-1]
        return str_lit(v)
    def e_CXXNullPtrLiteralExpr(self, n): return null
    e_GNUNullExpr = e_CXXNullPtrLiteralExpr
    def e_CXXThisExpr(self, n): return self.this_ptr()
    def e_CXXDefaultInitExpr(self, n): raise Unsupported('default member initialiser expression')
    def e_CXXScalarValueInitExpr(self, n): return self.zero(self.T.of_node(n))
    e_ImplicitValueInitExpr = e_CXXScalarValueInitExpr
    def zero(self, ty):
        if ty.k == 'real': return z3.RealVal(0)
        if ty.k == 'int': return z3.IntVal(0)
        if ty.k == 'bool': return F_
        return self.default(ty)

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        i = d['id']
        if i in self.frame.env: return self.frame.env[i]
        k = d.get('kind')
        nm = d.get('name')
        if k == 'EnumConstantDecl': return z3.IntVal(self.enum_value(i, nm))
        if k in KIND_FN: return FuncRef(d)
        if nm == 'npos': return z3.IntVal(NPOS)
        if nm == 'nullopt': return Opaque('nullopt')
        if nm in ('cout', 'cerr', 'clog'): return Opaque('stream', 'mem')
        dd = self.ast.decl.get(i)
        if dd is not None and dd.get('kind') == 'VarDecl':
            q = (dd['type'].get('desugaredQualType') or '') + dd['type'].get('qualType', '')
            e = self.init_of(dd)
            if e is not None and ('const' in q or dd.get('constexpr')):
                v = self.ev(e)
                return self.coerce_int(v, self.T.of_node(dd)) if isinstance(v, z3.ExprRef) else v
        if k == 'NonTypeTemplateParmDecl': raise Unsupported('template parameter')
        raise Unsupported('variable %s at %s' % (nm, self.ast.where(n)))

    def coerce_int(self, v, ty):
        if ty is not None and ty.k == 'int':
            w = wrap(v, ty)
            if w is not None: return w
        return self.coerce(v, ty)

    def enum_value(self, i, nm):
        d = self.ast.decl.get(i)
        if d is None: raise Unsupported('enumerator %s' % nm)
        for x in d.get('inner', []):
            y = x
            while y is not None:
                if 'value' in y and y.get('kind') in ('ConstantExpr', 'IntegerLiteral'): return int(y['value'])
                if y.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr') and y.get('inner'): y = y['inner'][0]
                else: break
            v = self.val(x)
            if lit(v) is not None: return lit(v)
        raise Unsupported('enumerator %s' % nm)

    # casts -----------------------------------------------------------------------------------
    def e_ImplicitCastExpr(self, n): return self.cast(n)
    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def cast(self, n):
        ck = n.get('castKind')
        e = n['inner'][0]
        if ck in ('NoOp', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'ConstructorConversion', 'UserDefinedConversion', 'BuiltinFnToFnPtr'):
            return self.ev(e)
        if ck == 'LValueToRValue':
            v = self.ev(e)
            if isinstance(v, Loc): v = self.read(v)
            if isinstance(v, CharRef): return v.get(self)
            return v
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase'): return self.upcast(self.ev(e), n)
        if ck == 'BaseToDerived':
            v = self.ev(e)
            return self.downcast(v, n)
        if ck == 'IntegralCast':
            v = self.val(e)
            return self.int_conv(v, self.T.of_node(e), self.T.of_node(n))
        if ck in ('IntegralToFloating',):
            v = self.val(e)
            return self.coerce(v, REAL)
        if ck in ('FloatingCast',): return self.val(e)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return self.truth(self.ev(e))
        if ck == 'NullToPointer': return null
        if ck == 'ToVoid': self.ev(e); return None
        if ck == 'FloatingToIntegral':
            v = self.val(e)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        raise Unsupported('cast %s at %s' % (ck, self.ast.where(n)))

    def int_conv(self, v, src, dst):
        if isinstance(v, z3.ExprRef) and v.sort() == B: return z3.If(v, z3.IntVal(1), z3.IntVal(0)) if not z3.is_true(v) and not z3.is_false(v) else z3.IntVal(1 if z3.is_true(v) else 0)
        if dst is None or dst.k != 'int': 
            if dst is not None and dst.k == 'bool': return v != 0
            if dst is None: return v       # enumeration types keep their integer value
            raise Unsupported('integral cast to %s' % dst)
        w = wrap(v, dst)
        if w is not None: return w
        if src is not None and src.k == 'int':
            if not src.signed and (dst.bits > src.bits or (dst.bits == src.bits and not dst.signed)): return v
            if src.signed and dst.signed and dst.bits >= src.bits: return v
            if src.signed and not dst.signed and dst.bits >= src.bits: return self.name_int(z3.If(v >= 0, v, v + 2 ** dst.bits))
        m = 2 ** dst.bits
        if dst.signed: return self.name_int(z3.If(z3.And(v >= -(m // 2), v < m // 2), v, (v + m // 2) % m - m // 2))
        return self.name_int(z3.If(z3.And(v >= 0, v < m), v, v % m))

    def name_int(self, t):
        """resolve range conditionals that follow from the path condition"""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not has_bound_var(t):
            c = t.children()[0]
            s = z3.simplify(c)
            if z3.is_true(s): return t.children()[1]
            if z3.is_false(s): return t.children()[2]
            if solve.quick_unsat(self.relevant() + [z3.Not(c)], 150): return t.children()[1]
        return t
    def relevant(self): return self.axioms + self.st.pc

    def upcast(self, v, n):
        t = (n['type'].get('desugaredQualType') or n['type']['qualType'])
        if isinstance(v, Loc) and v.ty is not None and v.ty.k == 'rec':
            ty = self.T.parse(t)
            if ty is not None and ty.k == 'umap':
                sb = self.T.std_base(self.ast.recs[v.ty.rec])
                if sb: return v.f(sb[0], sb[1])
            if ty is not None and ty.k == 'rec' : return Loc(v.root, v.steps, v.ty if self.keep_exact(v) else ty)
            return v
        if isinstance(v, z3.ExprRef) and v.sort() == Ref:
            ty = self.T.parse(t)
            if ty is not None and ty.k == 'ptr' and ty.a[0].k == 'umap': raise Unsupported('pointer to std base')
            if t.rstrip().endswith('*') and 'std::unordered_map' in t:
                sb = self.std_base_of_expr(n['inner'][0])
                if sb: return LocPtr(Loc(('H', v), (('f', sb[0]),), sb[1]))
        if isinstance(v, LocPtr):
            if 'unordered_map' in t:
                l = v.loc; sb = self.T.std_base(self.ast.recs[l.ty.rec])
                return LocPtr(l.f(sb[0], sb[1]))
        return v
    def keep_exact(self, v): return v.root[0] == 'L' or bool(v.steps)
    def std_base_of_expr(self, e):
        t = self.T.of_node(e)
        if t is not None and t.rec: return self.T.std_base(self.ast.recs[t.rec])

    def downcast(self, v, n):
        ty = self.T.of_node(n)
        if isinstance(v, Loc):
            if v.root[0] == 'H' and not v.steps:
                self.safety('static_cast', self.isa(v.root[1], ty.rec), n)
                return Loc(v.root, v.steps, ty)
            raise Unsupported('static downcast of a local')
        if isinstance(v, z3.ExprRef) and v.sort() == Ref:
            rec = ty.rec
            if rec and not v.eq(null): self.safety('static_cast', z3.Or(v == null, self.isa(v, rec)), n)
            return v
        raise Unsupported('static downcast')

    def e_CXXDynamicCastExpr(self, n):
        v = self.val(n['inner'][0]) if not isinstance(self.T.of_node(n), type(None)) and self.T.of_node(n).k == 'ref' else self.ev(n['inner'][0])
        ty = self.T.of_node(n)
        if isinstance(v, LocPtr): raise Unsupported('dynamic_cast of an embedded object')
        if isinstance(v, z3.ExprRef) and v.sort() == Ref and ty.k == 'ref': return self.dyn_cast(v, ty.rec)
        raise Unsupported('dynamic_cast to reference')

    def dyn_cast(self, v, rec):
        if rec is None: raise Unsupported('dynamic_cast to unknown class')
        if v.eq(null): return null
        c = self.isa(v, rec)
        if not self.known_nonnull(v): c = z3.And(v != null, c)
        return v if self.choose(c) else null

    # operators ---------------------------------------------------------------------------------
    def e_UnaryOperator(self, n):
        op = n['opcode']; e = n['inner'][0]
        if op == '*':
            v = self.ev(e)
            if isinstance(v, FuncRef): return v
            return self.deref(v, n, self.T.of_node(n))
        if op == '&':
            v = self.ev(e)
            if isinstance(v, Loc): 
                st = v.steps
                if st and st[-1][0] == 'i':
                    cont = Loc(v.root, st[:-1], None)
                    ct = self.cont_ty(v)
                    if ct is not None: return Ptr(Loc(v.root, st[:-1], ct), st[-1][1])
                return self.addr(v)
            if isinstance(v, PairRef): return Opaque('pairptr', v)
            if isinstance(v, FuncRef): return v
            raise Unsupported('address of %r' % (v,))
        if op == '!': return z3.Not(self.cond(e))
        if op == '-':
            v = self.val(e)
            if isinstance(v, (SV, Expr2, MapView)): return self.eig_un(lambda x: -x, v)
            ty = self.T.of_node(n)
            r = z3.simplify(-v)
            return self.uwrap(r, ty)
        if op == '+': return self.val(e)
        if op == '~':
            v = self.val(e); ty = self.T.of_node(n)
            if ty is None or ty.k != 'int': ty = UINT
            x = lit(v)
            if x is not None: return wrap(z3.IntVal(~x), ty)
            r = self.fresh('compl', I); self.range_fact(r, ty)
            for k in BITS: self.fact(bitf(r, k) == z3.Not(bitf(v, k)))
            return r
        if op in ('++', '--'):
            d = 1 if op == '++' else -1
            loc = self.ev(e)
            old = self.read(loc)
            new = self.step_value(old, d, self.T.of_node(n), n)
            self.write(loc, new) if not isinstance(new, (Ptr, EnumPtr)) else self.set_local(loc, new)
            return old if n.get('isPostfix') else loc
        raise Unsupported('operator %s' % op)

    def cont_ty(self, loc):
        return loc.cty if loc.cty is not None and loc.cty.k in ('vec', 'arr') else None

    def set_local(self, loc, v):
        if loc.root[0] == 'L' and not loc.steps:
            self.st.loc[loc.root[1]] = v
            if self.st.log is not None: self.st.log.setdefault(('L', loc.root[1]), set()).add(())
        elif loc.root[0] == 'H':
            self.st.optr[self._okey(loc)] = v
            if self.st.log is not None: self.st.log.setdefault(('O', self._okey(loc)), True)
        else: raise Unsupported('pointer in a structure')

    def step_value(self, old, d, ty, node):
        if isinstance(old, Ptr): return Ptr(old.cont, z3.simplify(old.idx + d))
        if isinstance(old, EnumPtr): return EnumPtr(old.cont, old.enum, old.n, z3.simplify(old.idx + d))
        if isinstance(old, z3.ExprRef) and old.sort() in (I, R): return self.uwrap(z3.simplify(old + d), ty)
        raise Unsupported('increment of %r' % (old,))

    def uwrap(self, r, ty):
        """reduce the result of an arithmetic operation to its type (unsigned wrap-around; signed overflow is assumed absent)"""
        if ty is None or ty.k != 'int' or r.sort() != I: return r
        w = wrap(r, ty)
        if w is not None: return w if not ty.signed else r
        if ty.signed: return r
        m = 2 ** ty.bits
        return self.name_int(z3.If(z3.And(r >= 0, r < m), r, r % m))

    def e_BinaryOperator(self, n):
        op = n['opcode']; a, b = n['inner']
        if op == '=':
            # C++17: the right operand is sequenced before the left one
            v = self.val(b); loc = self.ev(a)
            return self.assign(loc, v, n)
        if op == ',': self.ev(a); return self.ev(b)
        if op == '&&':
            if not self.choose(self.cond(a)): return F_
            return self.cond(b)
        if op == '||':
            if self.choose(self.cond(a)): return T_
            return self.cond(b)
        x = self.val(a); y = self.val(b)
        return self.binop(op, x, y, self.T.of_node(n), n)

    def assign(self, loc, v, n=None):
        if isinstance(loc, CharRef): loc.set(self, v); return loc
        if isinstance(loc, MapView): self.view_assign(loc, v, n); return loc
        if not isinstance(loc, Loc): raise Unsupported('assignment to %r' % (loc,))
        if isinstance(v, (Ptr, EnumPtr, LocPtr, MapIt)): 
            self.set_local(loc, v); return loc
        if isinstance(v, Opaque) and v.tag == 'nullopt':
            self.write(loc, self.default(loc.ty)); return loc
        self.write(loc, v)
        return loc

    def binop(self, op, x, y, ty, n):
        if isinstance(x, (SV, Expr2, MapView)) or isinstance(y, (SV, Expr2, MapView)): return self.lib_binop(op, x, y, n)
        if isinstance(x, (Ptr, EnumPtr, MapIt, LocPtr)) or isinstance(y, (Ptr, EnumPtr, MapIt, LocPtr)): return self.ptr_binop(op, x, y, n)
        if not (isinstance(x, z3.ExprRef) and isinstance(y, z3.ExprRef)): raise Unsupported('operator %s on %r, %r' % (op, x, y))
        sx, sy = x.sort(), y.sort()
        if op in ('==', '!=') and (sx == B or sy == B) and sx != sy:
            if sx == B: x = z3.If(x, z3.IntVal(1), z3.IntVal(0))
            else: y = z3.If(y, z3.IntVal(1), z3.IntVal(0))
            sx = sy = I
        if sx == R and sy == I: y = self.coerce(y, REAL)
        elif sx == I and sy == R: x = self.coerce(x, REAL)
        if op == '==': return x == y if x.sort() != B else x == y
        if op == '!=': return x != y
        if x.sort() == B and op in ('&', '|', '^'):
            return {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](x, y)
        if op in ('<', '>', '<=', '>='):
            if x.sort() == Ref: raise Unsupported('pointer order')
            return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
        if x.sort() == R:
            if op == '+': return x + y
            if op == '-': return x - y
            if op == '*': return x * y
            if op == '/':
                if z3.is_rational_value(x) and z3.is_rational_value(y) and y.as_fraction() != 0: return z3.RealVal(str(x.as_fraction() / y.as_fraction()))
                return x / y
        if x.sort() == I:
            if op == '+': return self.uwrap(z3.simplify(x + y), ty)
            if op == '-': return self.uwrap(z3.simplify(x - y), ty)
            if op == '*': return self.uwrap(z3.simplify(x * y), ty)
            if op in ('/', '%'):
                self.safety('division', y != 0, n)
                if ty is not None and ty.k == 'int' and not ty.signed: return x / y if op == '/' else x % y
                q = z3.If(x >= 0, z3.If(y > 0, x / y, -(x / -y)), z3.If(y > 0, -((-x) / y), (-x) / (-y)))
                return q if op == '/' else x - q * y
            if op in ('|', '&', '^'): return self.bitop(op, x, y, ty)
            if op in ('<<', '>>'):
                a, b = lit(x), lit(y)
                if b is not None:
                    if op == '<<': return self.uwrap(z3.simplify(x * (1 << b)), ty)
                    return z3.simplify(x / (1 << b))
        raise Unsupported('operator %s on %s' % (op, x.sort()))

    def bitop(self, op, x, y, ty):
        a, b = lit(x), lit(y)
        f = {'|': lambda p, q: p | q, '&': lambda p, q: p & q, '^': lambda p, q: p ^ q}[op]
        if a is not None and b is not None: return z3.IntVal(f(a, b))
        r = self.fresh('bits', I)
        self.range_fact(r, ty if ty is not None and ty.k == 'int' else UINT)
        g = {'|': z3.Or, '&': z3.And, '^': z3.Xor}[op]
        for k in BITS: self.fact(bitf(r, k) == g(bitf(x, k), bitf(y, k)))
        if op == '&' and (a is not None or b is not None):
            m = a if a is not None else b; v = y if a is not None else x
            bits = [bitf(v, k) for k in BITS if (m >> k) & 1]
            if m >= 0 and m & ~sum(1 << k for k in BITS) == 0 and bin(m).count('1') <= 4:
                self.fact(r == z3.Sum([z3.IntVal(0)] + [z3.If(bitf(v, k), z3.IntVal(1 << k), z3.IntVal(0)) for k in BITS if (m >> k) & 1]))
            if m & ~sum(1 << k for k in BITS) == 0: self.fact((r != 0) == (z3.Or(*bits) if bits else F_))
            else: self.fact(z3.Implies(z3.Or(*bits) if bits else F_, r != 0))
        return r

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        b = self.val(n['inner'][1])
        loc = self.ev(n['inner'][0])
        if isinstance(loc, CharRef) or isinstance(loc, MapView): raise Unsupported('compound assignment to a view')
        a = self.read(loc)
        ty = self.T.of_node(n)
        if isinstance(a, (Ptr, EnumPtr)):
            v = self.ptr_binop(op, a, b, n)
            self.set_local(loc, v)
            return loc
        ct = n.get('computeResultType', {})
        cty = self.T.parse(ct.get('desugaredQualType') or ct.get('qualType', '')) if ct else ty
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            if a.sort() == B and op in ('|', '&', '^') and b.sort() in (B, I):
                bb = b if b.sort() == B else b != 0
                v = {'|': z3.Or, '&': z3.And, '^': z3.Xor}[op](a, bb)
                self.write(loc, v); return loc
            if a.sort() == B: a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
            if b.sort() == B: b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
            v = self.binop(op, a, b, cty, n)
            if ty is not None and ty.k == 'int' and v.sort() == I: v = self.int_conv(v, cty, ty)
            if ty is not None and ty.k == 'bool': v = v != 0
            if v.sort() == R and ty is not None and ty.k == 'int': raise Unsupported('float to int assignment')
            self.write(loc, v)
            return loc
        raise Unsupported('compound assignment %s' % op)

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        if self.choose(self.cond(c)): return self.ev(a)
        return self.ev(b)

    def e_CXXThrowExpr(self, n):
        if not n.get('inner'):
            if not getattr(self, 'catching', ()): raise Unsupported('rethrow')
            raise self.catching[-1]
        q = n['inner'][0]['type'].get('desugaredQualType') or n['inner'][0]['type'].get('qualType', '')
        raise ThrowEx({'std::runtime_error': 'pooya', 'std::out_of_range': 'out_of_range'}.get(q, 'throw'), self.ast.where(n))

    def e_ArraySubscriptExpr(self, n):
        p = self.val(n['inner'][0]); i = self.val(n['inner'][1])
        if isinstance(p, Ptr): return self.deref(Ptr(p.cont, z3.simplify(p.idx + i)), n)
        raise Unsupported('subscript')

    # members -----------------------------------------------------------------------------------
    def base_loc(self, n):
        """location designated by the base of a member expression"""
        b = n['inner'][0]
        v = self.ev(b)
        if n.get('isArrow'):
            if isinstance(v, Loc): v = self.read(v)
            if isinstance(v, z3.ExprRef) and v.sort() == Ref:
                rec = None
                r = self.ast.rec_of.get(n.get('referencedMemberDecl')) or self.ast.rec_of.get(self.ast.canon.get(n.get('referencedMemberDecl')))
                t = self.T.of_node(b)
                if t is not None and t.rec: rec = t.rec
                elif r is not None: rec = r.name
                if rec is None: raise Unsupported('arrow on untyped pointer')
                if not self.known_nonnull(v): self.safety('null', v != null, n)
                return Loc(('H', v), (), Ty('rec', rec=rec))
            return self.deref(v, n)
        if isinstance(v, SV): return self.new_local(v, v.ty)
        return v

    def field_loc(self, base, f):
        ft = self.T.field_type(f)
        l = base.f(self.ast.qname[f['id']], ft)
        if self.T.is_ref_type(f):
            v = self.read(l)
            if isinstance(v, LocPtr): return v.loc
            if ft.k == 'ref' and ft.rec: return Loc(('H', v), (), Ty('rec', rec=ft.rec))
            raise Unsupported('reference member %s' % f.get('name'))
        return l

    def e_MemberExpr(self, n):
        m = n.get('referencedMemberDecl')
        d = self.ast.decl.get(m)
        if d is not None and d.get('kind') in KIND_FN: return FuncRef({'id': m, 'name': d.get('name'), 'kind': d['kind']})
        if d is not None and d.get('kind') == 'VarDecl':
            return self.e_DeclRefExpr({'referencedDecl': {'id': m, 'kind': 'VarDecl', 'name': d.get('name')}, 'kind': 'DeclRefExpr'})
        base = self.base_loc(n)
        nm = n.get('name')
        if isinstance(base, Loc) and base.root[0] == 'L' and not base.steps and isinstance(self.st.loc.get(base.root[1]), PairRef): base = self.st.loc[base.root[1]]
        if isinstance(base, PairRef):
            if nm == 'first': return base.first if isinstance(base.first, Loc) else self.new_local(base.first, None)
            if nm == 'second': return base.second
        if isinstance(base, Opaque) and base.tag == 'inserted':
            if nm == 'second': return base.data[1]
            if nm == 'first': return base.data[0]
        if isinstance(base, Loc) and base.ty is not None and base.ty.k == 'pair' and nm in ('first', 'second'):
            return base.f(nm, base.ty.a[0 if nm == 'first' else 1])
        if m in self.ast.qname and d is not None and d.get('kind') == 'FieldDecl' and isinstance(base, Loc):
            return self.field_loc(base, d)
        raise Unsupported('member %s of %r at %s' % (nm, base, self.ast.where(n)))

    def qualified(self, me):
        """is the member named with an explicit qualifier (non-virtual call)?"""
        r = me.get('range', {}); e = r.get('end', {})
        b = me['inner'][0] if me.get('inner') else None
        full = self.ast.text(me)
        if not full: return False
        bt = ''
        y = b
        while y is not None and y.get('kind') == 'ImplicitCastExpr': y = y['inner'][0]
        if y is not None and y.get('kind') == 'CXXThisExpr' and y.get('implicit'): return '::' in full
        if b is not None and not (b.get('kind') == 'CXXThisExpr' and b.get('implicit')):
            x = b
            bt = self.ast.text(x)
            if bt and full.startswith(bt) and len(bt) < len(full): return '::' in full[len(bt):]
            if b.get('kind') != 'CXXThisExpr' : 
                # base covers an implicit this inside (Base::_s_out.x): compare the tail only
                return '::' in full.rsplit('.', 1)[-1] if '.' in full or '->' in full else False
        return '::' in full

    # calls -------------------------------------------------------------------------------------
    def arg(self, a, p=None):
        if a.get('kind') == 'CXXDefaultArgExpr': return None
        return self.ev(a)

    def args_of(self, nodes): return [self.arg(a) for a in nodes]

    def is_pooya(self, i):
        q = self.ast.qname.get(i)
        return q is not None and q.startswith('pooya::')

    def e_CXXMemberCallExpr(self, n):
        callee = n['inner'][0]
        while callee.get('kind') in ('ParenExpr', 'ImplicitCastExpr'): callee = callee['inner'][0]
        if callee.get('kind') != 'MemberExpr': raise Unsupported('member pointer call')
        m = callee.get('referencedMemberDecl'); nm = callee.get('name')
        argn = n['inner'][1:]
        if self.is_tracer(callee['inner'][0]): return None
        if m in self.ast.decl and self.is_pooya(m):
            this = self.base_loc(callee)
            if isinstance(this, PairRef): raise Unsupported('method of a map entry')
            if not isinstance(this, Loc): raise Unsupported('method %s of %r' % (nm, this))
            args = self.args_of(argn)
            rec = self.ast.rec_of.get(m) or self.ast.rec_of.get(self.ast.canon.get(m))
            return self.invoke(m, this, args, n, virtual_ok=not self.qualified(callee))
        b = callee['inner'][0]
        v = self.ev(b)
        if callee.get('isArrow'):
            if isinstance(v, Loc): v = self.read(v)
            if isinstance(v, LocPtr): v = v.loc
            elif isinstance(v, z3.ExprRef) and v.sort() == Ref and nm == 'shared_from_this': return v
            elif isinstance(v, z3.ExprRef) and v.sort() == Ref:
                t = self.T.of_node(b)
                if t is not None and t.k == 'ptr': 
                    if not self.known_nonnull(v): self.safety('null', v != null, n)
                    v = Loc(('H', v), (('f', 'pointee'),), t.a[0])
                elif t is not None and t.rec and self.T.std_base(self.ast.recs[t.rec]):
                    sb = self.T.std_base(self.ast.recs[t.rec]); v = Loc(('H', v), (('f', sb[0]),), sb[1])
                else: raise Unsupported('library method %s through pointer at %s' % (nm, self.ast.where(n)))
        return self.lib_method(nm, v, argn, n, callee)

    def e_CXXOperatorCallExpr(self, n):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        d = c.get('referencedDecl', {})
        i = d.get('id'); nm = d.get('name')
        argn = n['inner'][1:]
        if nm == 'operator()' :
            f = self.ev(argn[0])
            if isinstance(f, Loc) and (f.ty is None or f.ty.k == 'fn'): f = self.read(f)
            if isinstance(f, Closure): return self.call_closure(f, self.args_of(argn[1:]), n, i)
            if isinstance(f, z3.ExprRef) and f.sort() == Fn: return self.call_fnval(f, self.args_of(argn[1:]), n)
            return self.lib_operator(nm, [f] + [self.ev(a) for a in argn[1:]], n)
        if i in self.ast.decl and self.is_pooya(i):
            dd = self.ast.decl[i]
            if dd['kind'] == 'CXXMethodDecl':
                if nm == 'operator=':
                    a1 = [self.arg(argn[1])]       # right operand first (C++17)
                    this = self.as_loc(self.ev(argn[0]))
                    args = a1
                else:
                    this = self.as_loc(self.ev(argn[0]))
                    args = self.args_of(argn[1:])
                df = self.ast.def_of(i)
                if (df or dd).get('explicitlyDefaulted') or (df is None and dd.get('isImplicit')):
                    if nm == 'operator=':
                        v = args[0]
                        if isinstance(v, Loc): v = self.read(v)
                        if isinstance(v, SV) and this.ty.rec != v.ty.rec: v = self.slice(v, this.ty)
                        self.write(this, v); return this
                return self.invoke(i, this, args, n)
            args = self.args_of(argn)
            return self.invoke(i, None, args, n)
        if nm == 'operator=':
            v = self.ev(argn[1]); l = self.ev(argn[0])
            return self.lib_operator(nm, [l, v], n)
        return self.lib_operator(nm, [self.ev(a) for a in argn], n)

    def as_loc(self, v):
        if isinstance(v, Loc): return v
        if isinstance(v, SV): return self.new_local(v, v.ty)
        raise Unsupported('object expected, got %r' % (v,))

    def e_CallExpr(self, n):
        c = n['inner'][0]
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
        argn = n['inner'][1:]
        if c.get('kind') == 'MemberExpr':
            if self.is_tracer(c['inner'][0]) or 'PooyaTracer' in str(self.ast.qname.get(c.get('referencedMemberDecl'))): return None
            i = c.get('referencedMemberDecl')
            return self.invoke(i, None, self.args_of(argn), n)
        d = c.get('referencedDecl', {})
        i = d.get('id'); nm = d.get('name')
        q = self.ast.qname.get(i)
        if nm == 'pooya_throw_exception' and not self.contracts.get('verify_throw'):
            self.used_contracts.add('pooya::helper::pooya_throw_exception')
            raise ThrowEx('pooya', self.ast.where(n))
        if nm == 'pooya_show_warning': return None
        if i in self.ast.decl and q is not None and q.startswith('pooya::'):
            return self.invoke(i, None, self.args_of(argn), n)
        if c.get('kind') == 'DeclRefExpr' and i in self.frame.env:
            raise Unsupported('function pointer call')
        return self.lib_call(nm, argn, n, c)

    def call_closure(self, f, args, n, inst=None):
        rec = f.node['inner'][0]
        m = self.lambda_method(rec, inst)
        env = dict(f.env)
        params = self.ast.params(m)
        fr = Frame(m, f.this, env)
        self.frames.append(fr)
        try:
            self.bind(params, args, env, m)
            try:
                self.stmt(self.ast.body(m)); rv = None
            except ReturnEx as r: rv = r.v
        finally: self.frames.pop()
        if rv is not None and not self.return_is_ref(m) and isinstance(rv, Loc): rv = self.read(rv)
        return rv

    def lambda_method(self, rec, inst=None):
        """the operator() of a closure; for a generic lambda the instantiation the call refers to"""
        for c in rec.get('inner', []):
            if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()': return c
            if c.get('kind') == 'FunctionTemplateDecl' and c.get('name') == 'operator()':
                ms = [x for x in c['inner'] if x.get('kind') == 'CXXMethodDecl']
                if len(ms) == 2: return ms[1]
                for m in ms[1:]:
                    if inst is not None and m.get('id') == inst: return m
                raise Unsupported('generic lambda with %d instantiations' % (len(ms) - 1))
        raise Unsupported('lambda body')

    def e_LambdaExpr(self, n):
        rec = n['inner'][0]
        fields = [c for c in rec.get('inner', []) if c.get('kind') == 'FieldDecl']
        inits = n['inner'][1:1 + len(fields)]
        env = {}; this = None
        for f, e in zip(fields, inits):
            x = e
            while x.get('kind') not in ('DeclRefExpr', 'CXXThisExpr') and x.get('inner'): x = x['inner'][0]
            if x.get('kind') == 'CXXThisExpr': this = self.frame.this; continue
            if x.get('kind') != 'DeclRefExpr': raise Unsupported('lambda capture')
            i = x['referencedDecl']['id']
            src = self.frame.env.get(i)
            if src is None: raise Unsupported('capture of %s' % x['referencedDecl'].get('name'))
            if f['type']['qualType'].strip().endswith('&'): env[i] = src
            else: env[i] = self.new_local(self.read(src), src.ty)
        return Closure(n, env, this if this is not None else self.frame.this)

    def call_fnval(self, f, args, n):
        if f.decl().name() in self.st.closures: return self.call_closure(self.st.closures[f.decl().name()], args, n)
        h = self.contracts.get('callback')
        if h is None: raise Unsupported('call of an unknown function value at %s' % self.ast.where(n))
        self.safety('empty function', f != fnnull, n)
        self.used_contracts.add('callback')
        return h(self, f, args, n)

    # construction ------------------------------------------------------------------------------
    def e_CXXConstructExpr(self, n): return self.ev_construct(n, None)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def ev_construct(self, n, target):
        ty = self.T.of_node(n)
        argn = n.get('inner', [])
        ct = n.get('ctorType', {}).get('qualType', '')
        if ty is not None and ty.k == 'rec':
            # copy / move of the same class
            args = self.args_of(argn)
            if target is None:
                target = self.new_local(self.fresh_sv('uninit', ty), ty)
            if target.ty is not None and target.ty.k == 'rec' and target.ty.rec != ty.rec and not self.ast.subclass(target.ty.rec, ty.rec):
                # e.g. a ValidName field initialised by conversion handled by the caller
                raise Unsupported('construct %s in %s' % (ty, target.ty))
            self.construct(ty.rec, ct, args, Loc(target.root, target.steps, ty), n)
            return target
        v = self.lib_construct(ty, ct, argn, n)
        return v

    def e_CXXNewExpr(self, n):
        t = self.T.of_node(n)
        inner = [x for x in n.get('inner', []) if x.get('kind')]
        if n.get('isArray') or n.get('isPlacement') or len(inner) != 1: raise Unsupported('expression CXXNewExpr')
        args = []; t = self.T.of_node(inner[0])
        if t is None or not t.rec: raise Unsupported('expression CXXNewExpr of %s' % t)
        for x in inner:
            if x.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): args = self.args_of(x.get('inner', []))
            else: raise Unsupported('initialiser of a new expression')
        return self.new_object(t.rec, args)

    def e_InitListExpr(self, n):
        ty = self.T.of_node(n)
        elems = [x for x in n.get('inner', []) if x.get('kind')]
        if n.get('valueCategory') in ('lvalue', 'xvalue') and len(elems) == 1: return self.ev(elems[0])
        if ty is not None and ty.k == 'vec': return self.make_vec(ty, [self.val(x) for x in elems])
        q = n.get('type', {}).get('qualType', '')
        m = re.match(r'^(const )?(.*?)\s*\[(\d+)\]$', (n['type'].get('desugaredQualType') or q)) or re.match(r'^(const )?(.*?)\s*\[(\d+)\]$', q)
        if m:
            et = self.T.parse(m.group(2))
            return self.make_vec(Ty('vec', (et,)), [self.val(x) for x in elems])
        if ty is not None and ty.k == 'rec':
            loc = self.new_local(self.fresh_sv('uninit', ty), ty)
            fl = self.ast.all_fields(self.ast.recs[ty.rec])
            for (r, f), e in zip(fl, elems): self.init_loc(loc.f(self.ast.qname[f['id']], self.T.field_type(f)), e)
            return loc
        if not elems and ty is not None: return self.zero(ty)
        if len(elems) == 1: return self.ev(elems[0])
        raise Unsupported('initialiser list of %s' % n.get('type'))

    def e_CXXStdInitializerListExpr(self, n):
        v = self.ev(n['inner'][0])
        if isinstance(v, Loc): v = self.read(v)
        return v

    def make_vec(self, ty, vals):
        et = ty.a[0]
        lv = {('#len',): z3.IntVal(len(vals))}
        for p, s, t in self.T.leaves(ty):
            if p == ('#len',): continue
            a = self.fresh('il', s)
            sub = p[1:]
            for i, v in enumerate(vals):
                if isinstance(v, SV):
                    if sub not in v.lv: 
                        raise Unsupported('initialiser element %s' % v.ty)
                    x = v.lv[sub]
                elif isinstance(v, Closure): x = self.closure_const(v)
                elif isinstance(v, (LocPtr, Ptr)): x = self.ptr_const(v)
                else: x = self.coerce(v, et)
                a = z3.Store(a, z3.IntVal(i), x)
            lv[p] = a
        return SV(ty, lv)

    def to_variant(self, v, ty):
        """convert a value to the variant alternative with its sort"""
        def alt(i, val):
            sv = self.fresh_sv('var', ty)
            up = {('#idx',): z3.IntVal(i)}
            if isinstance(val, SV):
                for p, x in val.lv.items(): up[('alt%d' % i,) + p] = x
            else: up[('alt%d' % i,)] = val
            return sv.with_(up)
        for i, t in enumerate(ty.a):
            if isinstance(v, SV) and t.k == v.ty.k: return alt(i, v)
            if isinstance(v, z3.ExprRef):
                s = v.sort()
                if (t.k == 'real' and s == R) or (t.k == 'int' and s == I) or (t.k == 'bool' and s == B): return alt(i, v)
        raise Unsupported('variant from %r' % (v,))

class CharRef:
    """reference to a character of a string location"""
    def __init__(self, cont, idx): self.cont = cont; self.idx = idx
    def get(self, ex):
        s = ex.read(self.cont)
        t = str_at(s, self.idx)
        if not has_bound_var(t): ex.fact(z3.And(t >= -128, t < 128))
        return t
    def set(self, ex, v):
        s = ex.read(self.cont)
        n = ex.fresh('str', Str)
        j = z3.Const('q:j', I)
        ex.fact(str_len(n) == str_len(s))
        ex.fact(str_at(n, self.idx) == v)
        ex.fact(z3.ForAll([j], z3.Implies(j != self.idx, str_at(n, j) == str_at(s, j)), patterns=[str_at(n, j)]))
        ex.write(self.cont, n)
import sys as _s
from . import lib as _lib
_lib.CharRef = CharRef
