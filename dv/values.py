"""Runtime values of the symbolic executor."""
import z3

class SV:
    """structured value: leaf path -> term"""
    __slots__ = ('ty', 'lv')
    def __init__(self, ty, lv): self.ty = ty; self.lv = lv
    def __repr__(self): return 'SV(%s)' % self.ty
    def get(self, *path): return self.lv[tuple(path)]
    def with_(self, upd):
        d = dict(self.lv); d.update(upd); return SV(self.ty, d)

class Loc:
    """lvalue: root ('L', uid) or ('H', ref term), steps ('f', name) / ('i', index term) / ('j', second index of a matrix entry), type of the designated object"""
    __slots__ = ('root', 'steps', 'ty', 'cty')
    def __init__(self, root, steps, ty, cty=None): self.root = root; self.steps = tuple(steps); self.ty = ty; self.cty = cty
    def f(self, name, ty): return Loc(self.root, self.steps + (('f', name),), ty)
    def i(self, idx, ty): return Loc(self.root, self.steps + (('i', idx),), ty, self.ty)
    def same(self, o):
        if self.root[0] != o.root[0] or len(self.steps) != len(o.steps): return False
        if self.root[0] == 'L' and self.root[1] != o.root[1]: return False
        if self.root[0] == 'H' and not self.root[1].eq(o.root[1]): return False
        for a, b in zip(self.steps, o.steps):
            if a[0] != b[0]: return False
            if a[0] == 'f' and a[1] != b[1]: return False
            if a[0] in ('i', 'j') and not a[1].eq(b[1]): return False
        return True
    def __repr__(self): return 'Loc(%s,%s:%s)' % (self.root, self.steps, self.ty)

class LocPtr:
    def __init__(self, loc): self.loc = loc
    def __repr__(self): return 'LocPtr(%r)' % self.loc

class Ptr:
    """iterator / pointer into the elements of a container location"""
    def __init__(self, cont, idx): self.cont = cont; self.idx = idx
    def __repr__(self): return 'Ptr(%r,%s)' % (self.cont, self.idx)

class EnumPtr:
    """iterator of an unordered container: position in a ghost enumeration of its keys"""
    def __init__(self, cont, enum, n, idx): self.cont = cont; self.enum = enum; self.n = n; self.idx = idx

class MapIt:
    """result of map.find: key (valid) or end"""
    def __init__(self, cont, key, valid): self.cont = cont; self.key = key; self.valid = valid

class PairRef:
    def __init__(self, first, second): self.first = first; self.second = second

class Closure:
    def __init__(self, node, env, this, ex_frame=None):
        self.node = node; self.env = env; self.this = this; self.frame = ex_frame
    def __repr__(self): return 'Closure(%s)' % self.node.get('id')

class FuncRef:
    def __init__(self, decl): self.decl = decl

class Opaque:
    def __init__(self, tag, data=None): self.tag = tag; self.data = data
    def __repr__(self): return 'Opaque(%s)' % self.tag

class MapView:
    """Eigen::Map<Array>(ptr, n) / row(k) / head... : an assignable view"""
    def __init__(self, kind, loc, a=None, b=None): self.kind = kind; self.loc = loc; self.a = a; self.b = b

class Expr2:
    """Eigen array-valued expression (lazy, elementwise): length term and python function index -> term.
    deps: lvalue operands with their contents when they were read; they must be the same when the expression is evaluated"""
    def __init__(self, n, at, *parts):
        self.n = n; self.at = at
        self.deps = tuple(d for p in parts for d in (p.deps if isinstance(p, Expr2) else (p,)))

class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class PathEnd(Exception): pass
class ThrowEx(Exception):
    def __init__(self, what, where=''): self.what = what; self.where = where

_forall = z3.ForAll
def forall(vs, body, **kw):
    """a quantified fact; a pattern that is no pattern for the current terms (it contains a conditional) is left to the solver"""
    def bad(p): return any(z3.is_app(t) and (t.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT)) for t in sub(p))
    def sub(p):
        todo = [p]; seen = set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id()); yield t
            todo += t.children()
    ps = [p for p in kw.get('patterns', []) if not bad(p)] if not any(isinstance(p, z3.PatternRef) for p in kw.get('patterns', [])) else kw['patterns']
    return _forall(vs, body, **{**kw, 'patterns': ps})
z3.ForAll = forall
