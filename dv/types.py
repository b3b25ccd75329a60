"""C++ types as seen by the verifier, and their flattening into solver sorts."""
import re
import z3
from .cxxast import split_targs, Unsupported

Ref = z3.DeclareSort('Ref')
Str = z3.DeclareSort('Str')
Fn = z3.DeclareSort('Fn')
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
null = z3.Const('null', Ref)

class Ty:
    __slots__ = ('k', 'a', 'bits', 'signed', 'rec', '_lv')
    def __init__(self, k, a=(), bits=0, signed=True, rec=None):
        self.k = k; self.a = tuple(a); self.bits = bits; self.signed = signed; self.rec = rec; self._lv = None
    def __repr__(self):
        if self.k == 'int': return '%sint%d' % ('' if self.signed else 'u', self.bits)
        if self.k == 'rec': return self.rec
        return self.k + ('<%s>' % ','.join(map(str, self.a)) if self.a else '') + (('*' + str(self.rec)) if self.rec and self.k == 'ref' else '')
    def key(self): return repr(self)
    def __eq__(self, o): return isinstance(o, Ty) and repr(self) == repr(o)
    def __hash__(self): return hash(repr(self))

REAL = Ty('real'); BOOL = Ty('bool'); VOID = Ty('void'); STR = Ty('str'); FN = Ty('fn'); OPAQUE = Ty('opaque')
INT = Ty('int', bits=32); UINT = Ty('int', bits=32, signed=False); U16 = Ty('int', bits=16, signed=False)
SIZE = Ty('int', bits=64, signed=False); LONG = Ty('int', bits=64); CHAR = Ty('int', bits=8); U8 = Ty('int', bits=8, signed=False)
ARR = Ty('arr'); MAT = Ty('mat')
REF = Ty('ref')

INTS = {'int': INT, 'unsigned int': UINT, 'unsigned': UINT, 'uint': UINT, 'uint32_t': UINT, 'std::uint32_t': UINT, 'uint16_t': U16, 'std::uint16_t': U16,
        'unsigned short': U16, 'short': Ty('int', bits=16), 'unsigned long': SIZE, 'size_t': SIZE, 'std::size_t': SIZE, 'size_type': SIZE,
        'long': LONG, 'Index': LONG, 'Eigen::Index': LONG, 'char': CHAR, 'unsigned char': U8, 'uint8_t': U8, 'long long': LONG,
        'unsigned long long': SIZE, 'ptrdiff_t': LONG, 'std::ptrdiff_t': LONG, 'difference_type': LONG, 'int64_t': LONG, 'uint64_t': SIZE, 'int32_t': INT,
        'std::streamsize': LONG}

def strip(t):
    t = t.strip()
    t = re.sub(r'\b(const|volatile|typename|class|struct|enum|constexpr)\b', '', t).strip()
    while t.endswith('&'): t = t[:-1].strip()
    return re.sub(r'\s+', ' ', t)

class Types:
    def __init__(self, ast):
        self.ast = ast
        self.cache = {}

    def of_node(self, node):
        """type of an AST node (references stripped)"""
        t = node.get('type', {})
        d = t.get('desugaredQualType'); q = t.get('qualType', '')
        for s in ([d] if d else []) + [q]:
            ty = self.parse(s)
            if ty is not None: return ty
        return None

    def is_ref_type(self, node):
        t = node.get('type', {})
        s = t.get('qualType', '').strip()
        d = (t.get('desugaredQualType') or s).strip()
        return s.endswith('&') or d.endswith('&')

    def parse(self, s):
        s0 = s
        if s in self.cache: return self.cache[s]
        ty = self._parse(strip(s))
        self.cache[s0] = ty
        return ty

    def _parse(self, s):
        m = re.match(r'^(?:typename\s+)?((?:pooya::)?Types<.*>)::(SignalImpl|Signal|GetValue|SetValue)$', s)
        if m and self.ast:
            q = self.ast.rec_name(m.group(1)) or self.ast.rec_name('pooya::' + m.group(1).replace('pooya::', ''))
            if q:
                for c in self.ast.recs[q].node.get('inner', []):
                    if c.get('kind') == 'TypeAliasDecl' and c.get('name') == m.group(2):
                        return self.parse(c['type'].get('desugaredQualType') or c['type']['qualType'])
            return None
        if s in ('double', 'float', 'Scalar', 'long double'): return REAL
        if s == 'bool': return BOOL
        if s == 'void': return VOID
        if s in INTS: return INTS[s]
        if s.endswith('SignalLinkType'): return UINT
        if s.endswith('*'):
            inner = s[:-1].strip()
            t = self._parse(strip(inner))
            if t is not None and t.k == 'rec': return Ty('ref', rec=t.rec)
            if t is not None and t.k in ('real', 'int', 'vec', 'arr', 'pair', 'mat', 'bool'): return Ty('ptr', (t,))
            return Ty('ref')
        if re.match(r'^(std::)?(__cxx11::)?(string|basic_string<char.*>|string_view|basic_string_view<char.*>)$', s): return STR
        if s in ('std::nullptr_t', 'nullptr_t'): return REF
        m = re.match(r'^([\w:]+)\s*<(.*)>$', s)
        if m:
            b, args = m.group(1), split_targs(m.group(2))
            short = b.split('::')[-1]
            if b.startswith('pooya::') or (self.ast and self.ast.rec_name(s)):
                q = self.ast.rec_name(s)
                if q: return Ty('rec', rec=q)
            if short in ('shared_ptr', 'weak_ptr', 'unique_ptr', '__shared_ptr', '__shared_ptr_access'):
                t = self.parse(args[0])
                return Ty('ref', rec=t.rec if t is not None and t.k == 'rec' else None)
            if short in ('vector', 'initializer_list', 'list', 'deque'):
                t = self.parse(args[0])
                return Ty('vec', (t,)) if t is not None else None
            if short == 'pair':
                a, c = self.parse(args[0]), self.parse(args[1])
                return Ty('pair', (a, c)) if a is not None and c is not None else None
            if short == 'optional':
                t = self.parse(args[0]); return Ty('opt', (t,)) if t is not None else None
            if short == 'variant':
                ts = [self.parse(x) for x in args]
                return Ty('variant', ts) if all(t is not None for t in ts) else None
            if short in ('unordered_set', 'set'):
                return Ty('uset', (self.parse(args[0]),))
            if short in ('unordered_map', 'map'):
                return Ty('umap', (self.parse(args[0]), self.parse(args[1])))
            if short == 'function': return FN
            if short == 'Array' and (b in ('Array', 'Eigen::Array')):
                if args[2:3] == ['1'] or (len(args) > 2 and args[2] == '1'): return ARR
                return MAT
            if short == 'Matrix':
                return MAT if args[1:3] == ['-1', '-1'] else ARR
            if short in ('basic_ofstream', 'basic_ostream', 'basic_stringstream', 'basic_ostringstream'): return Ty('stream')
            return None
        if s in ('pooya::Array', 'Array', 'Eigen::ArrayXd', 'ArrayXd'): return ARR
        if s in ('Eigen::MatrixXd', 'MatrixXd'): return MAT
        if s in ('std::ofstream', 'std::ostream', 'std::stringstream', 'std::ostringstream', 'ofstream', 'ostream', 'stringstream'): return Ty('stream')
        if self.ast:
            q = self.ast.rec_name(s)
            if q: return Ty('rec', rec=q)
        return None

    # flattening --------------------------------------------------------------------------------
    def sort_of_key(self, ty):
        if ty is None: raise Unsupported('key type')
        if ty.k in ('ref', 'ptr'): return Ref
        if ty.k == 'str': return Str
        if ty.k == 'int': return I
        raise Unsupported('key type %s' % ty)

    def leaves(self, ty):
        """list of (path tuple, sort, leaf Ty)"""
        if ty is None: raise Unsupported('unknown type')
        if ty._lv is not None: return ty._lv
        k = ty.k
        if k == 'real': r = [((), R, ty)]
        elif k == 'bool': r = [((), B, ty)]
        elif k == 'int': r = [((), I, ty)]
        elif k in ('ref', 'ptr'): r = [((), Ref, ty)]
        elif k == 'str': r = [((), Str, ty)]
        elif k == 'fn': r = [((), Fn, ty)]
        elif k == 'vec':
            r = [(('#len',), I, SIZE)] + [(('[]',) + p, z3.ArraySort(I, s), t) for p, s, t in self.leaves(ty.a[0])]
        elif k == 'arr':
            r = [(('#len',), I, LONG), (('[]',), z3.ArraySort(I, R), REAL)]
        elif k == 'mat':
            r = [(('#rows',), I, LONG), (('#cols',), I, LONG), (('[]',), z3.ArraySort(I, z3.ArraySort(I, R)), REAL)]
        elif k == 'pair':
            r = [(('first',) + p, s, t) for p, s, t in self.leaves(ty.a[0])] + [(('second',) + p, s, t) for p, s, t in self.leaves(ty.a[1])]
        elif k == 'opt':
            r = [(('#has',), B, BOOL)] + [(('val',) + p, s, t) for p, s, t in self.leaves(ty.a[0])]
        elif k == 'variant':
            r = [(('#idx',), I, INT)]
            for i, t in enumerate(ty.a):
                r += [(('alt%d' % i,) + p, s, tt) for p, s, tt in self.leaves(t)]
        elif k == 'uset':
            r = [(('#has',), z3.ArraySort(self.sort_of_key(ty.a[0]), B), BOOL), (('#size',), I, SIZE)]
        elif k == 'umap':
            ks = self.sort_of_key(ty.a[0])
            r = [(('#has',), z3.ArraySort(ks, B), BOOL), (('#size',), I, SIZE)]
            r += [(('[]',) + p, z3.ArraySort(ks, s), t) for p, s, t in self.leaves(ty.a[1])]
        elif k == 'rec':
            r = []
            rec = self.ast.recs[ty.rec]
            for rr in reversed(self.ast.mro(rec)):
                for sb in rr.std_bases:
                    bt = self.parse(sb)
                    if bt is not None and bt.k == 'umap':
                        r += [((rr.name + '::$base',) + p, s, t) for p, s, t in self.leaves(bt)]
                for f in rr.fields:
                    ft = self.field_type(f)
                    r += [((self.ast.qname[f['id']],) + p, s, t) for p, s, t in self.leaves(ft)]
        elif k in ('opaque', 'stream', 'void'): r = []
        else: raise Unsupported('type %s' % ty)
        ty._lv = r
        return r

    def field_type(self, f):
        ty = self.of_node(f)
        if ty is None: raise Unsupported('field type %s' % f.get('type'))
        if self.is_ref_type(f):
            return Ty('ref', rec=ty.rec) if ty.k == 'rec' else Ty('ptr', (ty,))
        return ty

    def std_base(self, rec):
        for rr in self.ast.mro(rec):
            for sb in rr.std_bases:
                bt = self.parse(sb)
                if bt is not None and bt.k == 'umap': return rr.name + '::$base', bt
        return None
