"""Index over clang's JSON AST: declarations by id, qualified names, classes, fields, overrides."""
import os, re
from .extract import load_ast, REPO

class Unsupported(Exception):
    """a construct or library function outside the verifier's reach (never reported as a violation)"""

KIND_REC = ('CXXRecordDecl', 'ClassTemplateSpecializationDecl')
KIND_FN = ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')

def norm_targ(s):
    s = s.strip()
    s = re.sub(r'\b(class|struct|enum) ', '', s)
    if re.match(r'^(Eigen::)?Array<double, -1, 1(, 0, -1, 1)?>$', s) or s in ('pooya::Array', 'Array'):
        return 'Array'
    if s.startswith('pooya::'):
        return s[7:]
    return s

class Rec:
    def __init__(self, name, node):
        self.name = name; self.node = node; self.bases = []; self.fields = []; self.methods = []; self.ctors = []
        self.std_bases = []; self.is_class_def = True
    def __repr__(self): return 'Rec(%s)' % self.name

class AST:
    def __init__(self, docs=None, dropped=None):
        if docs is None:
            docs, dropped = load_ast()
        self.docs = docs; self.dropped = dropped or []
        self.decl = {}      # id -> node
        self.qname = {}     # id -> qualified name
        self.rec_of = {}    # id of method/field -> Rec
        self.recs = {}      # qualified name (with template args) -> Rec
        self.rec_by_id = {}
        self.fn_by_q = {}   # qualified name -> list of nodes (one per overload, definitions preferred)
        self._files = {}
        self.tdefaults = {}
        self._fix_locs()
        for d in self.docs:
            self._index(d, [], None)
        self._resolve_out_of_line()
        self._bases()
        self._overrides()

    # source text -------------------------------------------------------------------------------
    def _fix_locs(self):
        for d in self.docs:
            cur = [None]
            stack = [d]
            def walk(o):
                if isinstance(o, dict):
                    if 'offset' in o:
                        if 'file' in o: cur[0] = o['file']
                        else: o['file'] = cur[0]
                    for k, v in o.items():
                        if k == 'includedFrom': continue
                        if isinstance(v, (dict, list)): walk(v)
                elif isinstance(o, list):
                    for v in o: walk(v)
            import sys
            sys.setrecursionlimit(100000)
            walk(d)

    def text(self, node):
        r = node.get('range', {})
        b, e = r.get('begin', {}), r.get('end', {})
        if 'spellingLoc' in b: b = b['spellingLoc']
        if 'spellingLoc' in e: e = e['spellingLoc']
        if 'offset' not in b or 'offset' not in e or b.get('file') != e.get('file') or not b.get('file'):
            return ''
        f = b['file']
        if f not in self._files:
            p = f if os.path.isabs(f) else os.path.join(REPO, f)
            try: self._files[f] = open(p, 'rb').read()
            except OSError: self._files[f] = b''
        return self._files[f][b['offset']:e['offset'] + e.get('tokLen', 0)].decode('latin1')

    def where(self, node):
        r = node.get('range', {}).get('begin', {}) or node.get('loc', {})
        if 'expansionLoc' in r: r = r['expansionLoc']
        f = r.get('file') or '?'
        off = r.get('offset')
        line = '?'
        if off is not None:
            self.text(node)
            if f not in self._files:
                p = f if os.path.isabs(f) else os.path.join(REPO, f)
                try: self._files[f] = open(p, 'rb').read()
                except OSError: self._files[f] = b''
            line = self._files[f].count(b'\n', 0, off) + 1
        return '%s:%s' % (f.replace('./', ''), line)

    # indexing ----------------------------------------------------------------------------------
    def _index(self, n, scope, rec):
        k = n.get('kind')
        if k is None: return
        i = n.get('id')
        if i and (k.endswith('Decl')) and i not in self.decl:
            self.decl[i] = n
        if k == 'ClassTemplateDecl':
            d = []
            for c in n.get('inner', []):
                if c.get('kind') in ('TemplateTypeParmDecl', 'NonTypeTemplateParmDecl'):
                    da = c.get('defaultArg', {}).get('type', {})
                    d.append(da.get('desugaredQualType') or da.get('qualType'))
            if any(d): self.tdefaults[n.get('name')] = d
            for c in n.get('inner', []):
                ck = c.get('kind')
                if ck in ('CXXRecordDecl',):
                    c['_pattern'] = True
                    self._index_pattern(c)
                    continue
                self._index(c, scope, rec)
            return
        if k == 'ClassTemplatePartialSpecializationDecl':
            return
        if k == 'FunctionTemplateDecl':
            first = True
            for c in n.get('inner', []):
                if c.get('kind') in KIND_FN:
                    if first:  # the pattern
                        first = False
                        self.decl[c['id']] = c; c['_pattern'] = True
                        if rec is not None: pass
                        continue
                    c['_inst'] = True
                    self._index(c, scope, rec)
            return
        if k in KIND_REC:
            nm = n.get('name')
            if nm is None and not n.get('definitionData', {}).get('isLambda'):
                nm = '(anon)'
            if nm is not None:
                if k == 'ClassTemplateSpecializationDecl':
                    args = [self._targ(c) for c in n.get('inner', []) if c.get('kind') == 'TemplateArgument']
                    nm = nm + '<' + ','.join(args) + '>'
                q = '::'.join(scope + [nm])
                self.qname[i] = q
                if n.get('completeDefinition') or any(c.get('kind') in ('FieldDecl', 'CXXMethodDecl', 'CXXConstructorDecl') for c in n.get('inner', [])):
                    r = Rec(q, n)
                    if q not in self.recs or not self.recs[q].fields:
                        self.recs[q] = r
                    self.rec_by_id[i] = r
                    for c in n.get('inner', []):
                        self._index(c, scope + [nm], r)
            else:
                for c in n.get('inner', []):
                    self._index(c, scope + ['(lambda)'], None)
            return
        if k == 'NamespaceDecl':
            sc = scope + ([n['name']] if n.get('name') else [])
            for c in n.get('inner', []):
                self._index(c, sc, None)
            return
        if k == 'FieldDecl' and rec is not None:
            q = rec.name + '::' + (n.get('name') or '')
            self.qname[i] = q; self.rec_of[i] = rec
            rec.fields.append(n)
        if k in KIND_FN:
            pr = rec
            sc = list(scope)
            if pr is None and n.get('parentDeclContextId') in self.rec_by_id:
                pr = self.rec_by_id[n['parentDeclContextId']]
            if pr is not None:
                self.rec_of[i] = pr
                (pr.ctors if k == 'CXXConstructorDecl' else pr.methods).append(n)
                sc = [pr.name]
            q = '::'.join(sc + [n.get('name', '')])
            self.qname[i] = q
            self.fn_by_q.setdefault(q, []).append(n)
        for c in n.get('inner', []):
            if isinstance(c, dict):
                self._index_sub(c, scope)

    def _index_pattern(self, n):
        if n.get('id'): self.decl.setdefault(n['id'], n)

    def _index_sub(self, n, scope):
        """declarations nested in function bodies (locals, lambdas)"""
        k = n.get('kind')
        if k is None: return
        if n.get('id') and k.endswith('Decl'):
            self.decl.setdefault(n['id'], n)
        for c in n.get('inner', []):
            if isinstance(c, dict): self._index_sub(c, scope)

    def _targ(self, c):
        if 'type' in c:
            return norm_targ(c['type'].get('desugaredQualType') or c['type']['qualType'])
        if 'value' in c: return str(c['value'])
        return '?'

    def _resolve_out_of_line(self):
        self.definition = {}
        prev = {}
        for q, fns in self.fn_by_q.items():
            for n in fns:
                if n.get('previousDecl'): prev[n['id']] = n['previousDecl']
        def root(i):
            seen = set()
            while i in prev and i not in seen:
                seen.add(i); i = prev[i]
            return i
        self.canon = {}
        for q, fns in self.fn_by_q.items():
            for n in fns:
                r = root(n['id'])
                self.canon[n['id']] = r
                if self.body(n) is not None or n.get('explicitlyDefaulted') or n['kind'] == 'CXXConstructorDecl' and self.body(n) is not None:
                    self.definition[r] = n
                if r in self.rec_of and n['id'] not in self.rec_of:
                    self.rec_of[n['id']] = self.rec_of[r]
                if r in self.qname:
                    self.qname[n['id']] = self.qname[r]
        # re-key functions by the qualified name of their canonical declaration
        out = {}
        for q, fns in self.fn_by_q.items():
            for n in fns:
                out.setdefault(self.qname[n['id']], [])
                if n not in out[self.qname[n['id']]]: out[self.qname[n['id']]].append(n)
        self.fn_by_q = out

    def body(self, n):
        for c in n.get('inner', []):
            if c.get('kind') == 'CompoundStmt': return c
        return None

    def def_of(self, i):
        r = self.canon.get(i, i)
        return self.definition.get(r)

    def _bases(self):
        for r in set(self.recs.values()) | set(self.rec_by_id.values()):
            for b in r.node.get('bases', []):
                t = b['type'].get('desugaredQualType') or b['type']['qualType']
                q = self.rec_name(t)
                if q in self.recs: r.bases.append(self.recs[q])
                else: r.std_bases.append(t)

    def rec_name(self, t):
        """qualified record name (key of self.recs) of a type string, or None"""
        t = re.sub(r'\b(const|volatile|class|struct|typename)\b', '', t).strip().rstrip('&').strip()
        m = re.match(r'^([\w:]+)\s*(<.*>)?$', t)
        if not m: return None
        base, args = m.group(1), m.group(2)
        if args:
            parts = split_targs(args[1:-1])
            nm = base + '<' + ','.join(self._norm_arg(p) for p in parts) + '>'
        else:
            nm = base
        for cand in (nm, 'pooya::' + nm, 'pooya::helper::' + nm):
            if cand in self.recs: return cand
        # default template arguments are not printed by clang
        if args:
            short = base.split('::')[-1]
            dfl = self.tdefaults.get(short, [])
            k = len(split_targs(nm[nm.index('<') + 1:-1]))
            if k < len(dfl):
                full = nm[:-1] + ''.join(',' + self._norm_arg(d) for d in dfl[k:] if d) + '>'
                for cand in (full, 'pooya::' + full):
                    if cand in self.recs: return cand
        return None

    def _norm_arg(self, p):
        p = norm_targ(p)
        m = re.match(r'^([\w:]+)<(.*)>$', p)
        if m and m.group(1) not in ('Eigen::Array',):
            b = m.group(1)
            if b.startswith('pooya::'): b = b[7:]
            q = b + '<' + ','.join(self._norm_arg(x) for x in split_targs(m.group(2))) + '>'
            return q
        return p

    def mro(self, rec):
        out = [rec]
        for b in rec.bases: out += [x for x in self.mro(b) if x not in out]
        return out

    def all_fields(self, rec):
        out = []
        for b in rec.bases: out += self.all_fields(b)
        return out + [(rec, f) for f in rec.fields]

    def subclass(self, a, b):
        return b in [x.name for x in self.mro(self.recs[a])]

    def _overrides(self):
        pass

    def sig(self, n):
        return n.get('type', {}).get('qualType', '')

    def params(self, n):
        return [c for c in n.get('inner', []) if c.get('kind') == 'ParmVarDecl']

    def is_virtual(self, n):
        """is the method virtual (declared so here or in a base)?"""
        if n.get('virtual'): return True
        rec = self.rec_of.get(n['id']) or self.rec_of.get(self.canon.get(n['id']))
        if rec is None: return False
        c = self.decl.get(self.canon.get(n['id'], n['id']), n)
        if c.get('virtual'): return True
        for b in self.mro(rec)[1:]:
            for m in b.methods:
                if m.get('name') == n.get('name') and m.get('virtual') and len(self.params(m)) == len(self.params(n)):
                    return True
        return False

    def find_method(self, rec, name, nparams=None):
        """most derived definition of a method, looking upwards from rec"""
        for r in self.mro(rec):
            for m in r.methods:
                if m.get('name') == name and (nparams is None or len(self.params(m)) == nparams):
                    d = self.def_of(m['id'])
                    return d if d is not None else m
        return None

    def functions(self, q):
        """definitions with this qualified name"""
        seen = []; out = []
        for n in self.fn_by_q.get(q, []):
            d = self.def_of(n['id'])
            if d is not None and d['id'] not in seen:
                seen.append(d['id']); out.append(d)
        return out

def split_targs(s):
    out = []; depth = 0; cur = ''
    for ch in s:
        if ch in '<(': depth += 1
        if ch in '>)': depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
