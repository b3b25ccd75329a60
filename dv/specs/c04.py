"""C04: names are emended character by character and compose into full paths."""
from .common import *
VN = 'pooya::ValidName'; NM = VN + '::_name'
emendf = z3.Function('valid_form', Str, Str)     # specification function: the valid form of a string

def okc(c): return z3.Or(z3.And(c >= 97, c <= 122), z3.And(c >= 65, c <= 90), z3.And(c >= 48, c <= 57), c == 95)
def vc(c): return z3.If(okc(c), c, z3.IntVal(95))

def k_emend(e, this, args, node):
    """contract of ValidName::emend(string_view): returns the valid form (proved below); emend(ValidName) is executed"""
    v = e.read(args[0]) if isinstance(args[0], Loc) else args[0]
    if isinstance(v, z3.ExprRef) and v.sort() == Str: return emendf(v)
    return NotImplemented
EM = {VN + '::emend': k_emend}

def hint(L):
    """over every string changed by the loop and every position counter: the part before the counter is emended, the rest untouched"""
    out = []
    s0 = z3.Const('arg:name', Str)
    j = z3.Const('q:j', I)
    for c, g, desc, info in L.syms:
        if c.sort() != Str: continue
        out.append(('length kept', str_len(c) == str_len(s0)))
        for k in L.counters:
            out.append(('prefix emended', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k.cur), str_at(c, j) == vc(str_at(s0, j))), patterns=[str_at(c, j)])))
            out.append(('suffix untouched', z3.ForAll([j], z3.Implies(z3.And(j >= k.cur), str_at(c, j) == str_at(s0, j)), patterns=[str_at(c, j)])))
            out.append(('built so far', str_len(c) == k.cur))
            out.append(('in range', z3.And(k.cur >= 0, k.cur <= str_len(s0))))
        out.append(('emended so far', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < str_len(c)), str_at(c, j) == vc(str_at(s0, j))), patterns=[str_at(c, j)])))
    for k in L.counters: out.append(('in range', z3.And(k.cur >= 0, k.cur <= str_len(s0))))
    return out

@target('C04', 'ValidName::emend', covers=('ret',), hints=[hint], alt_axioms=lambda e: STR_AX)
def emend(e):
    s = e.sym('name', STR)
    pre = e.snap()
    k, v = e.call(VN + '::emend', None, [s], sig='string_view')
    must_return(e, k)
    e.prove('same length', str_len(v) == str_len(s))
    i = sk('i', I)
    e.prove('every character is kept or replaced', z3.Implies(z3.And(i >= 0, i < str_len(s)), str_at(v, i) == vc(str_at(s, i))))
    frame_same(e, 'emend', pre); e.cover('ret')

@target('C04', 'lemma: the valid form of a valid name is itself', covers=('ret',))
def idem(e):
    c = sk('c', I)
    e.prove('a valid character is kept', z3.Implies(okc(c), vc(c) == c))
    e.prove('the replacement is valid', okc(vc(c))); e.cover('ret')

@target('C04', 'ValidName::ValidName(string_view)', covers=('ret',), contracts=EM)
def vctor(e):
    o = e.new(VN); s = e.sym('name', STR)
    k, v = e.call(VN + '::ValidName', o, [s], sig='string_view')
    must_return(e, k)
    k, v = e.call(VN + '::str', o, [])
    e.prove('str() is the valid form', (e.read(v) if isinstance(v, Loc) else v) == emendf(s)); e.cover('ret')

@target('C04', 'ValidName::operator=(string_view)', covers=('ret',), contracts=EM)
def vasg(e):
    o = e.this(VN); s = e.sym('name', STR); pre = e.snap()
    k, v = e.call(VN + '::operator=', o, [s], sig='string_view')
    must_return(e, k)
    e.prove('holds the valid form', e.get(o, NM) == emendf(s))
    frame_other(e, o, pre, [(NM,)]); e.cover('ret')

def mkop(op, sep, argt):
    def t(e):
        o = e.this(VN); pre = e.snap(); l = e.get(o, NM)
        if argt == 'name':
            b = e.new_local(e.sym('n', rec(VN)), rec(VN)); want = e.read(b).lv[(NM,)]
        else:
            x = e.sym('s', STR); b = e.new_local(x, STR); want = emendf(x)
        k, v = e.call(VN + '::operator' + op, o, [b], sig={'name': 'ValidName &', 'str': 'string'}[argt])
        must_return(e, k)
        v = e.read(v) if isinstance(v, Loc) else v
        e.prove('left name, separator, valid form of the right', v.lv[(NM,)] == str_cat(str_cat(l, str_lit(sep)), want))
        frame_same(e, 'operator', pre); e.cover('ret')
    target('C04', 'ValidName::operator%s(%s)' % (op, argt), covers=('ret',), contracts=EM)(t)
for op, sep in (('|', '.'), ('/', '/')):
    for a in ('name', 'str'): mkop(op, sep, a)

NO = 'pooya::NamedObject'; NN = (NAME, NM)
@target('C04', 'NamedObject::rename', covers=('ret',), contracts=EM)
def ren(e):
    o = e.this(NO, exact=False); s = e.sym('name', STR); pre = e.snap()
    k, v = e.call(NO + '::rename', o, [s])
    must_return(e, k)
    e.prove('stores the valid form', e.get(o, NAME).lv[(NM,)] == emendf(s))
    frame_other(e, o, pre, [NN])
    k, v = e.call(NO + '::name', o, [])
    v = e.read(v) if isinstance(v, Loc) else v
    e.prove('name() reports it', v.lv[(NM,)] == emendf(s)); e.cover('ret')

BL = 'pooya::Block'
fullf = z3.Function('full_name_of', Ref, Str)
def k_full(e, this, args, node):
    """contract of the recursive call on the parent"""
    r = this.root[1]
    return SV(rec(VN), {(NM,): fullf(r)})
PAR = 'pooya::Block::_parent'
@target('C04', 'Block::full_name', covers=('root', 'child'), contracts=dict(EM))
def full(e):
    o = e.this(BL, exact=False)
    n = e.get(o, NAME).lv[(NM,)]; p = e.get(o, PAR)
    pre = e.snap()
    depth = [0]
    def k(e2, this, args, node):
        return k_full(e2, this, args, node)
    fs = e.ast.functions(BL + '::full_name')
    e.contracts[BL + '::full_name'] = k
    try: v = e.call_fn(fs[0], o, [])
    except ThrowEx: e.prove('returns without exception', F_); return
    finally: e.contracts.pop(BL + '::full_name', None)
    v = e.read(v) if isinstance(v, Loc) else v
    got = v.lv[(NM,)]
    frame_same(e, 'full_name', pre)
    if e.choose(p == null):
        e.prove('a root: slash and own name', got == str_cat(str_lit('/'), n)); e.cover('root')
    else:
        e.prove('a child: the parent full name, slash, own name', got == str_cat(str_cat(fullf(p), str_lit('/')), n)); e.cover('child')

@target('C04', 'Block::Block', covers=('ret',), contracts=EM)
def bctor(e):
    o = e.new(BL); s = e.sym('name', STR)
    k, v = e.call(BL + '::Block', o, [null, s, z3.IntVal(0), z3.IntVal(0)], nparams=4)
    must_return(e, k)
    e.prove('the block stores the valid form', e.get(o, NAME).lv[(NM,)] == emendf(s)); e.cover('ret')
