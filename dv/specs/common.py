"""Vocabulary shared by the specifications."""
import json, os
from ..spec import *

SI = 'pooya::SignalImpl'; VS = 'pooya::ValueSignalImpl'
ASG = VS + '::_assigned'
PTR = 'pooya::Signal::_ptr'
NAME = 'pooya::NamedObject::_name'

_known = None
def known_field(key):
    """is the heap key made of fields that existed when the specifications were written (a new field cannot be mentioned by them)"""
    global _known
    if _known is None:
        p = os.path.join(os.path.dirname(os.path.dirname(__file__)), 'known_fields.json')
        _known = set(json.load(open(p))) if os.path.exists(p) else None
    if not _known: return True
    return all(k in _known or k.startswith('ghost::') for k in key if '::' in k)

def hget(e, key, st):
    a = st.heap.get(key)
    if a is None:
        for s in (e.st, st):
            if key in s.heap: return z3.Const('H:' + '/'.join(key), s.heap[key].sort())
    return a

def frame_same(e, name, pre, except_keys=()):
    """no memory outside the given keys changed"""
    ex = {tuple(k) for k in except_keys}
    for k in sorted(set(e.st.heap) | set(pre.heap)):
        if k in ex or not known_field(k): continue
        a = e.st.heap.get(k); b = pre.heap.get(k)
        if a is None or b is None:
            x = a if a is not None else b
            d = z3.Const('H:' + '/'.join(k), x.sort())
            a = a if a is not None else d; b = b if b is not None else d
        if not a.eq(b):
            r = z3.Const('sk:r', Ref)
            # objects allocated by the call are not part of the caller's state
            e.prove('%s: nothing else changes in %s' % (name, '/'.join(k)), z3.Implies(aid(r) <= pre.alloc, z3.Select(a, r) == z3.Select(b, r)))

def frame_obj(e, name, objs, pre, keys, free=()):
    """only the given fields of the given objects (references) changed"""
    ks = {tuple(k) for k in keys}
    frame_same(e, name, pre, ks | {tuple(k) for k in free})
    r = z3.Const('sk:r', Ref)
    for k in sorted(ks):
        if k in e.st.heap:
            a = e.st.heap[k]; b = pre.heap.get(k)
            if b is None: b = z3.Const('H:' + '/'.join(k), a.sort())
            e.prove('%s: only the object itself changes in %s' % (name, '/'.join(k)),
                    z3.Implies(z3.And(aid(r) <= pre.alloc, *[r != o for o in objs]), z3.Select(a, r) == z3.Select(b, r)))

def frame_other(e, s, pre, keys): frame_obj(e, 'frame', [s.root[1]], pre, keys)

def rec(q): return Ty('rec', rec=q)
def sk(name, sort): return z3.Const('sk:' + name, sort)

TYPES = {'double': ('ScalarSignal', REAL, '_scalar_value'), 'int': ('IntSignal', INT, '_int_value'),
         'bool': ('BoolSignal', BOOL, '_bool_value'), 'Array': ('ArraySignal', ARR, '_array_value')}
def impl(T): return 'pooya::' + TYPES[T][0] + 'Impl'
def vkey(T): return impl(T) + '::' + TYPES[T][2]

def must_return(e, k, what='returns'): e.prove('%s without exception' % what, z3.BoolVal(k == 'ret'))

def arr_eq(a, b, i=None):
    """pointwise equality of two array values at a skolem index (also the lengths)"""
    i = sk('i', I) if i is None else i
    n = a.lv[('#len',)]
    return z3.And(n == b.lv[('#len',)], z3.Implies(z3.And(i >= 0, i < n), select(a.lv[('[]',)], i) == select(b.lv[('[]',)], i)))

def same_val(e, T, a, b):
    if T == 'Array':
        a = e.read(a) if isinstance(a, Loc) else a; b = e.read(b) if isinstance(b, Loc) else b
        if isinstance(a, Expr2): a = e.force(a)
        if isinstance(b, Expr2): b = e.force(b)
        return arr_eq(a, b)
    a = e.read(a) if isinstance(a, Loc) else a
    return a == b

AV = 'pooya::ArraySignalImpl::_array_value'; ASZ = 'pooya::FloatSignalImplT<Array>::_size'
def arr_inv(e, r, st=None):
    """class invariant of array signals: the stored array has the signal's size (proved for constructor and set_value in C01)"""
    o = Loc(('H', r), (), rec('pooya::ArraySignalImpl'))
    return e.get(o, AV, st).lv[('#len',)] == e.get(o, ASZ, st)
