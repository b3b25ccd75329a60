"""Loops: concrete unrolling while the condition is literal, otherwise an inductive cut.

The modified locations are discovered by executing one iteration from an arbitrary state; they are replaced by fresh
symbols; candidate invariants (bounds of counters, differences of counters, preserved prefixes, frames, and the hints
of the specification) are formulas over those symbols.  A candidate is kept only if the solver proves it on entry and
proves that one arbitrary iteration preserves it assuming the kept ones (Houdini)."""
import z3, time
from .engine import *
from .values import *
from .cxxast import Unsupported
from . import solve
from .types import *

UNROLL = 40

class LoopCtx:
    """what a specification hint sees: the engine is in the havoced head state"""
    def __init__(self, eng, node, name, pre):
        self.eng = eng; self.node = node; self.name = name; self.pre = pre
        self.fn = None; self.items = []; self.counters = []
    def var(self, nm, st=None):
        """value of a local variable of the current function by name (None if there is none)"""
        loc = self.varloc(nm)
        return None if loc is None else self.eng.read(loc, st)
    def varloc(self, nm):
        for fr in reversed(self.eng.frames):
            for i, loc in fr.env.items():
                d = self.eng.ast.decl.get(i)
                if d is not None and d.get('name') == nm: return loc
        return None

class Counter:
    def __init__(self, desc, cur, pre, cont=None): self.desc = desc; self.cur = cur; self.pre = pre; self.cont = cont

class Loops:
    solver_ms = 3000
    lib_hints = []

    def literal_cond(self, node):
        """while(true) / for(;;)"""
        k = node.get('kind')
        if k == 'ForStmt': c = node['inner'][2]
        elif k == 'WhileStmt': c = node['inner'][0]
        else: return False
        while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups'): c = c['inner'][0]
        return c.get('kind') in ('CXXBoolLiteralExpr', 'IntegerLiteral') or not c.get('kind')

    def probe(self, cond):
        """literal value of the condition in the current state, or None"""
        self.quiet += 1
        log = self.st.log
        try:
            save = self.st
            self.st = save.copy(); self.st.log = None
            try: rs = self.explore(lambda: z3.simplify(cond()), 'probe')
            finally: self.st = save
        except (ThrowEx, ReturnEx): return None
        finally:
            self.quiet -= 1
            self.st.log = log
        if len(rs) != 1: return None
        v = rs[0][0]
        if z3.is_true(v): return True
        if z3.is_false(v): return False
        return None

    def loop(self, node, cond, inc, body, name='loop', post=False):
        symbolic = cond is None or self.literal_cond(node) or post
        n = 0
        while not symbolic:
            v = self.probe(cond)
            if v is None: break
            self.choose_free(cond)
            if v is False: return
            if not self.run_body(body): return
            if inc: inc()
            n += 1
            if n > UNROLL: raise Unsupported('loop with more than %d literal iterations' % UNROLL)
        self.cut(node, cond, inc, body, name, post)

    def choose_free(self, cond):
        cond()

    def run_body(self, body):
        """-> False if the loop was left by break"""
        try:
            body()
        except BreakEx: return False
        except ContinueEx: pass
        return True

    def iteration(self, cond, inc, body, post):
        """one iteration; returns 'next' or 'exit'"""
        if post:
            if not self.run_body(body): return 'exit'
            if inc: inc()
            return 'next' if self.choose(cond()) else 'exit'
        if cond is not None and not self.choose(cond()): return 'exit'
        if not self.run_body(body): return 'exit'
        if inc: inc()
        return 'next'

    def explore_iter(self, cond, inc, body, post, tag, log=None):
        """quietly explore one iteration from the current state; -> list of end states of 'next' paths"""
        self.quiet += 1
        def go():
            if log is not None: self.st.log = {}
            try:
                r = self.iteration(cond, inc, body, post)
            except (ThrowEx, ReturnEx): r = 'leave'
            if log is not None and r == 'next':
                # what a path that leaves the loop writes is not part of the state between two iterations
                for k, v in self.st.log.items():
                    if isinstance(v, dict): log.setdefault(k, {'sort': v['sort'], 'refs': []})['refs'].extend(v['refs'])
                    elif isinstance(v, set): log.setdefault(k, set()).update(v)
                    else: log[k] = v
            return r, self.st
        try:
            rs = self.explore(go, tag)
        finally: self.quiet -= 1
        return [s for (r, s), _ in rs if r == 'next']

    # modified locations ----------------------------------------------------------------------------
    def ref_stable(self, r, n0):
        """does the term only mention symbols that existed before the loop"""
        seen = set(); stk = [r]
        while stk:
            x = stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): return False
            if z3.is_const(x):
                nm = x.decl().name()
                if '!' in nm:
                    t = nm.rsplit('!', 1)[1]
                    if t.isdigit() and int(t) > n0: return False
            stk.extend(x.children())
        return True

    def mod_items(self, log, pre, n0):
        """normalised modification set: list of ('L',uid) / ('H',key,sort,refs or None) / ('A',)"""
        items = []
        for k in sorted(log, key=lambda k: repr(k[:2]) if k[0] != 'O' else repr(k)):
            v = log[k]
            if k[0] == 'L':
                if k[1] in pre.loc: items.append(('L', k[1]))
            elif k[0] == 'H':
                refs = []; stable = True
                for r in v['refs']:
                    if r is None or not self.ref_stable(r, n0):
                        # writes to objects allocated inside the iteration do not touch older objects, but the map changes
                        stable = False; break
                    if not any(r.eq(q) for q in refs): refs.append(r)
                items.append(('H', k[1], v['sort'], tuple(refs) if stable else None))
            elif k[0] == 'A': items.append(('A',))
            elif k[0] == 'O': items.append(k)
        return items

    def item_key(self, it):
        if it[0] == 'H': return ('H', it[1], None if it[3] is None else tuple(sorted(str(r) for r in it[3])))
        return it[:2]

    def havoc(self, items, pre):
        """replace the modified locations by fresh symbols in the current state; -> list of (const, getter(state), desc, info)"""
        st = self.st
        syms = []
        for it in items:
            if it[0] == 'L':
                uid = it[1]; v = pre.loc[uid]
                def mk(uid, v):
                    if isinstance(v, z3.ExprRef):
                        c = self.fresh('h:' + self.uid_name(uid), v.sort())
                        syms.append((c, (lambda s, uid=uid: s.loc[uid]), self.uid_name(uid), ('L', uid, ())))
                        self.range_fact(c, pre.lty.get(uid))
                        return c
                    if isinstance(v, Ptr):
                        c = self.fresh('h:' + self.uid_name(uid), I)
                        def g(s, uid=uid, v=v):
                            w = s.loc[uid]
                            if not isinstance(w, Ptr) or not w.cont.same(v.cont): raise Unsupported('pointer changes its container in a loop')
                            return w.idx
                        syms.append((c, g, self.uid_name(uid), ('P', uid, v.cont)))
                        return Ptr(v.cont, c)
                    if isinstance(v, EnumPtr):
                        c = self.fresh('h:' + self.uid_name(uid), I)
                        def g(s, uid=uid, v=v):
                            w = s.loc[uid]
                            if not isinstance(w, EnumPtr) or not w.enum.eq(v.enum): raise Unsupported('container modified while iterated')
                            return w.idx
                        syms.append((c, g, self.uid_name(uid), ('E', uid, v)))
                        return EnumPtr(v.cont, v.enum, v.n, c)
                    if isinstance(v, SV):
                        lv = {}
                        for p, t in v.lv.items():
                            c = self.fresh('h:%s/%s' % (self.uid_name(uid), '/'.join(p)), t.sort())
                            lv[p] = c
                            def g(s, uid=uid, p=p):
                                w = s.loc[uid]
                                return w.lv[p]
                            syms.append((c, g, '%s/%s' % (self.uid_name(uid), '/'.join(p)), ('S', uid, p)))
                            if t.sort() == I: self.range_fact(c, None, p)
                        return SV(v.ty, lv)
                    return Opaque('havoc')
                st.loc[uid] = mk(uid, v)
            elif it[0] == 'H':
                key, sort, refs = it[1], it[2], it[3]
                old = self.heap_get(key, sort, pre)
                if refs is None:
                    c = self.fresh('h:H:' + '/'.join(key), sort)
                    st.heap[key] = c
                    syms.append((c, (lambda s, key=key, sort=sort: self.heap_get(key, sort, s)), 'H:' + '/'.join(key), ('HM', key, sort)))
                else:
                    a = old
                    for r in refs:
                        c = self.fresh('h:%s' % '/'.join(key), sort.range())
                        a = store(a, r, c)
                        syms.append((c, (lambda s, key=key, sort=sort, r=r: select(self.heap_get(key, sort, s), r)), '%s@%s' % ('/'.join(key), r), ('HR', key, r)))
                        if sort.range() == I and key[-1] in ('#len', '#size', '#rows', '#cols'): self.range_fact(c, None, key)
                    st.heap[key] = a
            elif it[0] == 'A':
                a = self.fresh('alloc', I)
                self.assume(a >= pre.alloc)
                st.alloc = a
            elif it[0] == 'O':
                raise Unsupported('pointer field assigned in a loop')
            if self.st.log is not None: self.log_item(it, pre)
        return syms

    def log_item(self, it, pre):
        log = self.st.log
        if it[0] == 'L': log.setdefault(('L', it[1]), set()).add(())
        elif it[0] == 'H':
            d = log.setdefault(('H', it[1]), {'sort': it[2], 'refs': []})
            d['refs'].extend(it[3] if it[3] is not None else [None])
        elif it[0] == 'A': log.setdefault(('A',), True)

    def uid_name(self, uid):
        for fr in reversed(self.frames):
            for i, loc in fr.env.items():
                if isinstance(loc, Loc) and loc.root == ('L', uid) and not loc.steps:
                    d = self.ast.decl.get(i)
                    if d is not None: return d.get('name') or uid
        return uid

    # the cut ---------------------------------------------------------------------------------------
    def cut(self, node, cond, inc, body, name, post):
        if self.unroll:
            # bounded second opinion on an obligation that is not discharged: every path through at most `unroll` iterations, exactly
            for _ in range(self.unroll + 1):
                head = self.st.copy()
                if self.iteration(cond, inc, body, post) == 'exit': return
                if self.progress and self.judged(name, inc): self.progress(self, head, [])
            raise PathEnd()
        key = (node.get('id'), self.ctx, tuple(self.decisions[:self.pos]), self.st.n, len(self.frames))
        pre = self.st.copy()
        n0 = self.st.n
        cached = self.loop_cache.get(key)
        if cached is None:
            items = self.discover(node, cond, inc, body, post, pre, n0)
            # while only looking for modified locations an arbitrary state of an inner loop over-approximates
            kept = [] if self.discovering else self.infer(node, cond, inc, body, name, post, pre, items)
            self.loop_cache[key] = (items, kept)
        else: items, kept = cached
        # main path: arbitrary iteration
        syms = self.havoc(items, pre)
        for d, f in kept: self.assume(f)
        self.st.loops += 1
        head = self.st.copy() if self.progress else None
        r = self.iteration(cond, inc, body, post)
        if r == 'exit': return
        if self.progress and self.judged(name, inc): self.progress(self, head, syms)
        raise PathEnd()

    progress = None   # obligation of a target for every further iteration of a loop: (engine, state at the head, symbols)
    def judged(self, name, inc):
        """loops over a range or with a step of their own end by construction"""
        return name in ('while', 'do') or (name == 'for' and inc is None)

    discovering = 0
    unroll = 0
    auto = False      # automatic candidates (exit conditions, written so far, flags)
    def discover(self, *a):
        self.discovering += 1; cache = self.loop_cache
        self.loop_cache = dict(cache)
        try: return self.discover_items(*a)
        finally: self.discovering -= 1; self.loop_cache = cache

    def discover_items(self, node, cond, inc, body, post, pre, n0):
        items = []; keys = None
        merged = {}
        for rnd in range(8):
            save = self.st
            self.st = pre.copy(); self.st.log = None
            try:
                self.havoc(items, pre)
                log = {}
                self.explore_iter(cond, inc, body, post, ('disc', node.get('id'), rnd), log)
            finally: self.st = save
            for k, v in log.items():
                if k[0] == 'H':
                    m = merged.setdefault(k, {'sort': v['sort'], 'refs': []}); m['refs'].extend(v['refs'])
                elif k[0] == 'L': merged.setdefault(k, set()).update(v)
                else: merged[k] = v
            items = self.mod_items(merged, pre, n0)
            ks = sorted(repr(self.item_key(i)) for i in items)
            if ks == keys: return items
            keys = ks
        raise Unsupported('modified locations of a loop do not stabilise')

    def infer(self, node, cond, inc, body, name, post, pre, items):
        t0 = time.time()
        save = self.st
        self.st = pre.copy(); self.st.log = None
        self.quiet += 1
        try:
            syms = self.havoc(items, pre)
            head = self.st
            L = LoopCtx(self, node, name, pre)
            L.fn = self.ast.qname.get(self.frame.fn['id']) if self.frames and self.frame.fn is not None else None
            L.syms = syms
            cands = self.candidates(L, cond, syms, pre)
            cands += self.exit_candidates(node, cond, inc, body, post, syms, pre, cands)
            base_pc = list(head.pc)
            consts = [s[0] for s in syms]
            def inst(f, s):
                vals = []
                for s_ in syms:
                    v = s_[1](s)
                    if not isinstance(v, z3.ExprRef): raise Unsupported('value kind changes in a loop (%s)' % s_[2])
                    if v.sort() != s_[0].sort():
                        v = z3.ToReal(v) if s_[0].sort() == R and v.sort() == I else v
                    vals.append(v)
                return z3.substitute(f, *zip(consts, vals)) if consts else f
            # entry
            alive = []; dropped = []
            pre_pc = self.axioms + pre.pc + [f for f in head.pc[len(pre.pc):] if self.no_syms(f, consts)]
            for d, f in cands:
                g = inst(f, pre)
                if self.holds(pre_pc, g, d): alive.append((d, f))
                else: dropped.append(('entry', d))
            rounds = 0
            while True:
                rounds += 1
                if rounds > 30: raise Unsupported('invariant inference does not converge')
                self.st = head.copy(); self.st.log = None
                for d, f in alive: self.st.pc.append(f)
                ends = self.explore_iter(cond, inc, body, post, ('houd', node.get('id'), rounds))
                drop = []
                for k, (d, f) in enumerate(alive):
                    for e in ends:
                        if not self.holds(self.axioms + e.pc, inst(f, e), d):
                            drop.append(k); break
                if not drop: break
                # keep the order: remove failing ones and retry
                dropped += [('step', alive[k][0]) for k in drop]
                alive = [x for k, x in enumerate(alive) if k not in set(drop)]
            rep = {'fn': L.fn, 'loop': name, 'where': self.ast.where(node), 'kept': [d for d, _ in alive], 'dropped': dropped, 'paths': len(ends), 's': round(time.time() - t0, 2)}
            if self.quiet == 1: self.loop_reports.append(rep)
            self.loop_obls = getattr(self, 'loop_obls', 0) + len(alive) * (1 + len(ends))
            return alive
        finally:
            self.quiet -= 1
            self.st = save

    def no_syms(self, f, consts):
        ids = {c.get_id() for c in consts}
        seen = set(); stk = [f]
        while stk:
            x = stk.pop()
            if x.get_id() in ids: return False
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): stk.append(x.body())
            else: stk.extend(x.children())
        return True

    def holds(self, pc, g, desc='hint:'):
        g = z3.simplify(g)
        if z3.is_true(g): return True
        if z3.is_false(g): 
            return False
        if desc.startswith('hint:') and mentions_sort(g, Str): pc = self.text_axioms() + pc
        return solve.quick_unsat(pc + [z3.Not(g)], self.solver_ms, desc.startswith('hint:') or solve.DEEP != 'hints')

    def text_axioms(self):
        n = len(self.lit_texts())
        if getattr(self, '_sax', (None,))[0] != n:
            have = {x.get_id() for x in self.axioms}
            self._sax = (n, str_axioms() + [x for x in STR_AX if x.get_id() not in have])
        return self._sax[1]

    # candidates ------------------------------------------------------------------------------------
    def candidates(self, L, cond, syms, pre):
        cs = []
        def add(d, f):
            if f is not None and not z3.is_true(z3.simplify(f)): cs.append((d, f))
        counters = []
        preval = {}
        for c, g, desc, info in syms:
            v = g(pre)
            if not isinstance(v, z3.ExprRef): continue
            preval[c.get_id()] = v
            if c.sort() == I:
                counters.append(Counter(desc, c, v, info[2] if info[0] in ('P',) else None))
        L.counters = counters
        mod = {s[0].get_id() for s in syms}
        for k in counters:
            add('%s>=init' % k.desc, k.cur >= k.pre)
            add('%s<=init' % k.desc, k.cur <= k.pre)
        for i, k in enumerate(counters):
            for m in counters[i + 1:]:
                add('%s-%s const' % (k.desc, m.desc), k.cur - m.cur == k.pre - m.pre)
                add('%s+%s const' % (k.desc, m.desc), k.cur + m.cur == k.pre + m.pre)
                add('%s-init<=%s-init' % (k.desc, m.desc), k.cur - k.pre <= m.cur - m.pre)
                add('%s-init>=%s-init' % (k.desc, m.desc), k.cur - k.pre >= m.cur - m.pre)
        # iterators stay inside their containers
        for c, g, desc, info in syms:
            if info[0] == 'P' and info[2].ty is not None and info[2].ty.k in ('vec', 'arr'):
                n = self.read_leaf(info[2], ('#len',), I, SIZE)
                add('%s in range' % desc, z3.And(c >= 0, c <= n))
            if info[0] == 'E': add('%s in range' % desc, z3.And(c >= 0, c <= info[2].n))
        # condition atoms
        if cond is not None:
            save = self.st
            self.st = save.copy()
            try:
                rs = self.explore(lambda: cond(), 'atoms')
            except (ThrowEx, ReturnEx): rs = []
            finally: self.st = save
            for f, s in rs:
                for a in self.atoms(f):
                    k, x, y = a
                    add('%s <= %s' % (x, y) if len(str(x) + str(y)) < 80 else 'cond bound %d' % len(cs), x <= y)
        # unchanged values
        for c, g, desc, info in syms:
            v = preval.get(c.get_id())
            if v is None: continue
            if c.sort() in (B, R, Ref, Str, Fn): add('%s unchanged' % desc, c == v)
            if isinstance(c.sort(), z3.ArraySortRef):
                add('%s unchanged' % desc, c == v)
                if info[0] == 'HM' and c.sort().domain() == Ref:
                    r = z3.Const('q:r', Ref)
                    add('%s: old objects unchanged' % desc, z3.ForAll([r], z3.Implies(aid(r) <= pre.alloc, z3.Select(c, r) == select(v, r)), patterns=[z3.Select(c, r)]))
                elif c.sort().domain() == I:
                    ln = self.sibling_len(info, syms, preval, pre)
                    if ln is not None:
                        i = z3.Const('q:i', I)
                        add('%s: prefix unchanged' % desc, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ln), z3.Select(c, i) == select(v, i)), patterns=[z3.Select(c, i)]))
        for h in self.hints + self.lib_hints:
            for d, f in (h(L) or []): add('hint:' + d, f)
        return cs

    def exit_candidates(self, node, cond, inc, body, post, syms, pre, cands=()):
        """candidates 'every index passed so far took a path that goes on': the branch conditions of one arbitrary
        iteration, as far as they only depend on the counters, generalised to all indices below the current one"""
        if self.discovering or not self.auto: return []
        n0 = self.st.n; rows = []; nxt = []
        self.quiet += 1
        def go():
            self.choice_log = []
            try: r = self.iteration(cond, inc, body, post)
            except (ThrowEx, ReturnEx): r = 'leave'
            return r, list(self.choice_log or [])
        save = self.st; cache = self.loop_cache
        self.discovering += 1; self.loop_cache = dict(cache)      # inner loops: any state
        try: rs = self.explore(go, ('exits', node.get('id')))
        except Unsupported: return []
        finally: self.quiet -= 1; self.st = save; self.discovering -= 1; self.loop_cache = cache
        ends = [s for (r, l), s in rs if r == 'next']
        paths = [l for (r, l), s in rs if r == 'next']
        if not paths or len(paths) > 8: return []
        ints = []
        for c, g, desc, info in syms:
            if c.sort() == I:
                v = g(pre)
                if isinstance(v, z3.ExprRef): ints.append((c, g, v))
        ids = {c.get_id() for c, g, v in ints}; other = [c for c, g, d, i in syms if c.get_id() not in ids]
        def usable(f): return not has_q(f) and self.ref_stable(f, n0) and self.no_syms(f, other)
        rows = [[f for f in l if usable(f)] for l in paths]
        out = []
        if len(paths) == len(rs) or any(not r for r in rows): f = None
        else: f = z3.Or(*[z3.And(*r) for r in rows])
        def steps(c, g):
            try: return all(z3.is_true(z3.simplify(g(s) == c + 1)) for s in ends)
            except Exception: return False
        j = z3.Const('q:j', I)
        for c, g, v in ints:
            if not steps(c, g): continue
            sub = [(d, j + (w - v)) if not d.eq(c) and steps(d, h) else (d, j if d.eq(c) else d) for d, h, w in ints]
            fixed = [a for a, b in sub if a.eq(b)]
            def at_j(x):
                if not self.no_syms(x, fixed): return None
                return z3.simplify(z3.substitute(x, *sub))
            if f is not None:
                body_f = at_j(f); pats = idx_patterns(body_f, j) if body_f is not None else []
                if pats: out.append(('hint:went on so far', z3.ForAll([j], z3.Implies(z3.And(j >= v, j < c), body_f), patterns=pats)))
            # what the iterations so far have written: elements of arrays, characters of strings
            for a, ga, desc, info in syms:
                outer = []
                if a.sort() == Str: alts = self.appended(a, ga, ends, rows, pre, c - v)
                elif isinstance(a.sort(), z3.ArraySortRef): alts, outer = self.stored(a, ga, ends, rows)
                else: continue
                if not alts: continue
                if not all(usable(o) and self.no_syms(o, [d for d, h, w in ints]) for o in outer): continue
                inner = a
                for o in outer: inner = z3.Select(inner, o)
                sel = (lambda k: str_at(a, k)) if a.sort() == Str else (lambda k: z3.Select(inner, k))
                rows_j = []; idx0 = None
                for cond_, idx, val in alts:
                    if not usable(val) or not usable(idx): rows_j = None; break
                    ij = at_j(idx); vj = at_j(val); cj = at_j(z3.And(*cond_)) if cond_ else T_
                    if ij is None or vj is None: rows_j = None; break
                    if cj is None: cj = T_
                    if idx0 is None: idx0 = ij
                    elif not idx0.eq(ij): rows_j = None; break
                    rows_j.append((cj, vj))
                if not rows_j: continue
                off = z3.simplify(idx0 - j)
                if not self.no_syms(off, [j]): continue
                x = z3.simplify(j - off) if False else j
                # index the fact by the element: k = j + off
                def at_k(t): return z3.simplify(z3.substitute(t, (j, j - off)))
                bodies = z3.Or(*[z3.And(at_k(cj), sel(j) == at_k(vj)) for cj, vj in rows_j])
                if has_q(bodies): continue
                if len(rows_j) == 1 and not z3.is_true(rows_j[0][0]):
                    out.append(('hint:written so far', z3.ForAll([j], z3.Implies(z3.And(j >= v + off, j < c + off), sel(j) == at_k(rows_j[0][1])), patterns=[sel(j)])))
                out.append(('hint:written so far, with conditions', z3.ForAll([j], z3.Implies(z3.And(j >= v + off, j < c + off), bodies), patterns=[sel(j)])))
                if a.sort() != Str and isinstance(ga(pre), z3.ExprRef):
                    a0 = ga(pre); in0 = a0
                    for o in outer: in0 = select(in0, o)
                    out.append(('hint:others not written', z3.ForAll([j], z3.Implies(z3.Or(j < v + off, j >= c + off), sel(j) == select(in0, j)), patterns=[sel(j)])))
                    if outer:
                        w = inner
                        for n_ in range(len(outer) - 1, -1, -1):
                            q = a0
                            for o in outer[:n_]: q = select(q, o)
                            w = z3.Store(q, outer[n_], w)
                        out.append(('hint:outer elements not written', a == w))
                        for n_ in range(len(outer)):      # the same, element by element
                            q, q0 = a, a0
                            for o in outer[:n_]: q, q0 = z3.Select(q, o), select(q0, o)
                            x = z3.Const('q:o', outer[n_].sort())
                            out.append(('hint:outer element %d not written' % n_, z3.ForAll([x], z3.Implies(x != outer[n_], z3.Select(q, x) == select(q0, x)), patterns=[z3.Select(q, x)])))
                if a.sort() == Str: out.append(('hint:length of the text', str_len(a) == c + off)); out.append(('hint:text so far empty', z3.Implies(c + off == 0, a == str_lit(''))))
        # a flag: while it keeps its first value the facts hold up to the current index, otherwise up to the one before
        flags = [(c, g, g(pre)) for c, g, desc, info in syms if c.sort() == B and info[0] == 'L' and isinstance(g(pre), z3.ExprRef)][:2]
        unit = [(c, v) for c, g, v in ints if steps(c, g)]
        for b, g, b0 in flags:
            # whether the flag has changed says whether some index so far took a path that changes it
            keep = []; chg = []
            for s_, r in zip(ends, rows):
                w = g(s_)
                if isinstance(w, z3.ExprRef) and z3.simplify(w).eq(b): keep.append(z3.And(*r) if r else T_)
                else: chg.append(z3.And(*r) if r else T_)
            if keep and chg:
                for c, v in unit:
                    sub = [(d, j + (w - v)) if not d.eq(c) and steps(d, h) else (d, j if d.eq(c) else d) for d, h, w in ints]
                    fixed = [x for x, y in sub if x.eq(y)]
                    kf = z3.simplify(z3.substitute(z3.Or(*keep), *sub)); cf = z3.simplify(z3.substitute(z3.Or(*chg), (b, b0), *sub))
                    if self.no_syms(kf, fixed + [b]):
                        pats = idx_patterns(kf, j)
                        if pats: out.append(('hint:unchanged flag: every index so far kept it', z3.Implies(b == b0, z3.ForAll([j], z3.Implies(z3.And(j >= v, j < c), kf), patterns=pats))))
                    if self.no_syms(cf, fixed): out.append(('hint:changed flag: some index so far changed it', z3.Implies(b != b0, z3.Exists([j], z3.And(j >= v, j < c, cf)))))
            back = [(c, c - 1) for c, v in unit]
            for d, f in list(cands) + out:
                if not d.startswith('hint:'): continue
                out_f = z3.substitute(f, *back)
                out.append((d + ', while the flag stays', z3.Implies(b == b0, f)))
                if not out_f.eq(f): out.append((d + ', before the flag changed', z3.Implies(b != b0, out_f)))
            for c, v in unit:
                out.append(('hint:flag as before at the start', z3.Implies(c == v, b == b0)))
                alts = []
                for st, r in zip(ends, rows):
                    w = g(st)
                    if not isinstance(w, z3.ExprRef) or not usable(w): alts = None; break
                    alts.append(z3.And(*(r + [b == w])))
                if alts:
                    f1 = z3.substitute(z3.Or(*alts), *[(a, y) for a, y in back])
                    out.append(('hint:flag as the last one', z3.Implies(c > v, f1)))
        return out

    def stored(self, a, ga, ends, rows):
        """per path (conditions, index, value) if every path stores exactly one element of the (nested) array, and the outer indices"""
        alts = []; outer = None
        for s, r in zip(ends, rows):
            v = ga(s)
            if not isinstance(v, z3.ExprRef): return None, []
            v = z3.simplify(v); at = []; base = a
            while z3.is_store(v) and (v.arg(0).eq(base) or z3.simplify(v.arg(0)).eq(z3.simplify(base))):
                at.append(v.arg(1)); base = z3.Select(base, v.arg(1)); v = v.arg(2)
                if not isinstance(v.sort(), z3.ArraySortRef): break
            if not at or isinstance(v.sort(), z3.ArraySortRef) or at[-1].sort() != I: return None, []
            if outer is None: outer = at[:-1]
            elif len(outer) != len(at) - 1 or not all(x.eq(y) for x, y in zip(outer, at)): return None, []
            alts.append((r, self.settle(at[-1], s), self.settle(v, s)))
        return alts, outer or []
    def settle(self, t, s):
        """reads of a stored array, decided by the path condition"""
        for _ in range(6):
            seen = set(); stk = [t]; hit = None
            while stk and hit is None:
                x = stk.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_quantifier(x): continue
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_SELECT and z3.is_store(x.arg(0)):
                    m, r, v = x.arg(0).children(); i = x.arg(1)
                    if solve.quick_unsat(self.axioms + s.pc + [r == i], 300): hit = (x, z3.Select(m, i))
                    elif solve.quick_unsat(self.axioms + s.pc + [r != i], 300): hit = (x, v)
                stk.extend(x.children())
            if hit is None: return t
            t = z3.simplify(z3.substitute(t, hit))
        return t
    def appended(self, a, ga, ends, rows, pre, done):
        """the same for a text to which every path appends one character"""
        alts = []; v0 = ga(pre)
        if not isinstance(v0, z3.ExprRef): return None
        for s, r in zip(ends, rows):
            v = ga(s)
            if not (isinstance(v, z3.ExprRef) and z3.is_app(v) and v.decl().eq(str_cat)): return None
            x, y = v.children()
            if v0.eq(str_lit('')) and x.eq(str_lit('')) : return None
            if not x.eq(a): return None
            if z3.is_app(y) and y.decl().eq(str_char): ch = y.arg(0)
            elif z3.is_const(y) and any(len(k) == 1 and t.eq(y) for k, t in self.lit_texts()): ch = z3.IntVal([ord(k) for k, t in self.lit_texts() if t.eq(y)][0])
            else: return None
            alts.append((r, z3.IntVal(0) + done if v0.eq(str_lit('')) else str_len(v0) + done, ch))
        return alts
    def lit_texts(self):
        from . import engine
        return list(engine._strlits.items())

    def sibling_len(self, info, syms, preval, pre):
        """initial length of the vector whose element array is the modified item"""
        if info[0] == 'HR':
            key = info[1]
            if '[]' not in key: return None
            base = key[:key.index('[]')]
            srt = z3.ArraySort(Ref, I)
            try: return select(self.heap_get(base + ('#len',), srt, pre), info[2])
            except Exception: return None
        if info[0] == 'S':
            v = pre.loc[info[1]]; p = info[2]
            if '[]' in p:
                q = p[:p.index('[]')] + ('#len',)
                return v.lv.get(q)
        return None

    def atoms(self, f):
        out = []
        def go(x, pos):
            if z3.is_not(x): go(x.children()[0], not pos); return
            if z3.is_and(x) or z3.is_or(x):
                for c in x.children(): go(c, pos)
                return
            if not z3.is_app(x) or len(x.children()) != 2: return
            a, b = x.children()
            if a.sort() not in (I, R): return
            k = x.decl().kind()
            if not pos:
                k = {z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LE, z3.Z3_OP_EQ: z3.Z3_OP_DISTINCT}.get(k, k)
            if k in (z3.Z3_OP_LT, z3.Z3_OP_DISTINCT): out.append(('lt', a, b))
            if k in (z3.Z3_OP_GT, z3.Z3_OP_DISTINCT): out.append(('lt', b, a))
            if k == z3.Z3_OP_LE and a.sort() == I: out.append(('le', a, b + 1))
            if k == z3.Z3_OP_GE and a.sort() == I: out.append(('le', b, a + 1))
        go(f, True)
        return out

def has_q(f): return solve.has_quant([f])

def idx_patterns(f, j):
    """terms to instantiate a formula over the index j by: selects at j"""
    out = []; seen = set(); stk = [f]
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) and any(c.eq(j) for c in x.children()):
            if not any(x.eq(y) for y in out): out.append(x)
        stk.extend(x.children())
    return out[:4]

def mentions_sort(f, srt):
    seen = set(); stk = [f]
    while stk:
        x = stk.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): stk.append(x.body()); continue
        if x.sort() == srt: return True
        stk.extend(x.children())
    return False
