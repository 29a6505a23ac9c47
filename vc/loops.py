"""Loops with a symbolic number of iterations.

The body is executed once for an arbitrary iteration k, with every location it may change replaced by
a placeholder.  Each location is then given a closed form (accumulation, product, concatenation,
last value, indexed store, or an uninterpreted recurrence whose step equation is kept), which is an
inductive loop invariant by construction: it holds at k = 0 and the executed body takes it from k to
k + 1.  Early exits split the path: either no iteration exits, or iteration m is the first that does."""
from .terms import *
from .terms import _mono
from . import terms as tm
from fractions import Fraction
from .solve import simp, prove, unify_atoms, equal, eq_vec


class Loc:
    __slots__ = ('key', 'mode', 'old', 'leaves', 'phi', 'frozen', 'pvars', 'sort', 'k')


class Leaf:
    __slots__ = ('P', 'idx', 'phi', 'init', 'news', 'closed', 'final', 'kind', 'step')


def _simp_phi(p, *idx):
    if p.op == 'lam':
        return subst(p.args[0], dict(zip(p.args[1:], idx)))
    return None


def _simp_philen(p):
    return vlen(p) if p.op == 'vec' else None


tm.SIMP['phi'] = _simp_phi
tm.SIMP['philen'] = _simp_philen


def _simp_phisum(p):
    if p.op != 'vec': return None
    def tot(v):
        out = []
        for s in v.args[1:]:
            if s.op == 'one': out.append(s.args[0])
            elif s.op == 'gen': out.append(summ(s.args[0], lambda k, s=s: open_(s, k)))
            elif s.op == 'cat': out.append(summ(s.args[0], lambda k, s=s: tot(open_(s, k))))
            elif s.op == 'opt': out.append(ite(s.args[0], tot(s.args[1]), ZERO))
            elif s.op == 'phi': out.append(app('phisum', s.args[0]))
            else: raise self_unsupported('sum')
        return add(*out)
    return tot(p)


tm.SIMP['phisum'] = _simp_phisum
_old_push = tm.vec


def _vec(tag, segs):
    out = []
    for s in segs:
        if s.op == 'phi' and s.args[0].op == 'vec': out += list(s.args[0].args[1:])
        elif s.op == 'phi' and s.args[0].op == 'ite': out += list(vcat('L', s.args[0]).args[1:])
        else: out.append(s)
    return _old_push(tag, out)


tm.vec = _vec
_old_rebuild = tm.rebuild


def _rebuild(op, a):
    if op == 'vec': return _vec(a[0], a[1:])
    return _old_rebuild(op, a)


tm.rebuild = _rebuild


def _snapshot(self, env):
    return dict(heap=dict(self.heap), env=dict(env), nev=len(self.events), events=list(self.events))


def _restore(self, S, env):
    self.heap = dict(S['heap'])
    env.clear(); env.update(S['env'])
    self.events = list(S['events'])


def _value_at(self, key, heap, env):
    if key[0] == 'env': return env.get(key[1])
    if key[0] == 'heap': return heap[key[1]]
    return heap[key[1]].at.get(key[2])


def _freeze_loc(self, key, heap, env):
    h = self.heap
    self.heap = heap
    try:
        v = _value_at(self, key, heap, env)
        if key[0] == 'heap': return self.freeze_cell(v)
        return self.freeze(v)
    finally: self.heap = h


def is_numeric(t):
    return t.op in ('num', 'poly', 'sum', 'prod', 'lin') or (t.op in ('var', 'app') and t.args[1] in ('I', 'R')) \
        or (t.op == 'ite' and is_numeric(t.args[1])) or t.op == 'bnd'


def is_boolean(t):
    return t.op in BOOL or (t.op in ('var', 'app') and t.args[1] == 'B') or (t.op == 'ite' and is_boolean(t.args[1]))


def _mkphi(loc, t, idx):
    """placeholder with the structure of t; appends the leaves"""
    t = tm.join_shape(t, equal)
    if t.op == 'vec':
        out = []
        for s in t.args[1:]:
            if s.op == 'one': out.append(one(_mkphi(loc, s.args[0], idx)))
            elif s.op == 'gen':
                i = fresh('i'); mark = len(loc.leaves)
                b = _mkphi(loc, open_(s, i), idx + [i])
                out.append(bind('gen', i, s.args[0], b))
            elif s.op == 'cat':
                i = fresh('i')
                b = _mkphi(loc, open_(s, i), idx + [i])
                if b is None: return None
                out.append(bind('cat', i, s.args[0], b))
            else: return None
        return tm.vec(t.args[0], out)
    if t.op == 'mat':
        r = _mkphi(loc, t.args[2], idx)
        return None if r is None else mk('mat', t.args[0], t.args[1], r)
    lf = Leaf()
    if is_numeric(t): srt = 'I' if is_int(t) and loc.sort != 'R' else 'R'
    elif is_boolean(t): srt = 'B'
    elif t.op in ('var', 'app'): srt = t.args[1]
    else: srt = loc.sort if isinstance(loc.sort, str) and loc.sort[:2] == 'O:' else 'O:any'
    lf.P = fresh('phi', srt)
    lf.idx = list(idx)
    lf.phi = lf.P if not idx else mk('app', 'phi', srt, lf.P, *idx)
    lf.init = t
    loc.leaves.append(lf)
    return lf.phi


def _phi_value(self, loc):
    """installs the placeholder; returns the python value / heap cell"""
    loc.leaves = []
    if loc.mode == 'inv':
        loc.pvars = []; loc.phi = loc.sort(loc.k)
        return loc.phi
    if loc.mode == 'ext':
        P = fresh('phi', 'seq')
        loc.pvars = [P]
        loc.phi = mk('vec', loc.old.args[0], mk('phi', P)) if loc.old.op == 'vec' else mk('mat', loc.old.args[0], loc.old.args[1], mk('vec', 'L', mk('phi', P)))
    else:
        loc.phi = _mkphi(loc, loc.old, []) if loc.mode != 'dead' else None
        if loc.phi is None:
            if loc.key[0] != 'env': raise self_unsupported('placeholder for a nested family')
            loc.mode = 'dead'
            lf = Leaf(); lf.P = fresh('phi', 'O:any'); lf.idx = []; lf.phi = lf.P; lf.init = loc.old
            loc.leaves = [lf]; loc.phi = lf.P
        loc.pvars = [l.P for l in loc.leaves]
    return loc.phi


def self_unsupported(m):
    from .interp import Unsupported
    return Unsupported(m)


class Out:
    __slots__ = ('kind', 'val', 'conds', 'heap', 'env', 'events')


def _run_paths(self, k, n, start, elem, bindto, run, env, S, locs):
    from .interp import Level, ReturnEx, BreakEx, ContinueEx, PyRaise, Dead
    outs = []; stack = [[]]
    lvl = len(self.levels)
    while stack:
        prefix = stack.pop()
        if len(outs) > 200: raise self_unsupported('too many paths in a loop body')
        self.pc = [p for p in self.pc if p[0] < lvl]
        self._restore(S, env)
        for loc in locs:
            ph = _phi_value(self, loc) if loc.phi is None else loc.phi
            if loc.key[0] == 'heap':
                self.heap[loc.key[1]] = self.cell_of_term(ph)
            elif loc.mode == 'dead':
                from .interp import Poison
                env[loc.key[1]] = Poison()
            elif loc.key[0] == 'env':
                old = S['env'].get(loc.key[1])
                env[loc.key[1]] = self.thaw(ph)
            else:
                from .interp import InstC
                c = self.heap[loc.key[1]]; at = dict(c.at); at[loc.key[2]] = self.thaw(ph)
                self.heap[loc.key[1]] = InstC(c.cls, at)
        L = Level(prefix, start)
        self.levels.append(L); self.loopvars.append((k, n))
        given = self.kfacts(k, n)
        self.pc += [(lvl, c) for c in given]
        o = Out(); o.kind, o.val = 'norm', None
        depth = self.depth
        try:
            bindto(elem(k)); run()
        except ContinueEx: pass
        except BreakEx: o.kind = 'break'
        except ReturnEx as r: o.kind, o.val = 'return', self.freeze(r.v) if r.v is not None else None
        except PyRaise as e: o.kind, o.val = 'raise', (e.name, e.msg)
        except Dead: o.kind = 'dead'
        finally:
            self.depth = depth
            self.levels.pop(); self.loopvars.pop()
        nd = 0
        o.conds = [c for l, c in self.pc if l == lvl][len(given):]
        o.heap, o.env, o.events = self.heap, dict(env), self.events[S['nev']:]
        if o.kind != 'dead': outs.append(o)
        for i in range(len(prefix), len(L.trace)):
            if L.trace[i]: stack.append(L.trace[:i] + [False])
        self.pc = [p for p in self.pc if p[0] < lvl]
    return outs


def sym_loop(self, n, elem, bindto, run, env):
    from .interp import InstC, Event, PyRaise, ReturnEx, BreakEx, OpaqueC, Unsupported, Ref
    k = fresh('k'); start = max_no(k)
    S = self._snapshot(env)
    locs = []
    have = {}
    for _ in range(14):
        for l in locs: l.phi = None
        outs = self._run_paths(k, n, start, elem, bindto, run, env, S, locs)
        again = False
        for o in outs:
          with self.under(*self.kfacts(k, n), *o.conds, scratch=(k,)):
            for key in changed(self, S, o, have):
                try: old = _freeze_loc(self, key, S['heap'], S['env'])
                except Unsupported: raise
                new = _freeze_loc(self, key, o.heap, o.env)
                l = Loc(); l.key, l.old, l.phi, l.sort = key, old, None, None
                l.mode = 'same'
                if old.op == 'vec':
                    if new.op != 'vec' or not self.proves(eq(vlen(old), vlen(new))): l.mode = 'ext'
                if old.op == 'mat' and new.op == 'mat' and not self.proves(eq(vlen(old.args[2]), vlen(new.args[2]))): l.mode = 'ext'
                if new.op in ('var', 'app') and isinstance(new.args[1], str): l.sort = new.args[1]
                if is_numeric(new) and not is_int(new): l.sort = 'R'
                if self.invariants is not None:             # annotated loop invariant
                    iv = self.invariants(self, env.get('__fnode__'), key, old, n)
                    if iv is not None: l.mode, l.sort, l.k = 'inv', iv, k
                have[key] = l; locs.append(l); again = True
            # length changes discovered later / type changes
            for l in locs:
                if l.phi is None or l.mode in ('dead', 'inv'): continue
                new = _freeze_loc(self, l.key, o.heap, o.env)
                if l.mode == 'same' and l.old.op == 'vec' and new.op == 'vec' and mentions(new, l.pvars) and \
                        not self.proves(eq(vlen(l.phi), vlen(new))):
                    l.mode = 'ext'; again = True
                if l.mode == 'same' and l.old.op == 'mat' and new.op == 'mat' and mentions(new, l.pvars) and not self.proves(eq(vlen(l.phi.args[2]), vlen(new.args[2]))):
                    l.mode = 'ext'; again = True
                if l.mode == 'same' and l.sort != 'R' and is_numeric(l.old) and is_int(l.old) and is_numeric(new) and not is_int(new):
                    l.sort = 'R'; again = True
        if not again: break
    else: raise Unsupported('loop analysis does not converge')
    norm = [o for o in outs if o.kind == 'norm']
    exits = [o for o in outs if o.kind != 'norm']
    # drop locations that are in fact unchanged
    allP = []
    for l in locs: allP += l.pvars
    def frz(l, o):
        with self.under(*self.kfacts(k, n), *o.conds, scratch=(k,)): return _freeze_loc(self, l.key, o.heap, o.env)
    news = {l.key: [frz(l, o) for o in norm] for l in locs}
    conds = [conj(*o.conds) for o in norm]
    leaves = []
    for l in locs:
        l.frozen = news[l.key]
        if l.mode == 'inv':
            if exits: raise Unsupported('exit from a loop with an annotated invariant')
            iv = l.sort
            self.invcut = ZERO
            self.inv_obls.append(('holds initially', _same_val(self, l.old, iv(ZERO)), (l.old, iv(ZERO))))
            for o, new in zip(norm, l.frozen):
                with self.under(*self.kfacts(k, n), *o.conds, scratch=(k,)):
                    self.invcut = add(k, ONE)
                    self.inv_obls.append(('is preserved', _same_val(self, new, iv(k, True)), (new, iv(k, True), self.pcs)))
            continue
        if l.mode == 'ext':
            lf = Leaf(); lf.P, lf.idx, lf.phi, lf.init, lf.kind = l.pvars[0], None, l.phi, l.old, None
            lf.news = l.frozen
            if l.old.op == 'mat':
                lf.init = l.old.args[2]
                if any(x.op != 'mat' or not equal(x.args[1], l.old.args[1], self.pcs) for x in l.frozen): raise Unsupported('a matrix changes its width in a loop')
                lf.news = [x.args[2] for x in l.frozen]
            lf.closed = lf.final = None
            l.leaves = [lf]
        else:
            for lf in l.leaves: lf.news = []; lf.kind = None; lf.closed = lf.final = None
            for nw in l.frozen:
                got = align(self, l, nw) if l.mode != 'dead' else [nw]
                for lf, x in zip(l.leaves, got): lf.news.append(x)
        leaves += l.leaves
    M = {}
    def closed_map(kk):
        return {P: f(kk) for P, f in M.items()}
    pend = list(leaves)
    if not norm:
        for lf in pend: M[lf.P] = mkclosed(lf, lambda kk, lf=lf: lf.init)
        pend = []
    def solve_pending():
        progress = True
        while pend and progress:
            progress = False
            for lf in list(pend):
                un = [x.P for x in pend]
                r = classify(self, lf, conds, k, un, closed_map(k), n)
                if r is not None:
                    lf.closed = r
                    M[lf.P] = mkclosed(lf, r)
                    pend.remove(lf); progress = True
    solve_pending()
    recs = []
    while pend:         # uninterpreted recurrences
        sc = [lf for lf in pend if scalar_rec(lf)]
        ext = [lf.P for lf in pend if not scalar_rec(lf)]
        moved = True
        while moved:    # those that depend on scalar recurrences only
            moved = False
            for lf in list(sc):
                if any(mentions(subst(x, closed_map(k)), ext) for x in list(lf.news) + conds): sc.remove(lf); ext.append(lf.P); moved = True
        if not sc: raise Unsupported(f'list with a step that depends on itself ({[l.key for l in locs if any(x in pend for x in l.leaves)]})')
        for lf in sc:
            if any(x is None for x in lf.news): raise Unsupported('a location changes in a way that has no closed form')
            own = {l.P for l in leaves}
            outer = [v for x in [lf.init, *lf.news, *conds] for v in x.fv if v.args[0].startswith('phi!') and v not in own] if self.loopvars else []
            if outer: raise Unsupported('a recurrence depends on the values of an enclosing loop')
            if self.loopvars: raise Unsupported('recurrence inside a loop')
            rid = next(self.uid)
            srt = lf.P.args[1]
            def f(kk, rid=rid, lf=lf, srt=srt):
                if kk is ZERO or self.proves(eq(kk, ZERO)): return lf.init
                return mk('app', 'rec', srt, num(rid), kk, *lf.idx)
            lf.closed = f
            M[lf.P] = mkclosed(lf, f)
            self.recs[rid] = dict(leaf=lf, k=k, n=n)
            pend.remove(lf); recs.append((rid, lf))
        solve_pending()
    cm = closed_map(k)
    for rid, lf in recs:
        r = self.recs[rid]
        r['init'] = lf.init
        r['step'] = (lambda kk, s=subst(chain(conds, lf.news), cm): subst(s, {k: kk}))
        r['idx'] = lf.idx
    cm = closed_map(k)
    if any(p in self.optim for p in allP):      # second look: the closed forms are checked as inductive invariants
        if any(lf.P in self.optim for _, lf in recs): raise Unsupported('recurrence used as a position')
        phis = [l.phi for l in locs]
        for l in locs: l.phi = subst(l.phi, cm)
        outs = self._run_paths(k, n, start, elem, bindto, run, env, S, locs)
        for l, ph in zip(locs, phis): l.phi = ph
        norm = [o for o in outs if o.kind == 'norm']
        exits = [o for o in outs if o.kind != 'norm']
        conds = [conj(*o.conds) for o in norm]
        cm1 = closed_map(add(k, ONE))
        for o in outs:
            ch = changed(self, S, o, have)
            if ch: raise Unsupported(f'loop changes more at the second look: {ch}')
        for o, c in zip(norm, conds):
            with self.under(*self.kfacts(k, n), *o.conds, scratch=(k,)):
                for l in locs:
                    if l.mode == 'dead': continue
                    new, want = _freeze_loc(self, l.key, o.heap, o.env), subst(l.phi, cm1)
                    ok = new is want or (is_numeric(new) and is_numeric(want) and equal(new, want, self.pcs)) or (new.op == 'vec' and want.op == 'vec' and eq_vec(new, want, self.pcs))
                    if not ok: raise Unsupported(f'closed form of a loop is not inductive: {new!r} {want!r}'[:300])
    # ---------------------------------------------------------------- outcome
    pick = None
    for o in exits:
        if norm or o is not exits[-1]:
            if self.choose('exit'): pick = o; break
        else: pick = o
    exitc = disj(*[conj(*[subst(c, cm) for c in o.conds]) for o in exits]) if exits else FALSE
    goes = TRUE
    if exits:           # what an iteration that goes on has established (conditions on choices made inside it are dropped)
        own = lambda v: v is not k and '!' in v.args[0] and max_no(v) > start
        goes = disj(*[conj(*[d for d in (subst(c, cm) for c in o.conds) if not any(own(v) for v in d.fv)]) for o in norm]) if norm else FALSE
    self._restore(S, env)
    if pick is None:
        if exits: self.assume_all(k, n, conj(neg_c(exitc), goes))
        self.events += body_events(norm, conds, cm, k, n)
        install(self, locs, env, n)
        bodylocals(self, env, norm, conds, S, k, n, cm)
        return
    m = fresh('m') if norm else ZERO        # without a path that goes on, the first iteration leaves the loop
    cmm = {P: subst(v, {k: m}) for P, v in cm.items()}
    sub2 = dict(cmm); sub2[k] = m
    self.assume(le(ZERO, m)); self.assume(lt(m, n))
    self.assume_all(k, m, conj(neg_c(exitc), goes))
    facts = [c for l, c in self.pc if c.op == 'all']
    for c in pick.conds: self.assume(subst(c, sub2))
    inst = [tm.open_(c, m) for c in facts if self.proves(lt(m, c.args[0]))]
    for c in inst: self.assume(c)
    if inst and self.proves(FALSE):
        from .interp import Dead
        raise Dead()
    self.events += body_events(norm, conds, cm, k, m)
    for e in pick.events: self.events.append(e.map(lambda t: subst(t, sub2)))
    self.heap = {a: subst_cell(c, sub2) for a, c in pick.heap.items()}
    env.clear(); env.update({a: subst_val(v, sub2) for a, v in pick.env.items()})
    # restore attributes and locations touched only by placeholders
    if pick.kind == 'break': raise BreakEx()
    if pick.kind == 'return': raise ReturnEx(None if pick.val is None else self.thaw(subst(pick.val, sub2)))
    raise PyRaise(*pick.val)


def assume_all(self, k, n, c):
    """no iteration before n satisfies the exit condition"""
    if c is TRUE: return
    lv = len(self.levels) - 1
    self.pc.append((lv, bind('all', k, n, c)))


def scalar_rec(lf):
    srt = lf.P.args[1]
    return lf.idx is not None and (srt in ('I', 'R', 'B') or srt.startswith('E:'))


def max_no(v): return int(v.args[0].rsplit('!', 1)[1])


def mentions(t, ps):
    return any(p in t.fv for p in ps)


def mkclosed(lf, f):
    def g(kk):
        v = f(kk)
        if lf.idx: return mk('lam', v, *lf.idx)
        return v
    return g


def chain(conds, vals):
    r = vals[-1]
    for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])): r = ite(c, v, r)
    return r


def zipchain(conds, vals):
    """chain with common tests kept outside"""
    if all(v is vals[0] for v in vals): return vals[0]
    if all(v.op == 'ite' and v.args[0] is vals[0].args[0] for v in vals):
        return ite(vals[0].args[0], zipchain(conds, [v.args[1] for v in vals]), zipchain(conds, [v.args[2] for v in vals]))
    return chain(conds, vals)


def body_events(norm, conds, cm, k, n):
    """effects of the iterations before n, none of which exits: the effects all paths of the body have in common at their beginning carry no guard"""
    evs = [[e.map(lambda t: subst(t, cm)) for e in o.events] for o in norm]
    out = []
    while evs and all(evs):
        h = [x[0] for x in evs]
        if any(x.kind != h[0].kind or x.binders != h[0].binders or x.guard is not h[0].guard or set(x.d) != set(h[0].d) or any(x.d[q] is not h[0].d[q] for q in x.d) for x in h): break
        out.append(wrap(h[0], k, n, TRUE))
        for x in evs: x.pop(0)
    for x, c in zip(evs, conds): out += [wrap(e, k, n, subst(c, cm)) for e in x]
    return out


def wrap(e, k, n, g):
    from .interp import Event
    return Event(e.kind, e.d, ((k, n),) + tuple(e.binders), conj(g, e.guard))


def changed(self, S, o, have):
    from .interp import InstC, OpaqueC, Ref, SubRef
    out = []
    for a, c0 in S['heap'].items():
        c1 = o.heap.get(a)
        if c1 is c0 or c1 is None: continue
        if isinstance(c0, InstC):
            for at in set(c0.at) | set(c1.at):
                x, y = c0.at.get(at, MISSING), c1.at.get(at, MISSING)
                if x is y or same_value(self, x, y, S['heap'], o.heap): continue
                key = ('attr', a, at)
                if x is MISSING: continue
                if key not in have: out.append(key)
        else:
            key = ('heap', a)
            if key not in have:
                h = self.heap
                try:
                    self.heap = S['heap']; f0 = self.freeze_cell(c0)
                    self.heap = o.heap; f1 = self.freeze_cell(c1)
                finally: self.heap = h
                if f0 is not f1: out.append(key)
    for nm, v0 in S['env'].items():
        if nm.startswith('__') and nm not in ('__comp__',): continue
        v1 = o.env.get(nm, MISSING)
        if v1 is v0: continue
        key = ('env', nm)
        if key in have: continue
        if same_value(self, v0, v1, S['heap'], o.heap): continue
        if v1 is MISSING: continue
        if nm in LOOPTARGETS: continue
        out.append(key)
    return out


LOOPTARGETS = ()
MISSING = object()


def same_value(self, x, y, h0, h1):
    from .interp import Ref, SubRef
    if isinstance(x, Ref) and isinstance(y, Ref): return x.a == y.a
    if isinstance(x, T) and isinstance(y, T): return x is y
    if isinstance(x, SubRef) and isinstance(y, SubRef): return lift(x.i) is lift(y.i) and same_value(self, x.p, y.p, h0, h1)
    if isinstance(x, (Ref, SubRef)) or isinstance(y, (Ref, SubRef)): return False
    try: return type(x) is type(y) and bool(x == y)
    except Exception: return False


def align(self, loc, new):
    """the parts of `new` that correspond to the leaves of the placeholder (None: no structural match)"""
    got = []
    def walk(phi, nw, d):
        if phi.op == 'vec':
            if nw.op == 'ite' and nw.args[1].op == 'vec':
                mark = len(got)
                with self.under(nw.args[0]): walk(phi, nw.args[1], d); a = got[mark:]; del got[mark:]
                with self.under(neg_c(nw.args[0])): walk(phi, nw.args[2], d); b = got[mark:]; del got[mark:]
                got.extend(ite(nw.args[0], x, y) if x is not None and y is not None else None for x, y in zip(a, b))
                return
            if nw.op != 'vec':
                if not count(phi): bad()
                return skip(phi)
            ps, ns = list(phi.args[1:]), list(nw.args[1:])
            if len(ps) == 1 and ps[0].op == 'gen' and ps[0].args[1].op not in ('vec', 'mat') and len(ns) > 1 and all(q.op in ('gen', 'one') for q in ns) \
                    and d < len(loc.leaves[len(got)].idx) and equal(vlen(nw), ps[0].args[0], self.pcs):
                i = loc.leaves[len(got)].idx[d]         # written in pieces
                with self.fam(i, ps[0].args[0]): got.append(self.elem(nw, i))
                return
            for p in ps:
                if not ns: skip1(p); continue
                s = ns.pop(0)
                if p.op == 'one' and s.op == 'one': walk(p.args[0], s.args[0], d); continue
                if p.op in ('gen', 'cat') and s.op == p.op and (self.proves(eq(p.args[0], s.args[0])) or equal(p.args[0], s.args[0], self.pcs)):
                    lf = loc.leaves[len(got)]
                    if d >= len(lf.idx): skip1(p); continue
                    i = lf.idx[d]           # use the index variables of the leaf
                    with self.fam(i, p.args[0]): walk(open_(p, i), open_(s, i), d + 1)
                    continue
                if not count(p.args[0] if p.op == 'one' else p.args[1]) and s is not p: bad()
                skip1(p); ns = []
            if ns and not self.proves(le(vlen(vec('L', ns)), ZERO)): bad()
            return
        if phi.op == 'mat':
            if nw.op != 'mat':
                if not count(phi): bad()
                return skip(phi)
            if not equal(phi.args[1], nw.args[1], self.pcs): bad()
            return walk(phi.args[2], nw.args[2], d)
        got.append(nw)
    def bad():
        from .interp import Unsupported
        raise Unsupported('the inner shape of a list changes in a loop')
    def count(phi):
        if phi.op == 'vec': return sum(count(s.args[0]) if s.op == 'one' else count(s.args[1]) for s in phi.args[1:])
        if phi.op == 'mat': return count(phi.args[2])
        return 1
    def skip(phi): got.extend([None] * count(phi))
    def skip1(p): got.extend([None] * (count(p.args[0]) if p.op == 'one' else count(p.args[1])))
    walk(loc.phi, new, 0)
    return got


def classify(self, lf, conds, k, unsolved, cm, n):
    """closed form of a location: function iteration -> term, or None"""
    P = lf.P
    others = [p for p in unsolved if p is not P]
    if any(x is None for x in lf.news): return None
    news = [subst(x, cm) for x in lf.news]
    cs = [subst(c, cm) for c in conds]
    if len(news) > 1 and all(x is news[0] for x in news): news, cs = news[:1], [TRUE]
    if any(mentions(c, unsolved) for c in cs) and len(cs) > 1: return None
    if lf.idx is None:                                   # list that grows
        steps = []
        for x in news:
            if x.op != 'vec' or len(x.args) < 2 or x.args[1].op != 'phi' or x.args[1].args[0] is not P:
                if x.op == 'vec' and not mentions(x, unsolved) and len(news) == 1: return prev_form(self, lf, news, cs, k)
                return None
            steps.append(mk('vec', 'L', *x.args[2:]))
        st = chain(cs, steps)
        if mentions(st, unsolved): return None
        st = vcat('L', st)
        tags = {x.args[0] for x in news}
        def tag_(kk): return tags.copy().pop() if len(tags) == 1 and tags != {lf.init.args[0]} and self.proves(le(ONE, kk)) else lf.init.args[0]
        return lambda kk: vcat(tag_(kk), lf.init, cat('L', kk, lambda q: subst(st, {k: q})))
    phi = lf.phi
    r = once_form(self, lf, [zipchain(cs, news)], k, n, unsolved)
    if r is not None: return r
    num_ = is_numeric(phi)
    if num_ and all(is_numeric(x) for x in news):
        ds = [under_ite(x, lambda y, c: unify_atoms(sub(y, phi), self.pcs + c)) for x in news]
        if not any(mentions(d, unsolved) for d in ds):
            st = chain(cs, ds)
            return lambda kk: add(lf.init, summ(kk, lambda q: subst(st, {k: q})))
        # products
        fs = [under_ite(x, lambda y, c: unify_atoms(mul(y, power(phi, -1)), self.pcs + c)) for x in news]
        if not any(mentions(d, unsolved) for d in fs):
            st = chain(cs, fs)
            def pulled(init, st, kk):
                if st.op == 'ite' and k not in st.args[0].fv:
                    c = st.args[0]
                    return ite(c, pulled(simp(init, (c,)), st.args[1], kk), pulled(simp(init, (neg_c(c),)), st.args[2], kk))
                return mul(init, prod(kk, lambda q: subst(st, {k: q})))
            return lambda kk: pulled(lf.init, st, kk)
    if not any(mentions(x, [P]) for x in news):
        if any(mentions(x, unsolved) for x in news): return None
        return prev_form(self, lf, news, cs, k)
    return None


def once_form(self, lf, news, k, n, unsolved):
    """every cell is written in at most one iteration: x = ite(i == e_1(k), v_1, ... phi(i))"""
    if not lf.idx or len(news) != 1: return None
    phi, P = lf.phi, lf.P
    br = []
    flat = []
    def leafs(x, c, top):
        """(condition, value) of the written cells; conditions of the chain of else-branches are not kept (the first that holds counts)"""
        if x.op == 'ite':
            d = x.args[0]
            if c and prove(neg_c(d), c): return leafs(x.args[2], c, top)
            leafs(x.args[1], c + (d,), top + (d,))
            return leafs(x.args[2], c + (neg_c(d),), top if top == () else top + (neg_c(d),))
        if x is not phi and not (is_phi(x, P) and unify_atoms(sub(x, phi), self.pcs + c) is ZERO): flat.append((top, x))
        elif x is not phi or top: flat.append((top, None))
    leafs(news[0], (), ())
    keep = [q for q, v in flat if v is None and q]
    flat = [(q, v) for q, v in flat if v is not None]
    for q in keep:          # an unchanged cell in front of a written one: the conditions must exclude each other
        if any(not prove(FALSE, q + r) for r, _ in flat): return None
    for top, v in flat:
        sol = None
        cs_ = [y for c in top for y in (c.args if c.op == 'and' else [c])]
        for c in cs_:
            if c.op != 'eq0': continue
            for j in lf.idx:
                a, b = coeff(c.args[0], j), coeff(c.args[0], k)
                if a in (1, -1) and b in (1, -1):
                    rest = sub(c.args[0], add(scale(a, j), scale(b, k)))
                    if not mentions(rest, [j, k]): sol = scale(Fraction(-1) / b, add(scale(a, j), rest)); break
            if sol is not None: break
        if sol is None: return None
        br.append((sol, subst(conj(*cs_), {k: sol}), v))
    pcs = tuple(p for p in self.pcs)
    inr = lambda s, hi: conj(le(ZERO, s), lt(s, hi))
    for p in range(len(br)):
        for q in range(p):
            both = conj(inr(br[p][0], n), inr(br[q][0], n), br[p][1], br[q][1])
            if not prove(FALSE, pcs + tuple(both.args if both.op == 'and' else [both])): return None
    facts = pcs + (le(ZERO, k), lt(k, n))
    def ref(*e):
        m = dict(zip(lf.idx, e))
        for s, ex, _ in br:
            c = conj(inr(subst(s, m), k), subst(ex, m))
            if not prove(neg_c(c), facts): raise KeyError
        return subst(lf.init, m)
    try: vals = [rep_phi(v, lf.P, ref) for _, _, v in br]
    except KeyError: return None
    if any(mentions(v, unsolved) for v in vals): return None
    def f(kk):
        r = lf.init
        for (s, ex, _), v in reversed(list(zip(br, vals))):
            r = ite(conj(inr(s, kk), ex), subst(v, {k: s}), r)
        return r
    return f


def is_phi(x, P): return x.op == 'app' and x.args[0] == 'phi' and x.args[2] is P


def rep_phi(t, P, f, memo=None):
    """replace the placeholder applications phi(P, e..) by f(e..)"""
    if not isinstance(t, T) or P not in t.fv: return t
    if t.op == 'app' and t.args[0] == 'phi' and t.args[2] is P: return f(*[rep_phi(x, P, f) for x in t.args[3:]])
    if t.op == 'poly':
        parts = []
        for c, mon in t.args[0]:
            parts.append(mul(num(c), *[power(rep_phi(a, P, f), p) for a, p in mon]))
        return add(*parts)
    if t.op in tm.BINDERS: raise KeyError
    return tm.rebuild(t.op, [rep_phi(x, P, f) if isinstance(x, T) else x for x in t.args])


def under_ite(x, f, c=()):
    if x.op == 'ite': return ite(x.args[0], under_ite(x.args[1], f, c + (x.args[0],)), under_ite(x.args[2], f, c + (neg_c(x.args[0]),)))
    return f(x, c)


def coeff(p, v):
    r = None
    for c, m in _mono(p):
        if m == ((v, 1),): r = c
        elif any(v in a.fv for a, _ in m): return None
    return r


def subapps(t, acc=None):
    acc = set() if acc is None else acc
    if isinstance(t, T) and t not in acc:
        acc.add(t)
        if t.op == 'poly':
            for c, m in t.args[0]:
                for a, p in m: subapps(a, acc)
        else:
            for x in t.args: subapps(x, acc)
    return acc


def prev_form(self, lf, news, cs, k):
    st = chain(cs, news)
    if st.op == 'vec' or (is_numeric(st) and st.op != 'num'):
        z_ = subst(st, {k: num(-1)})
        if z_ is lf.init or (eq_vec(z_, lf.init, self.pcs) if st.op == 'vec' else any(a.op == 'app' and a.args[0] == 'catk' for a in subapps(z_)) and equal(z_, lf.init, self.pcs)): return lambda kk: subst(st, {k: sub(kk, ONE)})
    def f(kk):
        if kk is ZERO: return lf.init
        pv = subst(st, {k: sub(kk, ONE)})
        if self.proves(lt(ZERO, kk)): return pv
        return ite(eq(kk, ZERO), lf.init, pv)
    return f


def install(self, locs, env, n):
    from .interp import InstC
    for l in locs:
        m = {lf.P: mkclosed(lf, lf.closed)(n) for lf in l.leaves}
        t = subst(l.phi, m) if l.mode != 'inv' else l.sort(n)
        if l.mode == 'ext' and t.op == 'vec' and m[l.pvars[0]].op == 'vec': t = m[l.pvars[0]]
        if l.key[0] == 'heap': self.heap[l.key[1]] = self.cell_of_term(t)
        elif l.key[0] == 'env': env[l.key[1]] = self.thaw(t) if not lazy_ite(t) else t
        else:
            c = self.heap[l.key[1]]; at = dict(c.at); at[l.key[2]] = self.thaw(t) if not lazy_ite(t) else t
            self.heap[l.key[1]] = InstC(c.cls, at)


def _same_val(self, a, b):
    """equal values; vectors and matrices position by position"""
    if a is b: return True
    if a.op == 'ite' or b.op == 'ite':
        c = (a if a.op == 'ite' else b).args[0]
        ok = True
        for d in (c, neg_c(c)):
            if prove(neg_c(d), self.pcs): continue
            with self.under(d): ok = ok and _same_val(self, simp(a, self.pcs), simp(b, self.pcs)) if simp(a, self.pcs) is not a or simp(b, self.pcs) is not b else False
        return ok
    if a.op == 'mat' and b.op == 'mat': return equal(a.args[1], b.args[1], self.pcs) and _same_val(self, a.args[2], b.args[2])
    if a.op == 'vec' and b.op == 'vec':
        if not equal(vlen(a), vlen(b), self.pcs): return False
        if eq_vec(retag('L', a), retag('L', b), self.pcs): return True
        i = fresh('i')
        with self.fam(i, vlen(a)):
            for case in ([eq(i, self.invcut), lt(i, self.invcut), lt(self.invcut, i)] if self.invcut is not None else [TRUE]):
                if prove(neg_c(case), self.pcs): continue
                with self.under(case):
                    if not _same_val(self, simp(self.elem(a, i), self.pcs), simp(self.elem(b, i), self.pcs)): return False
        return True
    if is_numeric(a) and is_numeric(b): return equal(a, b, self.pcs)
    return prove(eq(a, b), self.pcs)


def lazy_ite(t):
    return t.op == 'ite'


def bodylocals(self, env, norm, conds, S, k, n, cm):
    """variables first assigned in the body keep the value of the last iteration"""
    h = self.heap
    for nm in set.intersection(*[set(o.env) for o in norm]) if norm else ():
        if nm in env or nm.startswith('__'): continue
        vals = []
        try:
            for o in norm:
                self.heap = o.heap
                with self.under(*self.kfacts(k, n), *o.conds, scratch=(k,)): vals.append(self.freeze(o.env[nm]))
        except Exception: continue
        finally: self.heap = h
        vals = [subst(v, cm) for v in vals]
        if len(vals) > 1 and not all(v is vals[0] for v in vals):
            if not all(is_numeric(v) for v in vals): continue
            vals = [zipchain([subst(c, cm) for c in conds], vals)]
        t = subst(vals[0], {k: sub(n, ONE)})
        env[nm] = self.thaw(t) if not lazy_ite(t) else t


def subst_cell(c, m):
    from .interp import Seq, MatC, InstC, DictC
    if isinstance(c, Seq):
        v = subst(c.v, m); return c if v is c.v else Seq(c.kind, v)
    if isinstance(c, MatC): return MatC(c.kind, subst(c.nc, m), subst(c.rows, m))
    if isinstance(c, InstC): return InstC(c.cls, {a: subst_val(v, m) for a, v in c.at.items()})
    if isinstance(c, DictC): return DictC({a: subst_val(v, m) for a, v in c.d.items()})
    return c


def subst_val(v, m):
    if isinstance(v, T): return subst(v, m)
    if isinstance(v, tuple): return tuple(subst_val(x, m) for x in v)
    from .interp import SubRef
    if isinstance(v, SubRef):
        i = subst(lift(v.i), m)
        return v if i is lift(v.i) else SubRef(v.p, i)
    return v
