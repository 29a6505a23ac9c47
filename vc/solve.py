"""Discharge of side conditions: linear/nonlinear arithmetic over opaque atoms with z3, plus the
congruence and sequence rules of the normal form."""
import time
import z3
from .terms import *
from . import terms as tm
from .terms import _mono

STATS = dict(queries=0, proved=0, seconds=0.0, syntactic=0, structural=0)
ENUM_DOM = {}          # sort name -> list of members
CLOSED = {}            # sort name -> number of members, when the sort is a declared enumeration
_zc = {}


def z(t):
    r = _zc.get(t.id)
    if r is None: r = _zc[t.id] = _z(t)
    return r


def _zpow(b, p):
    r = z3.RealVal(1) if False else None
    for _ in range(abs(p)): r = b if r is None else r * b
    return r if p > 0 else (1 / (z3.ToReal(r) if z3.is_int(r) else r))


def _z(t):
    op, a = t.op, t.args
    if op == 'num':
        return z3.IntVal(int(a[0])) if a[0].denominator == 1 else z3.RealVal(str(a[0]))
    if op == 'poly':
        s = None
        isint = is_int(t)
        for c, m in a[0]:
            f = None
            for at, p in m:
                b = _zpow(z(at), p); f = b if f is None else f * b
            cz = z3.IntVal(int(c)) if isint else z3.RealVal(str(c))
            f = cz if f is None else (f if c == 1 else cz * f)
            s = f if s is None else s + f
        return s
    if op == 'ite': return z3.If(z(a[0]), z(a[1]), z(a[2]))
    if op == 'lin': return z(a[0])
    if op == 'le0': return z(a[0]) <= 0
    if op == 'lt0': return z(a[0]) < 0
    if op == 'eq0': return z(a[0]) == 0
    if op == 'and': return z3.And(*[z(x) for x in a])
    if op == 'or': return z3.Or(*[z(x) for x in a])
    if op == 'not': return z3.Not(z(a[0]))
    if op == 'true': return z3.BoolVal(True)
    if op == 'false': return z3.BoolVal(False)
    if op == 'eqc':
        x, c = a
        s = x.args[1]
        dom = ENUM_DOM.setdefault(s, [])
        if c.args[0] not in dom: dom.append(c.args[0])
        return z3.Int(f'e{x.id}') == dom.index(c.args[0])
    if op in ('all', 'exi'): return z3.Bool(f'q{t.id}')
    if op in ('var', 'app') and a[1] == 'B': return z3.Bool(f'b{t.id}')
    if is_int(t): return z3.Int(f'i{t.id}')
    return z3.Real(f'r{t.id}')


def atoms(t, acc):
    """all opaque atoms of a term (not below opaque functions)"""
    op, a = t.op, t.args
    if op == 'poly':
        for c, m in a[0]:
            for at, p in m: atoms(at, acc)
    elif op in ('ite', 'lin', 'le0', 'lt0', 'eq0', 'and', 'or', 'not', 'eqc'):
        for x in a:
            if isinstance(x, T): atoms(x, acc)
    elif op not in ('num', 'true', 'false', 'const'): acc.add(t)
    return acc


NONNEG = set()      # names of vars / functions that denote sizes (>= 0)
POS = set()
RANGES = {}         # names of functions that denote positions in a vector of the given length


def atom_facts(at):
    f = []
    if at.op in ('var', 'app'):
        nm = at.args[0]
        if nm in POS: f.append(lt(ZERO, at))
        elif nm in NONNEG: f.append(le(ZERO, at))
        if isinstance(at.args[1], str) and at.args[1].startswith('E:'):
            pass
        if at.op == 'app' and nm == 'max':
            f += [le(at.args[2], at), le(at.args[3], at), disj(eq(at, at.args[2]), eq(at, at.args[3]))]
        if at.op == 'app' and nm == 'min':
            f += [le(at, at.args[2]), le(at, at.args[3]), disj(eq(at, at.args[2]), eq(at, at.args[3]))]
        if at.op == 'app' and nm == 'abs':
            f += [le(ZERO, at), disj(eq(at, at.args[2]), eq(at, neg(at.args[2])))]
        if at.op == 'app' and nm in ('catk', 'cati'):
            # position r of parts of lengths c(0), c(1), ...: r lies in part catk at place cati
            g, r = at.args[2].args[1], at.args[3]
            ck, ci = tm.app('catk', *at.args[2:], sort='I'), tm.app('cati', *at.args[2:], sort='I')
            rng = conj(le(ZERO, r), lt(r, tm.summ(g.args[0], lambda q: tm.open_(g, q))))
            f += [disj(neg_c(rng), conj(le(ZERO, ck), lt(ck, g.args[0]), le(ZERO, ci), lt(ci, tm.open_(g, ck)))),
                  disj(neg_c(eq(r, ZERO)), le(tm.open_(g, ZERO), ZERO), le(g.args[0], ZERO), conj(eq(ck, ZERO), eq(ci, ZERO)))]
        if at.op == 'app' and nm in RANGES: f += [le(ZERO, at), lt(at, RANGES[nm])]
        if at.op == 'app' and nm == 'card': f.append(le(ZERO, at))
        if at.op == 'app' and nm == 'philen': f.append(le(ZERO, at))
    if at.op == 'sum' and at.args[1].op in ('app', 'var') and at.args[1].args[0] in NONNEG | POS:
        f.append(le(ZERO, at))
    return f


_cache = {}
_cache2 = {}


def prove(cond, pc, timeout=2000):
    """True iff pc implies cond (z3 unsat of the negation)"""
    cond = lift(cond)
    if cond is TRUE: return True
    if cond in pc: STATS['syntactic'] += 1; return True
    for p in pc:
        if p is FALSE: return True
    if cond is FALSE and not pc: return False
    if cond is not FALSE and neg_c(cond) in pc: return False
    if quick(cond): STATS['syntactic'] += 1; return True
    pc = tuple(pc)
    key = (cond.id, tuple(p.id for p in pc))
    if key in _cache: return _cache[key]
    t0 = time.time(); STATS['queries'] += 1
    rel = relevant(pc + sum_lemmas(pc, cond), cond)
    key2 = (cond.id, frozenset(p.id for p in rel))
    if key2 in _cache2:
        r = _cache[key] = _cache2[key2]
        if r: STATS['proved'] += 1
        return r
    s = z3.Solver(); s.set('rlimit', timeout * 2500)
    acc = set()
    for p in rel: atoms(p, acc)
    atoms(cond, acc)
    done = set(); todo = list(acc)
    while todo:
        a = todo.pop()
        if a in done: continue
        done.add(a)
        if a.op in ('var', 'app') and a.args[1] in CLOSED:
            e = z3.Int(f'e{a.id}'); s.add(e >= 0, e < CLOSED[a.args[1]])
        for f in atom_facts(a):
            s.add(z(f))
            todo += [x for x in atoms(f, set()) if x not in done]
    for p in rel: s.add(z(p))
    s.add(z3.Not(z(cond)))
    for srt, dom in ENUM_DOM.items(): pass
    r = s.check() == z3.unsat
    STATS['seconds'] += time.time() - t0
    if r: STATS['proved'] += 1
    _cache[key] = _cache2[key2] = r
    return r


_sums = {}


def sums_of(t):
    r = _sums.get(t)
    if r is None: r = _sums[t] = frozenset(a for a in atoms(t, set()) if a.op == 'sum')
    return r


def sum_lemmas(pc, cond):
    """partial sums of nonnegative terms are monotone: a < b implies S(a) + f(a) <= S(b)"""
    acc = set(sums_of(cond))
    if not acc: return ()
    for p in pc: acc |= sums_of(p)
    if len(acc) < 2: return ()
    by = {}
    for a in acc: by.setdefault(a.args[1], []).append(a)
    out = []
    for g in by.values():
        if len(g) < 2: continue
        k = tm.fresh('k')
        if not nonpos(neg(tm.open_(g[0], k))): continue
        for a in g:
            for b in g:
                if a is b: continue
                x, y = a.args[0], b.args[0]
                out.append(disj(lt(x, ZERO), le(y, x), le(add(a, tm.open_(a, x)), b)))
                out.append(disj(lt(y, x), le(a, b)))
    return tuple(out)


def quick(c):
    """sign by inspection"""
    if c.op != 'le0': return False
    if nonpos(c.args[0]): return True
    pos = {a for k, m in _mono(c.args[0]) for a, p in m if a.op in ('var', 'app') and a.args[0] in POS}
    if not pos or len(pos) > 4: return False
    # every positive integer is one plus a nonnegative integer
    sh = {a: add(a, ONE) for a in pos}
    return nonpos(_subst_top(c.args[0], sh))


def nonneg_atom(a):
    if a.op in ('var', 'app'): return a.args[0] in NONNEG or a.args[0] in POS
    if a.op == 'sum':
        k = tm.fresh('k'); b = tm.open_(a, k)
        return nonpos(neg(b))
    return False


def nonpos(p):
    for k, m in _mono(p):
        if k > 0: return False
        for a, q in m:
            if not (q > 0 and nonneg_atom(a)): return False
    return True


def _subst_top(p, sh):
    """replaces atoms of a polynomial (not inside other atoms)"""
    out = ZERO
    for k, m in _mono(p):
        t = num(k)
        for a, q in m: t = mul(t, power(sh.get(a, a), q))
        out = add(out, t)
    return out


def relevant(pc, cond):
    """assumptions connected to the goal by shared atoms (dropping assumptions is sound)"""
    if cond is FALSE: return list(pc)
    seen = set(atoms(cond, set()))
    for a in list(seen):
        for f in atom_facts(a): seen |= atoms(f, set())
    left = [(p, atoms(p, set())) for p in pc]
    out = []
    ch = True
    while ch:
        ch = False
        for it in list(left):
            if it[1] & seen:
                out.append(it[0]); left.remove(it); seen |= it[1]; ch = True
                for a in it[1]:
                    for f in atom_facts(a): seen |= atoms(f, set())
    return out


def inconsistent(pc): return prove(FALSE, tuple(pc))


def simp(t, pc, memo=None):
    """resolve conditionals under pc"""
    if not isinstance(t, T): return t
    if memo is None: memo = {}
    r = memo.get(t)
    if r is not None: return r
    op, a = t.op, t.args
    if op in ('num', 'var', 'bnd', 'const', 'true', 'false', 'phi'): r = t
    elif op == 'ite':
        c = simp(a[0], pc, memo)
        if prove(c, pc): r = simp(a[1], pc, memo)
        elif prove(neg_c(c), pc): r = simp(a[2], pc, memo)
        else: r = ite(c, simp(a[1], tuple(pc) + (c,)), simp(a[2], tuple(pc) + (neg_c(c),)))
    elif op == 'poly':
        parts = []
        for c, m in a[0]:
            f = [num(c)]
            for at, p in m: f.append(power(simp(at, pc, memo), p))
            parts.append(mul(*f))
        r = add(*parts)
    elif op in BINDERS:
        k = fresh('m'); n = simp(a[0], pc, memo)
        if op in ('sum', 'prod') and not is_num(n) and prove(le(n, ONE), pc):
            if prove(eq(n, ONE), pc): n = ONE
            elif prove(le(n, ZERO), pc): n = ZERO
        r = bind(op, k, n, simp(open_(t, k), tuple(pc) + (le(ZERO, k), lt(k, n))))
    elif op == 'lin': r = simp(a[0], pc, memo)
    elif op == 'opt':
        c = simp(a[0], pc, memo)
        if prove(c, pc): c = TRUE
        elif prove(neg_c(c), pc): c = FALSE
        r = mk('opt', c, simp(a[1], pc, memo))
    else: r = rebuild(op, [simp(x, pc, memo) for x in a])
    memo[t] = r
    return r


def equal(a, b, pc, deep=True):
    """prove a == b for numbers, sequences, constants under pc"""
    a, b = lift(a), lift(b)
    if a is b: STATS['structural'] += 1; return True
    if a.op == 'vec' or b.op == 'vec' or (a.op == 'ite' and a.args[1].op == 'vec'):
        return eq_vec(a, b, pc)
    if a.op == 'const' or b.op == 'const': return False
    a1, b1 = simp(a, pc), simp(b, pc)
    if a1 is b1: return True
    if a1.op in ('vec',): return eq_vec(a1, b1, pc)
    if a1.op in BOOL or b1.op in BOOL:
        return prove(eq(a1, b1), pc)
    if not deep: return False
    d = sub(a1, b1)
    d2 = unify_atoms(d, pc)
    if d2 is ZERO: return True
    if prove(eq(d2, ZERO), pc): return True
    for x, y in ((a1, b1), (b1, a1)):
        if x.op == 'ite' and y.op != 'ite':
            c = x.args[0]
            return all(prove(FALSE, pc + (h,)) or equal(v, y, pc + (h,)) for pc in (tuple(pc),) for h, v in ((c, x.args[1]), (neg_c(c), x.args[2])))
    return False


def _all_atoms(d):
    s = []
    for c, m in _mono(d):
        for at, p in m:
            if at not in s: s.append(at)
    return s


def unify_atoms(d, pc, depth=0):
    """replace provably equal opaque applications by one representative"""
    ats = [a for a in _all_atoms(d) if a.op in ('app', 'sum', 'prod', 'lin')]
    m = {}
    for i, x in enumerate(ats):
        for y in ats[:i]:
            if y in m or x.op != y.op: continue
            if x.op == 'app' and (x.args[0] != y.args[0] or len(x.args) != len(y.args)): continue
            if same_atom(x, y, pc):
                m[x] = y; break
    if not m: return d
    parts = []
    for c, mon in _mono(d):
        f = [num(c)]
        for at, p in mon: f.append(power(m.get(at, at), p))
        parts.append(mul(*f))
    return add(*parts)


def same_atom(x, y, pc):
    if x.op == 'app':
        return all((p is q) or (isinstance(p, T) and isinstance(q, T) and equal(p, q, pc)) for p, q in zip(x.args[2:], y.args[2:]))
    if x.op in ('sum', 'prod'):
        if not equal(x.args[0], y.args[0], pc): return False
        k = fresh('q')
        pk = tuple(pc) + (le(ZERO, k), lt(k, x.args[0]))
        if equal(open_(x, k), open_(y, k), pk): return True
        q = family_facts(pc, k, x.args[0])
        return bool(q) and equal(open_(x, k), open_(y, k), pk + q)
    if x.op == 'lin': return equal(x.args[0], y.args[0], pc)
    return False


def family_facts(pc, k, n):
    """the facts that hold for all positions, at position k < n"""
    out = []
    for c in pc:
        if c.op == 'all' and (c.args[0] is n or prove(le(n, c.args[0]), tuple(pc))):
            b = open_(c, k); out += b.args if b.op == 'and' else [b]
    return tuple(out)


def nonempty_segs(v): return v.args[1:]


def eq_vec(a, b, pc):
    if a.op == 'ite' or b.op == 'ite':
        a, b = simp(a, pc), simp(b, pc)
        if a is b: return True
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite':
                return eq_vec(x.args[1], y, tuple(pc) + (x.args[0],)) and eq_vec(x.args[2], y, tuple(pc) + (neg_c(x.args[0]),))
    if a.op != 'vec' or b.op != 'vec': return False
    sa, sb = list(a.args[1:]), list(b.args[1:])
    a1, b1 = simp(a, pc), simp(b, pc)
    if a1.args[1:] == b1.args[1:]: return True
    sa, sb = list(a1.args[1:]), list(b1.args[1:])
    sa = [s for s in sa if not (s.op in ('gen', 'cat') and prove(le(s.args[0], ZERO), pc))]
    sb = [s for s in sb if not (s.op in ('gen', 'cat') and prove(le(s.args[0], ZERO), pc))]
    sa, sb = ([s for s in q if not (s.op == 'opt' and s.args[1].op == 'vec' and len(s.args[1].args) == 1)] for q in (sa, sb))
    while sa and sb:
        x, y = sa.pop(0), sb.pop(0)
        if x is y: continue
        if x.op == 'one' and y.op == 'one':
            if not equal(x.args[0], y.args[0], pc): return False
            continue
        if x.op == 'one' and y.op == 'gen': x, y, sa, sb = y, x, sb, sa
        if x.op == 'gen' and y.op == 'one':
            # peel the first element if the family is known to be nonempty
            if not prove(lt(ZERO, x.args[0]), pc): return False
            if not equal(open_(x, ZERO), y.args[0], pc): return False
            k = fresh('p')
            rest = vec('L', [bind('gen', k, sub(x.args[0], ONE), open_(x, add(k, ONE)))])
            sa = list(rest.args[1:]) + sa
            sa = [s for s in sa if not (s.op in ('gen', 'cat') and prove(le(s.args[0], ZERO), pc))]
            continue
        if x.op == y.op and x.op in ('gen', 'cat'):
            d = sub(y.args[0], x.args[0])
            if d.op == 'num' and numval(d) < 0: x, y, sa, sb, d = y, x, sb, sa, neg(d)
            if d.op == 'num' and 0 < numval(d) <= 4:        # split the longer family
                if not prove(le(ZERO, x.args[0]), pc): return False
                sb = list(vec('L', [s for i in range(int(numval(d))) for s in ([one(open_(y, add(x.args[0], num(i))))] if y.op == 'gen' else open_(y, add(x.args[0], num(i))).args[1:])]).args[1:]) + sb
                k = fresh('p'); rest = vec('L', [bind(y.op, k, x.args[0], open_(y, k))]).args[1:]
                if len(rest) != 1: return False
                y = rest[0]
            if not equal(x.args[0], y.args[0], pc): return False
            k = fresh('p'); pk = tuple(pc) + (le(ZERO, k), lt(k, x.args[0]))
            if not equal(open_(x, k), open_(y, k), pk):
                q = tuple(disj(le(c.args[0], k), open_(c, k)) for c in pc if c.op == 'all')
                if not q or not equal(open_(x, k), open_(y, k), pk + q): return False
            continue
        if x.op == 'opt' and y.op == 'opt':
            if prove(eq(x.args[0], y.args[0]), pc) and eq_vec(x.args[1], y.args[1], tuple(pc) + (x.args[0],)): continue
        if 'opt' in (x.op, y.op):
            if x.op != 'opt': x, y, sa, sb = y, x, sb, sa
            w = vec('L', [y] + sb)
            for c, v in ((x.args[0], list(vcat('L', x.args[1]).args[1:])), (neg_c(x.args[0]), [])):
                h = tuple(pc) + (tuple(c.args) if c.op == 'and' else (c,))
                if not prove(FALSE, h) and not eq_vec(vec('L', v + sa), w, h): return False
            return True
        return False
    return all(empty_seg(s, pc) for s in sa + sb)


def empty_seg(s, pc):
    if s.op in ('gen', 'cat') and prove(le(s.args[0], ZERO), pc): return True
    return s.op == 'opt' and (prove(neg_c(s.args[0]), pc) or s.args[1].op == 'vec' and all(empty_seg(q, pc) for q in s.args[1].args[1:]))
