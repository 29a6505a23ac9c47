"""Terms of the verification condition generator.

Hash-consed, immutable.  Numbers are kept in polynomial normal form over atoms, so that equality of
terms is identity of nodes modulo the theory reasoning in solve.py.  Binders (sums, products,
generated sequences) are canonical up to renaming of the bound variable (bound variable = height)."""
from fractions import Fraction
from functools import lru_cache
import itertools

_TAB = {}
_CNT = itertools.count()
BINDERS = ('sum', 'prod', 'gen', 'cat', 'exi', 'all')


class T:
    __slots__ = ('op', 'args', 'id', 'fv', 'hgt')

    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __bool__(self): raise TypeError(f'symbolic truth value of {show(self)[:200]}')


EMPTY = frozenset()


def mk(op, *args):
    key = (op,) + tuple(('t', a.id) if isinstance(a, T) else (type(a).__name__, a) for a in args)
    n = _TAB.get(key)
    if n is None:
        n = T()
        n.op, n.args, n.id = op, args, next(_CNT)
        fv = EMPTY; h = 0
        for a in args:
            if isinstance(a, T):
                if a.fv: fv = fv | a.fv
                if a.hgt > h: h = a.hgt
            elif isinstance(a, tuple) and op != 'const':      # poly monomials
                for c, m in a:
                    for at, p in m:
                        if at.fv: fv = fv | at.fv
                        if at.hgt > h: h = at.hgt
        if op == 'var': fv = frozenset([n])
        if op in BINDERS: h += 1
        n.fv, n.hgt = fv, h
        _TAB[key] = n
    return n


# ------------------------------------------------------------------ leaves
def num(x):
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int): return mk('num', Fraction(x))
    if isinstance(x, Fraction): return mk('num', x)
    if isinstance(x, float):
        if x == float('inf'): return INF
        if x == -float('inf'): return neg(INF)
        return mk('num', Fraction(repr(x)))
    raise TypeError(x)


_fresh = itertools.count()


def var(name, sort='I'): return mk('var', name, sort)
def fresh(prefix='k', sort='I'): return mk('var', f'{prefix}!{next(_fresh)}', sort)
def app(f, *args, sort='R'): return mk('app', f, sort, *[lift(a) for a in args])
def const(v): return mk('const', v)


def lift(v):
    if isinstance(v, T): return v
    if isinstance(v, (bool,)): return TRUE if v else FALSE
    if isinstance(v, (int, float, Fraction)): return num(v)
    return const(v)


TRUE = mk('true'); FALSE = mk('false')
INF = mk('var', 'INF', 'R')
ZERO = num(0); ONE = num(1)


def is_num(t): return isinstance(t, T) and t.op == 'num'


def numval(t):
    """Fraction or None"""
    return t.args[0] if t.op == 'num' else None


# ------------------------------------------------------------------ polynomials
def _mono(t):
    """list of (coef, monomial) of a numeric node"""
    if t.op == 'num': return [(t.args[0], ())] if t.args[0] else []
    if t.op == 'poly': return t.args[0]
    return [(Fraction(1), ((t, 1),))]


def _mk_poly(d):
    items = [(c, m) for m, c in d.items() if c]
    if not items: return ZERO
    if len(items) == 1:
        c, m = items[0]
        if not m: return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1: return m[0][0]
    items.sort(key=lambda cm: tuple((a.id, p) for a, p in cm[1]))
    key = ('poly',) + tuple((c, tuple((a.id, p) for a, p in m)) for c, m in items)
    n = _TAB.get(key)
    if n is None:
        n = T(); n.op = 'poly'; n.args = (tuple(items),); n.id = next(_CNT)
        fv = EMPTY; h = 0
        for c, m in items:
            for a, p in m:
                if a.fv: fv = fv | a.fv
                if a.hgt > h: h = a.hgt
        n.fv, n.hgt = fv, h
        _TAB[key] = n
    return n


def add(*ts):
    d = {}
    for t in ts:
        t = lift(t)
        for c, m in _mono(t): d[m] = d.get(m, 0) + c
    return _mk_poly(d)


def scale(c, t):
    return _mk_poly({m: Fraction(c) * k for k, m in _mono(t)})


def neg(t): return scale(-1, lift(t))
def sub(a, b): return add(lift(a), neg(b))


def _mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = {}
    for a, p in itertools.chain(m1, m2): d[a] = d.get(a, 0) + p
    return tuple(sorted(((a, p) for a, p in d.items() if p), key=lambda x: x[0].id))


def mul(*ts):
    r = ONE
    for t in ts:
        t = lift(t); d = {}
        for c1, m1 in _mono(r):
            for c2, m2 in _mono(t):
                m = _mmul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        r = _mk_poly(d)
    return r


def inv(t):
    t = lift(t)
    if t.op == 'num':
        if not t.args[0]: raise ZeroDivisionError
        return num(1 / t.args[0])
    ms = _mono(t)
    if len(ms) == 1:          # 1/(c m) is a monomial with negative powers
        c, m = ms[0]
        return _mk_poly({tuple((a, -p) for a, p in m): 1 / c})
    lead = ms[0][0]           # normalise the leading coefficient
    return scale(1 / lead, _mk_poly({((mk('lin', scale(1 / lead, t)), -1),): Fraction(1)}))


def div(a, b): return mul(a, inv(b))


def power(a, p):
    a = lift(a)
    if isinstance(p, T): p = numval(p) if p.op == 'num' else p
    if isinstance(p, (int, float, Fraction)) and Fraction(p).denominator == 1 and abs(p) <= 8:
        p = int(p)
        r = ONE
        for _ in range(abs(p)): r = mul(r, a)
        return r if p >= 0 else inv(r)
    if a.op == 'num' and a.args[0] == 1: return ONE
    return app('pow', a, p)


# ------------------------------------------------------------------ conditions
def le(a, b): return _cmp('le0', sub(a, b))
def lt(a, b): return _cmp('lt0', sub(a, b))


def is_int(t):
    if t.op == 'num': return t.args[0].denominator == 1
    if t.op == 'var': return t.args[1] == 'I'
    if t.op == 'bnd': return True
    if t.op == 'app': return t.args[1] == 'I'
    if t.op == 'poly': return all(c.denominator == 1 and all(p > 0 and is_int(a) for a, p in m) for c, m in t.args[0])
    if t.op in ('sum', 'prod'): return is_int(t.args[1])
    if t.op == 'ite': return is_int(t.args[1]) and is_int(t.args[2])
    return False


def _cmp(op, p):
    if p.op == 'num':
        v = p.args[0]
        return TRUE if (v <= 0 if op == 'le0' else v < 0 if op == 'lt0' else v == 0) else FALSE
    if op == 'lt0' and is_int(p): return _cmp('le0', add(p, ONE))
    if op == 'eq0' or True:       # normalise scale
        ms = _mono(p); c = ms[-1][0]
        k = abs(c) if op != 'eq0' else c
        if k != 1 and not (is_int(p) and op != 'eq0'): p = scale(1 / k, p)
        elif op == 'eq0' and c < 0: p = neg(p)
    return mk(op, p)


NUMOPS = ('num', 'poly', 'var', 'app', 'sum', 'prod', 'bnd', 'ite', 'lin')


def eq(a, b):
    a, b = lift(a), lift(b)
    if a is b: return TRUE
    if a.op == 'const' or b.op == 'const':
        if a.op == 'const' and b.op == 'const': return TRUE if a.args[0] == b.args[0] else FALSE
        if a.op in ('var', 'app') or b.op in ('var', 'app'):
            x, c = (a, b) if b.op == 'const' else (b, a)
            return mk('eqc', x, c)
        return FALSE
    if a.op in ('true', 'false') or b.op in ('true', 'false') or a.op in BOOL or b.op in BOOL:
        return disj(conj(a, b), conj(neg_c(a), neg_c(b)))
    return _cmp('eq0', sub(a, b))


BOOL = ('le0', 'lt0', 'eq0', 'eqc', 'and', 'or', 'not', 'true', 'false', 'exi', 'all')


def neg_c(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == 'not': return c.args[0]
    if c.op == 'le0': return _cmp('lt0', neg(c.args[0]))
    if c.op == 'lt0': return _cmp('le0', neg(c.args[0]))
    if c.op == 'and': return disj(*[neg_c(a) for a in c.args])
    if c.op == 'or': return conj(*[neg_c(a) for a in c.args])
    return mk('not', c)


def conj(*cs):
    s = []
    for c in cs:
        c = lift(c)
        if c is FALSE: return FALSE
        for d in (c.args if c.op == 'and' else [c]):
            if d is not TRUE and d not in s: s.append(d)
    for c in s:
        if neg_c(c) in s: return FALSE
    if not s: return TRUE
    if len(s) == 1: return s[0]
    return mk('and', *sorted(s, key=lambda t: t.id))


def disj(*cs):
    s = []
    for c in cs:
        c = lift(c)
        if c is TRUE: return TRUE
        for d in (c.args if c.op == 'or' else [c]):
            if d is not FALSE and d not in s: s.append(d)
    for c in s:
        if neg_c(c) in s: return TRUE
    if not s: return FALSE
    if len(s) == 1: return s[0]
    return mk('or', *sorted(s, key=lambda t: t.id))


def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.args[0], b, a)
    return mk('ite', c, a, b)


# ------------------------------------------------------------------ substitution
def subst(t, m):
    """m: dict var node -> node"""
    if not isinstance(t, T): return t
    m = {k: v for k, v in m.items() if k in t.fv}
    if not m: return t
    key = (t.id,) + tuple(sorted((k.id, v.id) for k, v in m.items()))
    r = _SUB.get(key)
    if r is None: r = _SUB[key] = _subst(t, m, {})
    return r


_SUB = {}


def reset_fresh():
    """names are reused from path to path, so that the (purely logical) caches hit"""
    global _fresh
    _fresh = itertools.count()


def _subst(t, m, memo):
    if not any(k in t.fv for k in m): return t
    r = memo.get(t)
    if r is not None: return r
    op, a = t.op, t.args
    if op == 'var': r = m.get(t, t)
    elif op == 'poly':
        parts = []
        for c, mon in a[0]:
            f = [num(c)]
            for at, p in mon: f.append(_subst_pow(at, p, m, memo))
            parts.append(mul(*f))
        r = add(*parts)
    elif op in BINDERS:
        v = fresh('s'); n, body = a[0], open_(t, v)
        r = bind(op, v, _subst(n, m, memo), subst(body, m))
    else:
        r = rebuild(op, [_subst(x, m, memo) if isinstance(x, T) else x for x in a])
    memo[t] = r
    return r


def _subst_pow(at, p, m, memo):
    if at.op == 'lin':
        b = _subst(at.args[0], m, memo)
    else:
        b = _subst(at, m, memo)
    return power(b, p) if abs(p) <= 8 else mk('app', 'pow', 'R', b, num(p))


def rebuild(op, a):
    if op == 'ite': return ite(*a)
    if op in ('le0', 'lt0', 'eq0'): return _cmp(op, a[0])
    if op == 'eqc': return eq(a[0], a[1])
    if op == 'and': return conj(*a)
    if op == 'or': return disj(*a)
    if op == 'not': return neg_c(a[0])
    if op == 'vec': return vec(a[0], a[1:])
    if op == 'app': return simp_app(a)
    if op == 'lin': return a[0]
    return mk(op, *a)


def simp_app(a):
    f = SIMP.get(a[0])
    if f is not None:
        r = f(*a[2:])
        if r is not None: return r
    return mk('app', *a)


SIMP = {}


# ------------------------------------------------------------------ binders
def bnd(h): return mk('bnd', h)


def bind(op, v, n, body):
    """op in BINDERS; v bound variable node (int), n trip count / guard"""
    n = lift(n); body = lift(body)
    if op == 'sum': return mk_sum(v, n, body)
    if op == 'prod': return mk_prod(v, n, body)
    if op in ('gen', 'cat'): return mk_seg(op, v, n, body)
    return _close(op, v, n, body)


def _close(op, v, n, body):
    b = _replace_var(body, v, bnd(max(n.hgt, body.hgt) + 1))
    return mk(op, n, b)


def _replace_var(t, v, b):
    return _repl(t, v, b, {})


def _repl(t, v, b, memo):
    # like subst, but the replacement is a bound variable: binder bodies keep their own heights
    if t is v: return b
    if v not in t.fv: return t
    r = memo.get(t)
    if r is not None: return r
    if t.op == 'poly':
        d = {}
        for c, mon in t.args[0]:
            f = tuple(sorted(((_repl(at, v, b, memo), p) for at, p in mon), key=lambda x: x[0].id))
            d[f] = d.get(f, 0) + c
        r = _mk_poly(d)
    else:
        a = [_repl(x, v, b, memo) if isinstance(x, T) else x for x in t.args]
        r = remk(t.op, a)
    memo[t] = r
    return r


def remk(op, a):
    """mk with the canonical order of operands, which depends on the names in them"""
    if op == 'eq0': return _cmp(op, a[0])
    if op in ('and', 'or'): return mk(op, *sorted(a, key=lambda t: t.id))
    return mk(op, *a)


_OPEN = {}


def open_(t, v):
    """body of a binder node with its bound variable replaced by v (any term)"""
    key = (t.id, v.id)
    r = _OPEN.get(key)
    if r is None: r = _OPEN[key] = _open(t, v)
    return r


def _open(t, v):
    b = bnd(t.hgt)
    body = t.args[1]
    if v.op == 'var' and v not in t.fv: return _unbind(body, b, v, {})
    u = fresh('o')
    body = _unbind(body, b, u, {})
    return body if v is u else subst(body, {u: v})


def _unbind(t, b, u, memo):
    if t is b: return u
    if t.hgt == 0 and not _has_bnd(t, b): return t
    r = memo.get(t)
    if r is not None: return r
    if t.op == 'poly':
        d = {}
        for c, mon in t.args[0]:
            f = tuple(sorted(((_unbind(at, b, u, memo), p) for at, p in mon), key=lambda x: x[0].id))
            d[f] = d.get(f, 0) + c
        r = _mk_poly(d)
    elif not any(isinstance(x, T) for x in t.args):
        r = t
    else:
        r = remk(t.op, [_unbind(x, b, u, memo) if isinstance(x, T) else x for x in t.args])
    memo[t] = r
    return r


_HB = {}


def _has_bnd(t, b):
    k = (t.id, b.id)
    r = _HB.get(k)
    if r is None:
        if t is b: r = True
        elif t.op == 'poly': r = any(_has_bnd(a, b) for c, m in t.args[0] for a, p in m)
        else: r = any(isinstance(x, T) and _has_bnd(x, b) for x in t.args)
        _HB[k] = r
    return r


def const_part(n):
    for c, m in _mono(n):
        if not m: return c
    return Fraction(0)


def mk_sum(v, n, body):
    c = const_part(n)
    if n.op == 'num':
        if c <= 0: return ZERO
        if c <= 64: return add(*[subst(body, {v: num(i)}) for i in range(int(c))])
    elif c.denominator == 1 and c != 0 and abs(c) <= 8:
        m = sub(n, num(c)); c = int(c)
        if c > 0: return add(mk_sum(v, m, body), *[subst(body, {v: add(m, num(i))}) for i in range(c)])
        sh = subst(body, {v: add(v, num(c))})
        if _offset(sh, v): return sub(mk_sum(v, m, body), add(*[subst(body, {v: sub(m, num(i))}) for i in range(1, 1 - c)]))
        return sub(mk_sum(v, m, sh), add(*[subst(sh, {v: num(i)}) for i in range(-c)]))
    o = _offset(body, v)
    if o:                              # indices start at the smallest offset 0
        b = subst(body, {v: sub(v, num(o))})
        ends = [subst(b, {v: num(i)}) for i in (range(o) if o > 0 else range(o, 0))]
        t = mk_sum(v, add(n, num(o)), b)
        return sub(t, add(*ends)) if o > 0 else add(t, *ends)
    r = []
    for k, m in _mono(body):
        q = next((a for a, p in m if a.op == 'ite' and p == 1 and v in a.args[0].fv), None) if True else None
        if q is not None:
            rest = _mk_poly({tuple((a, p) for a, p in m if a is not q): k})
            d = _delta(q.args[0], v)
            if d is not None:          # sum_k ite(k == j, f(k), g(k)) = sum_k g(k) + ite(0 <= j < n, f(j) - g(j), 0)
                g = mul(rest, q.args[2]); f = mul(rest, q.args[1])
                r.append(mk_sum(v, n, g))
                r.append(ite(conj(le(ZERO, d), lt(d, n)), subst(sub(f, g), {v: d}), ZERO)); continue
        q = next((a for a, p in m if a.op == 'ite' and p == 1 and v not in a.args[0].fv and v in a.fv), None)
        if q is not None:
            rest = _mk_poly({tuple((a, p) for a, p in m if a is not q): k})
            r.append(ite(q.args[0], mk_sum(v, n, mul(rest, q.args[1])), mk_sum(v, n, mul(rest, q.args[2])))); continue
        out = tuple((a, p) for a, p in m if v not in a.fv)
        ins = tuple((a, p) for a, p in m if v in a.fv)
        if not ins:
            r.append(mul(_mk_poly({out: k}), n)); continue
        w = _flat(_mk_poly({ins: Fraction(1)}), v, n)
        if w is not None:
            r.append(mul(_mk_poly({out: k}), vsum_(w))); continue
        r.append(mul(_mk_poly({out: k}), _close('sum', v, n, _mk_poly({ins: Fraction(1)}))))
    return add(*r)


def _offset(t, v):
    """smallest constant c such that v occurs as v + c (0 when v occurs otherwise)"""
    r = _offs(t, v, set(), set())
    if r is None or not r: return 0
    o = min(r)
    return int(o) if o.denominator == 1 and 0 < abs(o) <= 8 else 0


def _offs(t, v, acc, seen):
    if t in seen or v not in t.fv: return acc
    seen.add(t)
    if t is v: acc.add(Fraction(0)); return acc
    if t.op == 'poly':
        lin = None; c = Fraction(0)
        for k, m in t.args[0]:
            if not m: c = k
            elif m == ((v, 1),): lin = k
        if lin is not None:
            if lin != 1: return None
            if any(v in a.fv and m != ((v, 1),) for k, m in t.args[0] for a, p in m): return None
            acc.add(c); return acc
        for k, m in t.args[0]:
            for a, p in m:
                if a is v: return None
                if _offs(a, v, acc, seen) is None: return None
        return acc
    if t.op in ('le0', 'lt0', 'eq0', 'ite'): return None
    for a in t.args:
        if isinstance(a, T) and _offs(a, v, acc, seen) is None: return None
    return acc


def _flat(body, v, n):
    """the vector whose elements body ranges over, if it depends on v < n through el(w, v) of vectors w of length n only"""
    if body.op == 'app' and body.args[0] == 'el' and body.args[3] is v and v not in body.args[2].fv and vlen(body.args[2]) is n:
        return body.args[2]
    if v not in body.fv or n.op == 'num': return None
    els = {}
    if not _els(body, v, n, els, set()) or not els: return None
    memo = {e: fresh('h', e.args[1]) for e in els}
    ph = list(memo.values()); vs = [e.args[2] for e in memo]
    b = _subst(body, {v: v}, memo)
    if v in b.fv: return None
    segs = _zip_segs([w.args[1:] for w in vs], lambda xs: subst(b, dict(zip(ph, xs))))
    return None if segs is None else mk('vec', 'L', *segs)


def _els(t, v, n, acc, seen):
    if t in seen or v not in t.fv: return True
    seen.add(t)
    if t is v: return False
    if t.op == 'app' and t.args[0] == 'el' and t.args[3] is v and v not in t.args[2].fv:
        if t.args[2].op != 'vec' or vlen(t.args[2]) is not n: return False
        acc[t] = 1; return True
    if t.op == 'poly': return all(_els(x, v, n, acc, seen) for k, m in t.args[0] for x, p in m)
    if t.op in BINDERS: return False
    return all(_els(x, v, n, acc, seen) for x in t.args if isinstance(x, T))


def _zip_segs(ss, f):
    """segments of the elementwise image of equally built vectors, or None"""
    if any(len(s) != len(ss[0]) for s in ss): return None
    out = []
    for xs in zip(*ss):
        o = xs[0].op
        if any(x.op != o for x in xs): return None
        if o == 'one': out.append(one(f([x.args[0] for x in xs]))); continue
        if any(x.args[0] is not xs[0].args[0] for x in xs): return None
        q = fresh('q'); bs = [open_(x, q) for x in xs]
        if o == 'gen':
            if any(b.op == 'vec' for b in bs): return None
            out.append(_close('gen', q, xs[0].args[0], f(bs)))
        elif o == 'cat':
            if any(b.op != 'vec' for b in bs): return None
            r = _zip_segs([b.args[1:] for b in bs], f)
            if r is None: return None
            out.append(_close('cat', q, xs[0].args[0], mk('vec', 'L', *r)))
        else: return None
    return out


def vsum_(v):
    r = []
    for s in v.args[1:]:
        if s.op == 'one': r.append(s.args[0])
        else:
            k = fresh('u'); b = open_(s, k)
            r.append(mk_sum(k, s.args[0], b if s.op == 'gen' else vsum_(b)))
    return add(*r)


def vprod(v):
    r = []
    for s in v.args[1:]:
        if s.op == 'one': r.append(s.args[0])
        else:
            k = fresh('u'); b = open_(s, k)
            r.append(mk_prod(k, s.args[0], b if s.op == 'gen' else vprod(b)))
    return mul(*r)


def _delta(c, v):
    """j if the condition is v == j with j free of v"""
    if c.op != 'eq0': return None
    co = None; rest = []
    for k, m in _mono(c.args[0]):
        if m == ((v, 1),): co = k
        elif any(v in a.fv for a, p in m): return None
        else: rest.append((k, m))
    if co not in (1, -1): return None
    return scale(-1 / co, _mk_poly({m: k for k, m in rest}))


def mk_prod(v, n, body):
    w = _flat(body, v, n)
    if w is not None: return vprod(w)
    if n.op == 'num':
        c = n.args[0]
        if c <= 0: return ONE
        if c <= 64: return mul(*[subst(body, {v: num(i)}) for i in range(int(c))])
    if v not in body.fv and body.op == 'num' and body.args[0] == 1: return ONE
    return _close('prod', v, n, body)


# ------------------------------------------------------------------ sequences
def one(x): return mk('one', lift(x))


def mk_seg(op, v, n, body):
    """returns a list-like vec segment (possibly several: wrapped as tuple)"""
    return _close(op, v, n, body)


def seg_len(s):
    if s.op == 'one': return ONE
    if s.op == 'gen': return s.args[0]
    if s.op == 'cat':
        k = fresh('c')
        return mk_sum(k, s.args[0], vlen(open_(s, k)))
    if s.op == 'phi': return app('philen', s.args[0], sort='I')
    if s.op == 'opt': return ite(s.args[0], vlen(s.args[1]), ZERO)
    raise TypeError(s)


def vlen(v):
    if v.op == 'ite': return ite(v.args[0], vlen(v.args[1]), vlen(v.args[2]))
    return add(*[seg_len(s) for s in v.args[1:]])


def vec(tag, segs):
    """normalising constructor: drops empty segments, unrolls constant ones, flattens cats"""
    out = []
    def put(s):
        """append, joining with the preceding family when the result is one family"""
        while out:
            p = out[-1]
            if p.op == 'gen' and s.op == 'one':
                if open_(p, p.args[0]) is not s.args[0]: break
                out.pop(); k = fresh('g'); s = _close('gen', k, add(p.args[0], ONE), open_(p, k))
            elif p.op == 'one' and s.op == 'gen':
                if open_(s, num(-1)) is not p.args[0]: break
                out.pop(); k = fresh('g'); s = _close('gen', k, add(s.args[0], ONE), open_(s, sub(k, ONE)))
            elif p.op == 'gen' and s.op == 'gen':
                k = fresh('g')
                if open_(p, add(p.args[0], k)) is not open_(s, k): break
                out.pop(); s = _close('gen', k, add(p.args[0], s.args[0]), open_(p, k))
            else: break
        out.append(s)
        for L in range(1, 5):                # ... cat(m) followed by its next block
            if len(out) <= L: break
            p = out[-L - 1]
            if p.op == 'cat':
                b = open_(p, p.args[0])
                if b.op == 'vec' and list(b.args[1:]) == out[-L:]:
                    k = fresh('g'); q = _close('cat', k, add(p.args[0], ONE), open_(p, k))
                    del out[-L - 1:]; out.append(q); break
    def push(s):
        if s.op == 'gen':
            n = s.args[0]; c = const_part(n)
            if n.op == 'num':
                if c <= 64:
                    for i in range(max(0, int(c))): put(one(open_(s, num(i))))
                    return
            put(s)
        elif s.op == 'cat':
            n = s.args[0]; c = const_part(n)
            if n.op == 'num':
                if c <= 64:
                    for i in range(max(0, int(c))):
                        for q in open_(s, num(i)).args[1:]: push(q)
                    return
            k = fresh('g'); b = open_(s, k)
            if b.op == 'vec':
                if len(b.args) == 1: return                      # concatenation of empties
                if len(b.args) == 2 and b.args[1].op == 'one':   # one element each
                    push(_close('gen', k, n, b.args[1].args[0])); return
                if b.args[0] != 'L': s = _close('cat', k, n, retag('L', b))
            put(s)
        elif s.op == 'opt':
            if s.args[0] is TRUE:
                for q in s.args[1].args[1:]: push(q)
            elif s.args[0] is not FALSE and len(s.args[1].args) > 1: put(s)
        else: put(s)
    for s in segs: push(s)
    return mk('vec', tag, *out)


def retag(tag, v):
    if v.op == 'ite': return ite(v.args[0], retag(tag, v.args[1]), retag(tag, v.args[2]))
    return v if v.args[0] == tag else mk('vec', tag, *v.args[1:])


def gen(tag, n, f):
    k = fresh('g')
    return vec(tag, [_close('gen', k, lift(n), lift(f(k)))])


def cat(tag, n, f):
    k = fresh('g')
    return vec(tag, [_close('cat', k, lift(n), lift(f(k)))])


def vcat(tag, *vs):
    segs = []
    for v in vs:
        if v.op == 'ite': segs.append(mk('opt', v.args[0], retag(tag, v.args[1]))); segs.append(mk('opt', neg_c(v.args[0]), retag(tag, v.args[2])))
        else: segs += v.args[1:]
    return vec(tag, segs)


def summ(n, f):
    k = fresh('u')
    return mk_sum(k, lift(n), lift(f(k)))


def prod(n, f):
    k = fresh('u')
    return mk_prod(k, lift(n), lift(f(k)))


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if not isinstance(t, T): return repr(t)
    if d > 12: return '..'
    op, a = t.op, t.args
    if op == 'num': return str(a[0])
    if op == 'var': return a[0]
    if op == 'bnd': return f'#{a[0]}'
    if op == 'const': return str(a[0])
    if op == 'app': return f'{a[0]}(' + ','.join(show(x, d + 1) for x in a[2:]) + ')'
    if op == 'poly':
        r = []
        for c, m in a[0]:
            f = ([] if c == 1 and m else [str(c)]) + [show(x, d + 1) + (f'^{p}' if p != 1 else '') for x, p in m]
            r.append('*'.join(f))
        return '(' + ' + '.join(r) + ')'
    if op in BINDERS: return f'{op}[#{t.hgt}<{show(a[0], d + 1)}]({show(a[1], d + 1)})'
    if op == 'vec': return a[0] + '[' + ', '.join(show(x, d + 1) for x in a[1:]) + ']'
    if op == 'one': return show(a[0], d + 1)
    return f'{op}(' + ', '.join(show(x, d + 1) for x in a) + ')'


def decompose(s, r):
    """candidates (k, j) with r = length of the first k parts of the family s + j"""
    out = []
    v = fresh('d'); m = vlen(open_(s, v))
    if v not in m.fv:
        if is_num(m):
            c = m.args[0]
            if c > 0:
                k0 = j0 = ZERO
                for q, mo in _mono(r):
                    t = num(1)
                    for a, p in mo: t = mul(t, power(a, p))
                    if not mo: k0, j0 = add(k0, num(q // c)), add(j0, num(q % c))
                    elif (q / c).denominator == 1: k0 = add(k0, scale(q / c, t))
                    else: j0 = add(j0, scale(q, t))
                out.append((k0, j0))
        else:
            for cm, mm in sorted((x for x in _mono(m) if x[1]), key=lambda x: -sum(p for _, p in x[1])):
                k0 = ZERO
                for q, mo in _mono(r):
                    d = dict(mo); ok = True
                    for a, p in mm:
                        if d.get(a, 0) < p: ok = False; break
                        d[a] = d[a] - p
                    if not ok: continue
                    t = num(q / cm)
                    for a, p in d.items():
                        if p: t = mul(t, power(a, p))
                    k0 = add(k0, t)
                j0 = sub(r, mul(m, k0))
                out += [(k0, j0), (sub(k0, ONE), add(j0, m)), (add(k0, ONE), sub(j0, m))]
    else:
        for q, mo in _mono(r):
            if q == 1 and len(mo) == 1 and mo[0][1] == 1 and mo[0][0].op == 'sum':
                a = mo[0][0]; k0 = a.args[0]
                if mk_sum(v, k0, m) is a: out.append((k0, sub(r, a)))
    out.append((ZERO, r))
    return out


def join_shape(t, same=None):
    """a conditional of two vectors of one length, elementwise"""
    if t.op != 'ite' or t.args[1].op not in ('vec', 'ite') or t.args[2].op != 'vec': return t
    a, b = join_shape(t.args[1], same), t.args[2]
    if a.op != 'vec' or a.args[0] != b.args[0] or len(a.args) != 2 or len(b.args) != 2 or a.args[1].op != 'gen' or b.args[1].op != 'gen': return t
    n = b.args[1].args[0]
    if a.args[1].args[0] is not n and not (same and same(a.args[1].args[0], n, (t.args[0],))): return t
    i = fresh('i')
    return vec(a.args[0], [bind('gen', i, n, ite(t.args[0], open_(a.args[1], i), open_(b.args[1], i)))])
