"""Contracts of the Runge-Kutta coefficient generators, decided in exact rational arithmetic for every offered stage count."""
from functools import lru_cache
from .ctx import *
from .spec import *

SCHEMES = ('RADAU_IIA', 'GAUSS_LEGENDRE')
TOL_D, TOL_I = Fraction(5, 10 ** 11), Fraction(2, 10 ** 8)
NODE_DIGITS = 60


@lru_cache(None)
def roots(s, scheme):
    """collocation nodes to 60 digits (contract of casadi.collocation_points: the nodes of the family)"""
    import sympy as sp
    x = sp.Symbol('x')
    if scheme == 'legendre': q = sp.legendre(s, 2 * x - 1)
    else: q = sp.jacobi(s - 1, 1, 0, 2 * x - 1) * (x - 1)
    out = []
    for r in sp.Poly(sp.expand(q), x).nroots(n=NODE_DIGITS + 10, maxsteps=500):
        out.append(Fraction(str(sp.Float(r, NODE_DIGITS))))
    return sorted(out)


def c_points(I, n, scheme, *a):
    n = numval(lift(n)); sch = scheme if isinstance(scheme, str) else None
    if n is None or sch not in ('radau', 'legendre'): raise Unsupported('collocation_points of unknown arguments')
    if n > 9 or n < 1: raise PyRaise('RuntimeError', 'only orders 1..9 are supported')
    return I.pylist([num(r) for r in roots(int(n), sch)])


def coeffs(I, x):
    v = asvec(I, x)
    if any(s.op != 'one' for s in v.args[1:]): raise Unsupported('polynomial of unknown degree')
    return [s.args[0] for s in v.args[1:]]


def pv(I, c): return I.seq('np', vec('N', [one(x) for x in c]))


def np_convolve(I, a, b, mode='full'):
    p, q = coeffs(I, a), coeffs(I, b)
    if mode != 'full': raise Unsupported('convolve mode')
    r = [ZERO] * (len(p) + len(q) - 1)
    for i, x in enumerate(p):
        for j, y in enumerate(q): r[i + j] = add(r[i + j], mul(x, y))
    return pv(I, r)


def np_polyval(I, p, x):
    r = ZERO; x = num_of(I, x)
    for c in coeffs(I, p): r = add(mul(r, x), c)
    return unlift(r)


def np_polyder(I, p, m=1):
    c = coeffs(I, p)
    for _ in range(int(numval(lift(m)))):
        n = len(c) - 1
        c = [scale(n - i, a) for i, a in enumerate(c[:-1])]
    return pv(I, c)


def np_polyint(I, p):
    c = coeffs(I, p); n = len(c)
    return pv(I, [scale(Fraction(1, n - i), a) for i, a in enumerate(c)] + [ZERO])


def np_poly(I, p):
    r = pv(I, [ONE])
    for x in coeffs(I, p): r = np_convolve(I, r, pv(I, [ONE, neg(x)]))
    return r


LIBO = {'casadi.collocation_points': c_points, 'numpy.convolve': np_convolve, 'numpy.polyval': np_polyval, 'numpy.polyder': np_polyder,
        'numpy.polyint': np_polyint, 'numpy.polymul': np_convolve, 'numpy.poly': np_poly}


def nums(I, x):
    """exact values of a vector"""
    out = [numval(t) for t in coeffs(I, x)]
    if any(t is None for t in out): raise Unsupported('coefficient that is not a number')
    return out


def matrix(I, x):
    c = I.cell(x)
    if not isinstance(c, MatC): raise Unsupported('matrix expected')
    rows = []
    for s in c.rows.args[1:]:
        if s.op != 'one':
            n = numval(s.args[0])
            if n is None: raise Unsupported('matrix of unknown size')
            rows += [open_(s, num(i)) for i in range(int(n))]
        else: rows.append(s.args[0])
    out = []
    for r in rows:
        e = []
        for s in r.args[1:]:
            if s.op == 'one': e.append(s.args[0])
            else: e += [open_(s, num(i)) for i in range(int(numval(s.args[0])))]
        out.append([numval(t) for t in e])
    return out


def order_of(scheme, s): return 2 * s - 1 if scheme == 'RADAU_IIA' else 2 * s


def post_diff(S, I, scheme, s, A, b, c, order, what):
    p = order_of(scheme, s); O = lambda n, ok, d='': S.oblige(f'{what}({s}, {scheme}): C04 {n}', ok, d)
    A, b, c = matrix(I, A), nums(I, b), nums(I, c)
    if not O('shapes agree with the stage count', len(A) == s and all(len(r) == s for r in A) and len(b) == s and len(c) == s, (len(A), len(b), len(c))): return
    if order is not None: O('stated order is the order of the family', numval(lift(order)) == p, order)
    for k in range(1, p + 1):
        r = sum(bi * ci ** (k - 1) for bi, ci in zip(b, c)) - Fraction(1, k)
        O(f'quadrature condition {k}', abs(r) <= TOL_D, float(r))
    for k in range(1, s + 1):
        r = max(abs(sum(a * ci ** (k - 1) for a, ci in zip(A[i], c)) - c[i] ** k / k) for i in range(s))
        O(f'stage condition {k}', r <= TOL_D, float(r))
    O('the last node is the right boundary exactly for Radau', abs(c[-1] - 1) < Fraction(1, 10 ** 12) if scheme == 'RADAU_IIA' else 0 <= c[-1] <= Fraction(99, 100), float(c[-1]))


def post_int(S, I, scheme, s, B, C, D, t, what):
    p = order_of(scheme, s); O = lambda n, ok, d='': S.oblige(f'{what}({s}, {scheme}): C04 {n}', ok, d)
    nd = [Fraction(0)] + roots(s, 'radau' if scheme == 'RADAU_IIA' else 'legendre')
    t, B, D, C = nums(I, t), nums(I, B), nums(I, D), matrix(I, C)
    if not O('nodes are the initial point and the collocation points', t == nd, t): return
    O('the last node is the right boundary exactly for Radau', abs(t[-1] - 1) < Fraction(1, 10 ** 12) if scheme == 'RADAU_IIA' else 0 <= t[-1] <= Fraction(99, 100), float(t[-1]))
    if not O('shapes agree with the stage count', len(C) == s + 1 and all(len(r) == s + 1 for r in C) and len(B) == s + 1 and len(D) == s + 1): return
    for k in range(s + 1):
        r = sum(d * x ** k for d, x in zip(D, t)) - 1
        O(f'end value of the polynomial t^{k}', abs(r) <= TOL_I, float(r))
        e = max(abs(sum(C[i][q] * t[i] ** k for i in range(s + 1)) - (k * t[q] ** (k - 1) if k else 0)) for q in range(s + 1))
        O(f'derivative of the polynomial t^{k} at every node', e <= TOL_I, float(e))
    for k in range(1, p + 1):
        r = sum(B[i] * t[i] ** (k - 1) for i in range(1, s + 1)) - Fraction(1, k)
        O(f'quadrature condition {k} of the stage values', abs(r) <= TOL_I, float(r))


def spec_butcher(S, want):
    fn = lambda I: I.prog.module('rk_utils').ns['generate_butcher_tableu']
    for scheme in SCHEMES:
        for s in range(1, 10):
            def body(I, _, s=s, scheme=scheme): return I.call(fn(I), [s, EnumM('IrkSchemes', scheme)])
            def post(S, I, _, out, s=s, scheme=scheme):
                if not S.oblige(f'generate_butcher_tableu({s}, {scheme}): C04 is available', out[0] == 'return', out): return
                if not isinstance(out[1], tuple) or len(out[1]) != 4: raise Unsupported('result of generate_butcher_tableu')
                post_diff(S, I, scheme, s, *out[1], 'generate_butcher_tableu')
            verify(S, 'rk_utils.generate_butcher_tableu', lambda I: None, body, post, libo=LIBO)
        # every other stage count is refused
        for lo in (True, False):
            def setup(I, lo=lo):
                I.assume(le(var('any_n'), ZERO) if lo else le(num(10), var('any_n')))
            def body(I, _, scheme=scheme): return I.call(fn(I), [var('any_n'), EnumM('IrkSchemes', scheme)])
            def post(S, I, _, out, scheme=scheme):
                S.oblige(f'generate_butcher_tableu({scheme}): C04 any other stage count is refused', out[0] == 'raise', out)
            verify(S, 'rk_utils.generate_butcher_tableu', setup, body, post, libo=LIBO)


def spec_butcher_int(S, want):
    fn = lambda I: I.prog.module('rk_utils').ns['generate_butcher_tableu_integral']
    for scheme in SCHEMES:
        for s in range(1, 10):
            def body(I, _, s=s, scheme=scheme): return I.call(fn(I), [s, EnumM('IrkSchemes', scheme)])
            def post(S, I, _, out, s=s, scheme=scheme):
                if not S.oblige(f'generate_butcher_tableu_integral({s}, {scheme}): C04 is available', out[0] == 'return', out): return
                if not isinstance(out[1], tuple) or len(out[1]) != 4: raise Unsupported('result of generate_butcher_tableu_integral')
                post_int(S, I, scheme, s, *out[1], 'generate_butcher_tableu_integral')
            verify(S, 'rk_utils.generate_butcher_tableu_integral', lambda I: None, body, post, libo=LIBO)
