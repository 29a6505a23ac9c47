"""Models (assumed contracts) of the Python builtins and of the numpy / CasADi functions the code under contract uses.

Every entry is part of the trusted base and is listed in the evidence when it was used."""
import functools
from fractions import Fraction
from .terms import *
from . import terms as tm
from .solve import simp, equal, ENUM_DOM, NONNEG
from .interp import (Ref, SubRef, Seq, MatC, InstC, DictC, OpaqueC, FuncVal, ClassVal, EnumM, BoundM, Lib, Unsupported,
                     PyRaise, RangeV, EnumV, ZipV, DictItems, KIND, TAG, unlift, SuperV)

USED = set()


class DiagV:
    def __init__(self, v): self.v = v


class MaskIdx:
    """np.where(mask)[0]"""
    def __init__(self, mask): self.mask = mask
    def vec(self, I):
        """the positions, in order"""
        out = []; off = ZERO
        for s in self.mask.args[1:]:
            if s.op == 'one': out.append(mk('opt', s.args[0], vec('L', [one(off)])))
            elif s.op == 'gen':
                k = fresh('x'); out.append(bind('cat', k, s.args[0], vec('L', [mk('opt', open_(s, k), vec('L', [one(add(off, k))]))])))
            else: raise Unsupported('positions of a mask')
            off = add(off, seg_len(s))
        return vec('L', out)


class FuncSX:
    """ca.Function built from expressions: kept as a record for the specification"""
    def __init__(self, name, ins, outs): self.name, self.ins, self.outs = name, ins, outs


def call_funcsx(I, f, args):
    """application of a CasADi function whose inputs are symbols: substitution"""
    if len(f.outs) != 1 or len(args) != len(f.ins): raise Unsupported('application of a CasADi function')
    tab = {}
    for x, a in zip(f.ins, args):
        v = retag('S', asvec(I, a))
        if x.op != 'vec' or not equal(vlen(x), vlen(v), I.pcs): raise Unsupported('argument of a CasADi function')
        if len(x.args) == 1: continue
        if len(x.args) != 2: raise Unsupported('argument of a CasADi function')
        k = fresh('q'); t = x.args[1].args[0] if x.args[1].op == 'one' else open_(x.args[1], k)
        if not (t.op == 'app' and t.args[0] == 'sym' and t.args[-1] is (ZERO if x.args[1].op == 'one' else k)) or t.args[2] in tab: raise Unsupported('input of a CasADi function')
        tab[t.args[2]] = (t.args[3:-1], v)
    memo = {}
    def walk(t):
        if not isinstance(t, T): return t
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'app' and t.args[0] == 'sym' and t.args[2] in tab:
            lv, v = tab[t.args[2]]
            if t.args[3:-1] != lv: raise Unsupported('symbols of another iteration')
            r = I.elem(v, walk(t.args[-1]))
        elif t.op in BINDERS:
            k = fresh('w'); n = walk(t.args[0])
            with I.fam(k, n): b = walk(open_(t, k))
            r = bind(t.op, k, n, b)
        elif t.op == 'poly':
            parts = []
            for c, mon in t.args[0]:
                q = [num(c)]
                for at, p in mon: q.append(power(walk(at), p))
                parts.append(mul(*q))
            r = add(*parts)
        else: r = tm.rebuild(t.op, [walk(x) for x in t.args])
        memo[t] = r
        return r
    out = walk(f.outs[0])
    return I.thaw(out)


# ------------------------------------------------------------------ helpers
def isscalar(I, v):
    return isinstance(v, (int, float, Fraction)) or (isinstance(v, T) and not I._container(v) and v.op not in ('vec', 'mat'))


def un(I, v):
    """resolve conditional containers"""
    if isinstance(v, T) and v.op == 'ite' and I._container(v): return I.thaw(v)
    if isinstance(v, T) and v.op in ('vec', 'mat', 'const', 'tup'): return I.thaw(v)
    return v


def num_of(I, v):
    v = un(I, v)
    if isinstance(v, bool): return lift(int(v))
    if isinstance(v, (int, float, Fraction, T)): return lift(v)
    if isinstance(v, (Ref, SubRef)):
        c = I.cell(v)
        if isinstance(c, Seq) and len(c.v.args) == 2 and c.v.args[1].op == 'one': return c.v.args[1].args[0]
        if isinstance(c, Seq) and I.proves(eq(vlen(c.v), ONE)): return I.elem(c.v, ZERO)
        if isinstance(c, MatC) and I.proves(eq(vlen(c.rows), ONE)) and c.nc is ONE: return I.elem(I.elem(c.rows, ZERO), ZERO)
    raise Unsupported(f'number expected, got {v!r}')


def kind_of(I, v):
    v = un(I, v)
    if isinstance(v, (Ref, SubRef)):
        c = I.cell(v)
        if isinstance(c, (Seq, MatC)): return c.kind
        if isinstance(c, OpaqueC): return getattr(c.h, 'kind', 'opaque')
    return None


def is_mat(I, v): return isinstance(v, (Ref, SubRef)) and isinstance(I.cell(v), MatC)


def shape_arg(I, a):
    """shape tuple -> list of length terms"""
    if isinstance(a, tuple): return [num_of(I, x) for x in a]
    if isinstance(a, (Ref, SubRef)): return [num_of(I, x) for x in I.concrete_items(a)]
    return [num_of(I, a)]


def filled(I, kind, dims, val):
    val = lift(val)
    if len(dims) == 1: return I.seq(kind, gen('L', dims[0], lambda k: val))
    if len(dims) == 2:
        if kind == 'sx' and dims[1] is ONE: return I.seq('sx', gen('L', dims[0], lambda k: val))
        row = gen('L', dims[1], lambda k: val)
        return I.new(MatC(kind, dims[1], gen('L', dims[0], lambda k: row)))
    if not dims: return val
    raise Unsupported('array of more than two dimensions')


def asvec(I, v):
    """flat vec term of a scalar, column or one-dimensional array"""
    v = un(I, v)
    if isinstance(v, (int, float, Fraction, T)): return vec('S', [one(lift(v))])
    if isinstance(v, (Ref, SubRef)):
        c = I.cell(v)
        if isinstance(c, MatC):
            if I.proves(eq(c.nc, ONE)): return I.map_vec(c.rows, lambda r: I.elem(r, ZERO))
            if I.proves(eq(c.nc, ZERO)): return vec('S', [])
            if I.proves(eq(vlen(c.rows), ZERO)): return vec('S', [])
            raise Unsupported('vector expected, got a matrix')
        if isinstance(c, OpaqueC) and hasattr(c.h, 'asvec'): return c.h.asvec(I, v)
    return I.vecof(v)


def lenvec(I, v): return vlen(asvec(I, v))


def elementwise(I, f, a, b, kind):
    va, vb = asvec(I, a), asvec(I, b)
    sa, sb = isscalar(I, a), isscalar(I, b)
    la, lb = vlen(va), vlen(vb)
    if sa and sb: return f(lift(un(I, a)), lift(un(I, b)))
    if not sa and not sb and (va is vb or equal(la, lb, I.pcs)):
        return I.seq(kind, I.zip_vec(va, vb, f))
    if sa or I.proves(eq(la, ONE)):
        x = I.elem(va, ZERO); return I.seq(kind, I.map_vec(vb, lambda y: f(x, y)))
    if sb or I.proves(eq(lb, ONE)):
        y = I.elem(vb, ZERO); return I.seq(kind, I.map_vec(va, lambda x: f(x, y)))
    if I.decide(eq(la, lb)): return I.seq(kind, I.zip_vec(va, vb, f))
    if I.decide(eq(la, ONE)):
        x = I.elem(va, ZERO); return I.seq(kind, I.map_vec(vb, lambda y: f(x, y)))
    if I.decide(eq(lb, ONE)):
        y = I.elem(vb, ZERO); return I.seq(kind, I.map_vec(va, lambda x: f(x, y)))
    raise PyRaise('RuntimeError', 'dimension mismatch')


def mat_rows(I, m):
    return I.cell(m)


ARITH = dict(Add=add, Sub=sub, Mult=mul, Div=lambda a, b: div(a, b), Pow=lambda a, b: power(a, b))


def sx_dom(k1, k2):
    if 'sx' in (k1, k2): return 'sx'
    if 'np' in (k1, k2): return 'np'
    return 'sx' if False else 'np'


def binop(I, op, a, b):
    a, b = un(I, a), un(I, b)
    if isinstance(a, (int, Fraction, bool)) and isinstance(b, (int, Fraction, bool)) and op in ('Add', 'Sub', 'Mult'):
        return {'Add': a + b, 'Sub': a - b, 'Mult': a * b}[op]
    if isinstance(a, int) and isinstance(b, int) and op in ('FloorDiv', 'Mod'):
        return a // b if op == 'FloorDiv' else a % b
    for x, y, r in ((a, b, False), (b, a, True)):
        if isinstance(x, Ref) and isinstance(I.cell(x), OpaqueC) and hasattr(I.cell(x).h, 'binop'):
            z = I.cell(x).h.binop(I, op, x, y, r)
            if z is not NotImplemented: return z
    if isinstance(a, str) and op == 'Add' and isinstance(b, str): return a + b
    if isinstance(a, str) and op == 'Mod': return a
    if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add': return a + b
    if isinstance(a, DiagV) and op == 'MatMult':
        return elementwise(I, mul, I.seq('sx', a.v), b, 'sx')
    ka, kb = kind_of(I, a), kind_of(I, b)
    if op == 'Add' and (ka == 'list' or kb == 'list') and ka == kb:
        return I.seq('list', vcat('L', I.vecof(a), I.vecof(b)))
    if op == 'Mult' and ('list' in (ka, kb)) and (isscalar(I, a) or isscalar(I, b)) and not (ka and kb):
        l, n = (a, b) if ka == 'list' else (b, a)
        v = I.vecof(l); n = lift(un(I, n))
        if not is_int(n): raise PyRaise('TypeError')
        if len(v.args) == 2 and v.args[1].op == 'one':
            x = v.args[1].args[0]
            return I.seq('list', gen('L', tmax0(I, n), lambda k: x))
        return I.seq('list', cat('L', tmax0(I, n), lambda k: v))
    if op == 'MatMult': return matmul(I, a, b)
    if op in ('BitAnd', 'BitOr') and isscalar(I, a) and isscalar(I, b):
        f = conj if op == 'BitAnd' else disj
        return I.boolc(f(lift(I.truth(a)), lift(I.truth(b))))
    if op == 'BitXor' and isscalar(I, a) and isscalar(I, b):
        x, y = lift(I.truth(a)), lift(I.truth(b))
        return I.boolc(disj(conj(x, neg_c(y)), conj(neg_c(x), y)))
    if op in ('BitAnd', 'BitOr'):
        f = conj if op == 'BitAnd' else disj
        return elementwise(I, f, a, b, 'np')
    f = ARITH.get(op)
    if f is None: raise Unsupported(f'operator {op}')
    if isinstance(a, (str, FuncVal, EnumM)) or isinstance(b, (str, FuncVal, EnumM)) or a is None or b is None:
        raise PyRaise('TypeError')
    if is_mat(I, a) or is_mat(I, b):
        A = I.cell(a) if is_mat(I, a) else None
        B = I.cell(b) if is_mat(I, b) else None
        kind = sx_dom(ka, kb)
        if A is not None and B is None and (isscalar(I, b) or I.proves(eq(lenvec(I, b), ONE))) :
            y = num_of(I, b); return I.new(MatC(kind, A.nc, I.map_vec(A.rows, lambda r: I.map_vec(r, lambda x: f(x, y)))))
        if B is not None and A is None and (isscalar(I, a) or I.proves(eq(lenvec(I, a), ONE))):
            y = num_of(I, a); return I.new(MatC(kind, B.nc, I.map_vec(B.rows, lambda r: I.map_vec(r, lambda x: f(y, x)))))
        if A is not None and B is not None:
            return I.new(MatC(kind, A.nc, I.zip_vec(A.rows, B.rows, lambda r, q: I.zip_vec(r, q, f, 'L'), 'L')))
        if (A or B).nc is ONE and 'sx' in (ka, kb): return elementwise(I, f, a, b, 'sx')
        raise Unsupported('matrix arithmetic with broadcasting')
    if 'list' in (ka, kb) and not ({'np', 'sx'} & {ka, kb}):
        raise PyRaise('TypeError')
    if isscalar(I, a) and isscalar(I, b):
        x, y = num_of(I, a), num_of(I, b)
        if op == 'Div':
            if y is ZERO: raise PyRaise('ZeroDivisionError')
        return unlift(f(x, y))
    return elementwise(I, f, a, b, sx_dom(ka, kb))


def tmax0(I, n):
    if I.proves(le(ZERO, n)): return n
    if I.decide(le(ZERO, n)): return n
    return ZERO


def matmul(I, a, b):
    if is_mat(I, a) and not is_mat(I, b):
        A = I.cell(a); v = asvec(I, b)
        if not I.proves(eq(A.nc, vlen(v))):
            if not I.decide(eq(A.nc, vlen(v))): raise PyRaise('RuntimeError', 'dimension mismatch')
        kind = sx_dom(A.kind, kind_of(I, b))
        return I.seq(kind, I.map_vec(A.rows, lambda r: dot(I, r, v)))
    if is_mat(I, b) and not is_mat(I, a):
        raise Unsupported('vector times matrix')
    raise Unsupported('matrix product')


def dot(I, u, v):
    w = I.zip_vec(u, v, mul)
    return vsum(I, w)


def vsum(I, w):
    out = []
    for s in I.resolve_opts(w).args[1:]:
        if s.op == 'one': out.append(s.args[0])
        elif s.op == 'gen': out.append(summ(s.args[0], lambda k, s=s: open_(s, k)))
        elif s.op == 'cat': out.append(summ(s.args[0], lambda k, s=s: vsum(I, open_(s, k))))
        elif s.op == 'phi': out.append(app('phisum', s.args[0]))
        else: raise Unsupported('sum')
    return add(*out)


# ------------------------------------------------------------------ comparison
def is_str(v): return isinstance(v, str) or (isinstance(v, T) and v.op in ('var', 'app') and v.args[1] == 'E:str')


def compare(I, op, a, b):
    if op in ('Is', 'IsNot') and (a is None or b is None):
        x = b if a is None else a
        if isinstance(x, T) and x.op == 'ite' and I._container(x):
            def isn(t):
                if t.op == 'ite': return disj(conj(t.args[0], isn(t.args[1])), conj(neg_c(t.args[0]), isn(t.args[2])))
                return TRUE if t.op == 'const' and t.args[0] is None else FALSE
            r = simp(isn(x), I.pcs)
            return I.boolc(r if op == 'Is' else neg_c(r))
    a, b = un(I, a), un(I, b)
    if op in ('In', 'NotIn'):
        r = contains(I, a, b)
        return I.boolc(r if op == 'In' else neg_c(r))
    if op in ('Is', 'IsNot'):
        r = same_object(I, a, b)
        return I.boolc(r if op == 'Is' else neg_c(r))
    if op in ('Eq', 'NotEq'):
        r = equals(I, a, b)
        if isinstance(r, (Ref,)):
            return r if op == 'Eq' else I.new(Seq('np', I.map_vec(I.cell(r).v, neg_c)))
        return I.boolc(r if op == 'Eq' else neg_c(r))
    f = dict(Lt=lt, LtE=le, Gt=lambda x, y: lt(y, x), GtE=lambda x, y: le(y, x))[op]
    if isscalar(I, a) and isscalar(I, b): return I.boolc(f(num_of(I, a), num_of(I, b)))
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None: raise PyRaise('TypeError')
    ka, kb = kind_of(I, a), kind_of(I, b)
    if 'sx' in (ka, kb) or 'np' in (ka, kb): return elementwise(I, f, a, b, sx_dom(ka, kb))
    raise Unsupported('comparison')


def contains(I, x, c):
    if isinstance(c, DictC): return TRUE if x in c.d else FALSE
    if isinstance(c, str) and isinstance(x, str): return TRUE if x in c else FALSE
    if isinstance(c, tuple): return disj(*[lift(equals(I, x, y)) for y in c])
    if isinstance(c, ClassVal) and c.enum: return disj(*[eq(lift(x), const(EnumM(c.name, n))) for n in c.enum])
    if isinstance(c, RangeV): return conj(le(c.a, lift(x)), lt(lift(x), c.b))
    if isinstance(c, (Ref, SubRef)):
        cc = I.cell(c)
        if isinstance(cc, DictC): return TRUE if x in cc.d else FALSE
        if isinstance(cc, Seq): return memb(I, I.freeze(x), cc.v)
        if isinstance(cc, OpaqueC): return cc.h.contains(I, c, x)
    raise Unsupported('in')


def memb(I, x, v):
    """x is an element of the vec term v"""
    out = []
    for s in v.args[1:]:
        if s.op == 'one': out.append(eq(x, s.args[0]))
        elif s.op == 'gen':
            k = fresh('e'); out.append(bind('exi', k, s.args[0], eq(x, open_(s, k))))
        elif s.op == 'cat':
            k = fresh('e'); out.append(bind('exi', k, s.args[0], memb(I, x, open_(s, k))))
        elif s.op == 'opt': out.append(conj(s.args[0], memb(I, x, s.args[1])))
        elif s.op == 'oseg': out.append(app('memb', x, s, sort='B'))
        else: raise Unsupported('membership')
    return disj(*out)


def same_object(I, a, b):
    if a is None or b is None:
        if a is None and b is None: return TRUE
        x = b if a is None else a
        if isinstance(x, T) and x.op in ('var', 'app') and isinstance(x.args[1], str) and (x.args[1].startswith('E:') or left_over(x)):
            return eq(x, const(None))
        return FALSE
    if isinstance(a, (EnumM, bool, str)) or isinstance(b, (EnumM, bool, str)): return lift(equals(I, a, b))
    if isinstance(a, Ref) and isinstance(b, Ref): return TRUE if a.a == b.a else FALSE
    if isinstance(a, (ClassVal, Lib)) or isinstance(b, (ClassVal, Lib)):
        return TRUE if a is b or (isinstance(a, Lib) and isinstance(b, Lib) and a.name == b.name) else FALSE
    raise Unsupported('is')


def equals(I, a, b):
    if isinstance(a, (Ref, SubRef)) or isinstance(b, (Ref, SubRef)):
        if a is None or b is None or isinstance(a, (str, EnumM)) or isinstance(b, (str, EnumM)): return FALSE
        ka, kb = kind_of(I, a), kind_of(I, b)
        if ka == 'list' and kb == 'list':
            return eqvec(I, I.vecof(a), I.vecof(b))
        if ka in ('np', 'sx') or kb in ('np', 'sx'):
            return elementwise(I, eq, a, b, sx_dom(ka, kb))
        raise Unsupported('equality of containers')
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b): return FALSE
        return conj(*[lift(equals(I, x, y)) for x, y in zip(a, b)])
    if isinstance(a, tuple) or isinstance(b, tuple): return FALSE
    if isinstance(a, T) or isinstance(b, T): return eq(lift(a), lift(b))
    if isinstance(a, (int, float, Fraction)) and isinstance(b, (int, float, Fraction)): return eq(lift(a), lift(b))
    if type(a).__name__ == type(b).__name__ and isinstance(a, (Lib, ClassVal)): return same_object(I, a, b)
    return TRUE if a == b else FALSE


def eqvec(I, u, v):
    if equal(u, v, I.pcs): return TRUE
    if len(u.args) == len(v.args) and all(s.op == 'one' for s in u.args[1:] + v.args[1:]):
        return conj(*[eq(x.args[0], y.args[0]) for x, y in zip(u.args[1:], v.args[1:])])
    if not u.args[1:] or not v.args[1:]:
        return eq(vlen(u), vlen(v))
    if all(len(x.args) == 2 and x.args[1].op == 'gen' for x in (u, v)):
        k = fresh('q'); n = u.args[1].args[0]
        return conj(eq(vlen(u), vlen(v)), bind('all', k, n, eq(open_(u.args[1], k), open_(v.args[1], k))))
    raise Unsupported('list equality')


# ------------------------------------------------------------------ indexing
def is_full(s): return isinstance(s, slice) and s.start is None and s.stop is None and s.step is None


def bounds(I, s, n):
    if s.step is not None and s.step not in (1,): raise Unsupported('slice step')
    def clip(x, d):
        if x is None: return d
        x = num_of(I, x)
        if x.op == 'num' and x.args[0] < 0: x = add(n, x)
        elif x.op != 'num' and not I.proves(le(ZERO, x)):
            if I.decide(lt(x, ZERO)): x = add(n, x)
        if not I.proves(le(ZERO, x)) and not I.decide(le(ZERO, x)): x = ZERO
        if not I.proves(le(x, n)) and not I.decide(le(x, n)): x = n
        return x
    a, b = clip(s.start, ZERO), clip(s.stop, n)
    return a, b


def getitem(I, o, i):
    o = un(I, o); i = un(I, i) if not isinstance(i, (slice, tuple)) else i
    if isinstance(o, tuple):
        if isinstance(i, slice): return o[i]
        j = num_of(I, i)
        if j.op == 'num':
            j = int(j.args[0])
            if not -len(o) <= j < len(o): raise PyRaise('IndexError')
            return o[j]
        raise Unsupported('tuple index')
    if isinstance(o, str): raise Unsupported('string index')
    if isinstance(o, MaskIdx):
        if i == 0: return o
    if isscalar(I, o) and isinstance(o, T) and (i == 0 or i == -1 or i is None or is_full(i)): return o
    if isinstance(o, (Ref, SubRef)):
        c = I.cell(o)
        if isinstance(c, OpaqueC): return c.h.getitem(I, o, i)
        if isinstance(c, DictC):
            if isinstance(i, T): i = unlift(i)
            if i not in c.d: raise PyRaise('KeyError')
            return c.d[i]
        if isinstance(c, MatC): return mat_get(I, o, c, i)
        v = c.v
        if isinstance(i, slice):
            if is_full(i): return I.seq(c.kind, v)
            v = I.resolve_opts(v)
            a, b = bounds(I, i, vlen(v))
            return I.seq(c.kind, I.slice_vec(v, a, b))
        if isinstance(i, tuple):
            if len(i) == 2 and c.kind == 'sx':
                if is_full(i[1]) or equal(num_of(I, i[1]), ZERO, ()): return getitem(I, o, i[0])
            raise PyRaise('IndexError')
        if isinstance(i, RangeV): i = I.listify(i)
        if isscalar(I, i):
            if not is_int(num_of(I, i)): raise Unsupported('index is not an integer')
            v = I.resolve_opts(v)
            j = I.index(vlen(v), num_of(I, i))
            t = I.elem(v, j)
            return I.elem_value(o, j, t)
        if isinstance(i, (Ref, SubRef)):
            ic = I.cell(i)
            if isinstance(ic, Seq) and c.kind in ('np', 'sx'):
                n = vlen(I.resolve_opts(v))
                if c.kind == 'np' and ic.v.args[1:] and ic.v.args[1].op in ('one', 'gen') and (ic.v.args[1].args[0] if ic.v.args[1].op == 'one' else ic.v.args[1].args[1]).op == 'vec':
                    if not same_length(I, ic.v): raise PyRaise('ValueError', 'ragged index')
                    return I.seq('np', I.map_vec(ic.v, lambda w: I.map_vec(w, lambda t: I.elem(v, I.index(n, t)))))
                return I.seq(c.kind, I.map_vec(ic.v, lambda t: I.elem(v, I.index(n, t))))
        raise Unsupported('subscript')
    if isinstance(o, T) and o.op in ('app', 'var') and o.args[1] in I.obj_attr:
        h = I.obj_attr.get('item:' + o.args[1])
        if h: return h(I, o, i)
    if o is None: raise PyRaise('TypeError')
    raise Unsupported(f'subscript of {o!r}')


def mat_get(I, o, c, i):
    if isinstance(i, tuple) and len(i) == 2:
        r, q = i
        if isinstance(r, slice) and isinstance(q, slice):
            rows = c.rows if is_full(r) else I.slice_vec(c.rows, *bounds(I, r, vlen(c.rows)))
            if is_full(q): return I.new(MatC(c.kind, c.nc, rows))
            a, b = bounds(I, q, c.nc)
            return I.new(MatC(c.kind, sub(b, a), I.map_vec(rows, lambda w: I.slice_vec(w, a, b))))
        if isinstance(r, slice):
            rows = c.rows if is_full(r) else I.slice_vec(c.rows, *bounds(I, r, vlen(c.rows)))
            j = I.index(c.nc, num_of(I, q))
            w = I.map_vec(rows, lambda t: I.elem(t, j))
            return I.seq(c.kind, w)
        row = I.elem(c.rows, I.index(vlen(c.rows), num_of(I, r)))
        if isinstance(q, slice):
            w = row if is_full(q) else I.slice_vec(row, *bounds(I, q, c.nc))
            if c.kind == 'sx':
                return I.new(MatC('sx', vlen(w), vec('L', [one(w)])))
            return I.seq(c.kind, w)
        return I.elem(row, I.index(c.nc, num_of(I, q)))
    if isinstance(i, slice):
        rows = c.rows if is_full(i) else I.slice_vec(c.rows, *bounds(I, i, vlen(c.rows)))
        return I.new(MatC(c.kind, c.nc, rows))
    if isscalar(I, i) and c.kind == 'np':
        j = I.index(vlen(c.rows), num_of(I, i))
        t = I.elem(c.rows, j)
        return SubRef(o, j) if isinstance(o, (Ref, SubRef)) else I.thaw(t)
    if isscalar(I, i) and c.kind == 'sx':
        if I.proves(eq(c.nc, ONE)): return I.elem(I.elem(c.rows, I.index(vlen(c.rows), num_of(I, i))), ZERO)
        if I.proves(eq(vlen(c.rows), ONE)): return I.elem(I.elem(c.rows, ZERO), I.index(c.nc, num_of(I, i)))
    raise Unsupported('matrix subscript')


def setitem(I, o, i, v):
    o = un(I, o); v = un(I, v)
    if not isinstance(i, (slice, tuple)): i = un(I, i)
    if isinstance(o, (Ref, SubRef)):
        c = I.cell(o)
        if isinstance(c, OpaqueC): return c.h.setitem(I, o, i, v)
        if isinstance(c, DictC):
            d = dict(c.d); d[i if not isinstance(i, T) else unlift(i)] = v
            return I.setcell(o, DictC(d))
        if isinstance(c, MatC): return mat_set(I, o, c, i, v)
        n = vlen(I.resolve_opts(c.v))
        if isscalar(I, i):
            j = I.index(n, num_of(I, i))
            t = I.freeze(v) if c.kind == 'list' else num_of(I, v)
            return I.set_elem(o, j, t)
        if isinstance(i, slice):
            a, b = bounds(I, i, n)
            w = I.resolve_opts(c.v)
            head, tail = I.slice_vec(w, ZERO, a), I.slice_vec(w, b, n)
            m = sub(b, a)
            if isscalar(I, v): mid = gen('L', m, lambda k: num_of(I, v))
            else:
                mid = asvec(I, v)
                if not I.proves(eq(vlen(mid), m)):
                    if I.proves(eq(vlen(mid), ONE)):
                        x = I.elem(mid, ZERO); mid = gen('L', m, lambda k: x)
                    elif not I.decide(eq(vlen(mid), m)): raise PyRaise('ValueError')
            return I.setcell(o, Seq(c.kind, vcat(TAG[c.kind], head, mid, tail)))
        if isinstance(i, MaskIdx):
            x = num_of(I, v)
            return I.setcell(o, Seq(c.kind, I.zip_vec(i.mask, c.v, lambda m, y: ite(m, x, y), TAG[c.kind])))
        if isinstance(i, (Ref, SubRef)):
            ic = I.cell(i)
            if isinstance(ic, Seq) and not ic.v.args[1:]: return
            if isinstance(ic, Seq) and isscalar(I, v) or isinstance(v, bool):
                x = lift(v) if isinstance(v, bool) else num_of(I, v)
                return I.setcell(o, Seq(c.kind, map_idx(I, c.v, lambda j, y: ite(memb(I, j, ic.v), x, y), TAG[c.kind])))
        raise Unsupported('store')
    raise Unsupported(f'store into {o!r}')


def map_idx(I, v, f, tag):
    """elementwise map that also gets the position"""
    out = []; off = ZERO
    for s in I.resolve_opts(v).args[1:]:
        if s.op == 'one': out.append(one(f(off, s.args[0])))
        elif s.op == 'gen':
            k = fresh('x')
            with I.fam(k, s.args[0]): b = f(add(off, k), open_(s, k))
            out.append(bind('gen', k, s.args[0], b))
        else: raise Unsupported('store by index list')
        off = add(off, seg_len(s))
    return vec(tag, out)


def mat_set_cols(I, o, c, q, v):
    """M[:, a:b] = v or M[:, a] = v with the broadcasting of numpy"""
    if c.kind != 'np': raise Unsupported('matrix column store')
    nr = vlen(c.rows)
    if isinstance(q, slice): a, b = bounds(I, q, c.nc)
    else: a = I.index(c.nc, num_of(I, q)); b = add(a, ONE)
    m = sub(b, a)
    vc = I.cell(v) if isinstance(v, (Ref, SubRef)) else None
    if isscalar(I, v):
        x0 = num_of(I, v); mid = lambda j: gen('L', m, lambda k: x0)
    elif isinstance(vc, MatC):
        if not isinstance(q, slice): raise Unsupported('matrix column store')
        if not I.decide(eq(vc.nc, m)): raise Unsupported('matrix column store with broadcasting')
        if not I.decide(eq(vlen(vc.rows), nr)): raise Unsupported('matrix column store with broadcasting')
        mid = lambda j: I.elem(vc.rows, j)
    else:
        w = asvec(I, v)
        if not isinstance(q, slice):
            if not I.decide(eq(vlen(w), nr)): raise Unsupported('matrix column store with broadcasting')
            mid = lambda j: vec('L', [one(I.elem(w, j))])
        else:
            if not I.proves(eq(vlen(w), m)):
                if I.proves(eq(vlen(w), ONE)): x1 = I.elem(w, ZERO); w = gen('L', m, lambda k: x1)
                elif not I.decide(eq(vlen(w), m)): raise PyRaise('ValueError')
            mid = lambda j: w
    new = map_idx(I, c.rows, lambda j, row: vcat('L', I.slice_vec(row, ZERO, a), mid(j), I.slice_vec(row, b, c.nc)), 'L')
    return I.setcell(o, MatC(c.kind, c.nc, new))


def mat_set(I, o, c, i, v):
    if isinstance(i, tuple) and len(i) == 2:
        r, q = i
        if isinstance(r, slice):
            if not is_full(r): raise Unsupported('matrix block store')
            return mat_set_cols(I, o, c, q, v)
        j = I.index(vlen(c.rows), num_of(I, r))
        row = I.elem(c.rows, j)
        if isinstance(q, slice):
            a, b = bounds(I, q, c.nc); m = sub(b, a)
            if isscalar(I, v): mid = gen('L', m, lambda k: num_of(I, v))
            else:
                mid = asvec(I, v)
                if not I.proves(eq(vlen(mid), m)):
                    if I.proves(eq(vlen(mid), ONE)):
                        x = I.elem(mid, ZERO); mid = gen('L', m, lambda k: x)
                    elif not I.decide(eq(vlen(mid), m)): raise PyRaise('ValueError')
            new = vcat('L', I.slice_vec(row, ZERO, a), mid, I.slice_vec(row, b, c.nc))
        else:
            new = I.store(row, I.index(c.nc, num_of(I, q)), num_of(I, v))
        return I.setcell(o, MatC(c.kind, c.nc, I.store(c.rows, j, new)))
    if isscalar(I, i):
        j = I.index(vlen(c.rows), num_of(I, i))
        return I.setcell(o, MatC(c.kind, c.nc, I.store(c.rows, j, retag('L', asvec(I, v)))))
    raise Unsupported('matrix store')


# ------------------------------------------------------------------ attributes of values
def no_attr(kind, a):
    """an attribute without model: an error of the program only where the real type does not have it"""
    import numpy
    if kind == 'sx' or hasattr(list if kind == 'list' else numpy.ndarray, a): raise Unsupported(f'attribute {a} of a {kind}')
    raise PyRaise('AttributeError', a)


def getattr_(I, o, a):
    o = un(I, o)
    if isinstance(o, (Ref, SubRef)):
        c = I.cell(o)
        if isinstance(c, Seq):
            n = vlen(c.v)
            if a == 'shape':
                if c.kind == 'list': raise PyRaise('AttributeError')
                return (unlift(n),) if c.kind == 'np' else (unlift(n), 1)
            if a == 'size' and c.kind == 'np': return unlift(n)
            if a == 'T': return o if c.kind == 'np' else I.new(MatC('sx', n, vec('L', [one(retag('L', c.v))])))
            if a in METHODS[c.kind]: return lambda II, *x, **k: METHODS[c.kind][a](II, o, *x, **k)
            no_attr(c.kind, a)
        if isinstance(c, MatC):
            if a == 'shape': return (unlift(vlen(c.rows)), unlift(c.nc))
            if a == 'size': return unlift(mul(vlen(c.rows), c.nc))
            if a in MATM: return lambda II, *x, **k: MATM[a](II, o, *x, **k)
            no_attr(c.kind, a)
        if isinstance(c, DictC):
            if a == 'items': return lambda II: DictItems([(k, v) for k, v in II.cell(o).d.items()])
            if a == 'keys': return lambda II: DictItems(list(II.cell(o).d.keys()))
            if a == 'values': return lambda II: DictItems(list(II.cell(o).d.values()))
            if a == 'get': return lambda II, k, d=None: II.cell(o).d.get(k, d)
            if a == 'update':
                def upd(II, other=None, **kw):
                    d = dict(II.cell(o).d)
                    if other is not None: d.update(II.cell(other).d)
                    d.update(kw); II.setcell(o, DictC(d))
                return upd
            if a == 'copy': return lambda II: II.new(DictC(dict(II.cell(o).d)))
    if isscalar(I, o):
        if a == 'shape' and isinstance(o, T): return (1, 1)
        if a in ('full', 'flatten', 'tolist', 'T', 'copy'):
            if a == 'T': return o
            if a == 'full': return lambda II: II.new(MatC('np', ONE, vec('L', [one(vec('L', [one(lift(o))]))])))
            return lambda II: o
        if a == 'numel': return lambda II: 1
    if isinstance(o, MaskIdx) and a == 'tolist': return lambda II: o
    if isinstance(o, str):
        if a in ('format', 'join', 'strip'): return lambda II, *x, **k: o
        if a in ('startswith', 'endswith', 'lower', 'upper'): return lambda II, *x: getattr(o, a)(*x)
    if isinstance(o, FuncSX):
        raise Unsupported(f'attribute {a} of a CasADi function')
    if o is None: raise PyRaise('AttributeError', a)
    raise Unsupported(f'attribute {a} of {o!r}')


def m_tolist(I, o): return I.seq('list', I.cell(o).v)
def m_copy(I, o): c = I.cell(o); return I.new(Seq(c.kind, c.v))
def m_flatten(I, o): c = I.cell(o); return I.new(Seq('np', retag('N', c.v)))


def m_extend(I, o, v): I.list_extend(o, v)
def m_append(I, o, v): I.list_append(o, v)


def m_insert(I, o, i, v):
    c = I.cell(o)
    if num_of(I, i) is ZERO: I.setcell(o, Seq('list', vec('L', [one(I.freeze(v))] + list(c.v.args[1:])))); return
    raise Unsupported('insert')


def m_full(I, o):
    c = I.cell(o)
    return I.new(MatC('np', ONE, I.map_vec(c.v, lambda t: vec('L', [one(t)]), 'L')))


METHODS = dict(
    list=dict(append=m_append, extend=m_extend, copy=m_copy, insert=m_insert),
    np=dict(tolist=m_tolist, copy=m_copy, flatten=m_flatten, ravel=m_flatten, astype=lambda I, o, t: o, sum=lambda I, o: vsum(I, I.cell(o).v),
            item=lambda I, o: num_of(I, o)),
    sx=dict(numel=lambda I, o: unlift(vlen(I.cell(o).v)), full=m_full, size1=lambda I, o: unlift(vlen(I.cell(o).v)),
            toarray=m_full, nnz=lambda I, o: unlift(vlen(I.cell(o).v)), size2=lambda I, o: 1,
            is_empty=lambda I, o: I.boolc(eq(vlen(I.cell(o).v), ZERO)), rows=lambda I, o: unlift(vlen(I.cell(o).v)), columns=lambda I, o: 1))


def mm_flatten(I, o):
    c = I.cell(o)
    return I.seq('np', flat_rows(c.rows))


def flat_rows(rows):
    out = []
    for s in rows.args[1:]:
        if s.op == 'one': out += list(s.args[0].args[1:])
        else:
            k = fresh('f'); out.append(bind('cat', k, s.args[0], open_(s, k)))
    return vec('N', out)


MATM = dict(flatten=mm_flatten, ravel=mm_flatten, copy=lambda I, o: I.new(I.cell(o)), full=lambda I, o: I.new(MatC('np', I.cell(o).nc, I.cell(o).rows)),
            tolist=lambda I, o: I.seq('list', I.cell(o).rows))


# ------------------------------------------------------------------ builtins
def b_len(I, x):
    x = un(I, x)
    if isinstance(x, (tuple, str)): return len(x)
    if isinstance(x, RangeV): return unlift(tmax0(I, x.count()))
    if isinstance(x, (Ref, SubRef)):
        c = I.cell(x)
        if isinstance(c, Seq): return unlift(simp(vlen(c.v), I.pcs))
        if isinstance(c, MatC): return unlift(vlen(c.rows))
        if isinstance(c, DictC): return len(c.d)
        if isinstance(c, OpaqueC): return c.h.length(I, x)
    if isinstance(x, T) and x.op in ('app', 'var'):
        h = I.obj_attr.get('len:' + str(x.args[1]))
        if h: return h(I, x)
    if x is None or isscalar(I, x): raise PyRaise('TypeError')
    raise Unsupported('len')


def b_range(I, *a):
    a = [num_of(I, x) for x in a]
    for x in a:
        if not is_int(x): raise PyRaise('TypeError')
    if len(a) == 1: lo, hi, st = ZERO, a[0], 1
    elif len(a) == 2: lo, hi, st = a[0], a[1], 1
    else: lo, hi, st = a[0], a[1], int(numval(a[2]))
    if st == 1 and not I.proves(le(lo, hi)):
        if not I.decide(le(lo, hi)): hi = lo
    return RangeV(lo, hi, st)


def b_sum(I, x, start=0):
    x = un(I, x)
    if isinstance(x, (Ref, SubRef)) and isinstance(I.cell(x), Seq):
        c = I.cell(x)
        if isinstance(start, (Ref, SubRef)):         # list concatenation
            v = I.resolve_opts(c.v); out = [I.vecof(start)]
            for s in v.args[1:]:
                if s.op == 'one': out.append(s.args[0])
                elif s.op == 'gen': out.append(cat('L', s.args[0], lambda k, s=s: open_(s, k)))
                elif s.op == 'cat': out.append(cat('L', s.args[0], lambda k, s=s: flatinner(I, open_(s, k))))
                else: raise Unsupported('sum of lists')
            return I.seq('list', vcat('L', *out))
        v = c.v
        def hasvec(v):
            for s in v.args[1:]:
                b = s.args[0] if s.op == 'one' else s.args[1]
                if s.op == 'cat':
                    if hasvec(b): return True
                elif b.op in ('vec', 'mat'): return True
            return False
        if not hasvec(v): return unlift(add(vsum(I, v), num_of(I, start)))
        return sum_vectors(I, v)
    items = I.concrete_items(x)
    r = start
    for y in items: r = binop(I, 'Add', r, y)
    return r


def sum_vectors(I, v):
    """sum of a list of equally long vectors"""
    acc = None
    kind = 'sx'
    def addv(a, b):
        if a is None: return b
        if I.proves(eq(vlen(a), vlen(b))): return I.zip_vec(a, b, add)
        raise Unsupported('sum of vectors of different length')
    def go(v):
        acc = None
        for s in I.resolve_opts(v).args[1:]:
            if s.op == 'one': acc = addv(acc, s.args[0])
            elif s.op in ('gen', 'cat'):
                k = fresh('v'); b = open_(s, k)
                if s.op == 'cat':
                    with I.fam(k, s.args[0]): b = go(b)
                    if b is None: continue
                out = []
                for q in b.args[1:]:
                    if q.op == 'one': out.append(one(tm.bind('sum', k, s.args[0], q.args[0])))
                    elif q.op == 'gen':
                        j = fresh('j')
                        if k in q.args[0].fv: raise Unsupported('sum of vectors of different length')
                        out.append(bind('gen', j, q.args[0], tm.bind('sum', k, s.args[0], open_(q, j))))
                    else: raise Unsupported('sum of vectors')
                acc = addv(acc, vec('S', out))
            else: raise Unsupported('sum of vectors: ' + s.op)
        return acc
    r = go(v)
    return I.seq('sx', r) if r is not None else 0


def minmax(name, f):
    def g(I, *a, **kw):
        if len(a) == 1:
            x = un(I, a[0])
            v = asvec(I, x)
            v = I.resolve_opts(v)
            if all(s.op == 'one' for s in v.args[1:]): a = [s.args[0] for s in v.args[1:]]
            else: return app(name + 'of', retag('S', v))
        a = [num_of(I, x) for x in a]
        r = a[0]
        for x in a[1:]: r = f(r, x)
        return unlift(r)
    return g


def tmax(a, b):
    if a.op == 'num' and b.op == 'num': return a if a.args[0] >= b.args[0] else b
    if a is b: return a
    return ite(le(b, a), a, b)


def tmin(a, b):
    if a.op == 'num' and b.op == 'num': return a if a.args[0] <= b.args[0] else b
    if a is b: return a
    return ite(le(a, b), a, b)


def tabs(a):
    if a.op == 'num': return num(abs(a.args[0]))
    return ite(le(ZERO, a), a, neg(a))


def b_isinstance(I, x, c):
    x = un(I, x)
    cs = c if isinstance(c, tuple) else (c,)
    out = FALSE
    for q in cs: out = disj(out, lift(inst1(I, x, q)))
    return I.boolc(out)


def inst1(I, x, q):
    if isinstance(x, T) and x.op in ('var', 'app') and ('isinstance:' + str(x.args[1])) in I.obj_attr:
        r = I.obj_attr['isinstance:' + str(x.args[1])](I, x, q)
        if r is not NotImplemented: return r
    if isinstance(q, ClassVal):
        if q.enum is not None:
            if isinstance(x, EnumM): return x.cls == q.name
            return isinstance(x, T) and x.op in ('var', 'app') and x.args[1] == 'E:' + q.name
        if isinstance(x, (Ref, SubRef)):
            c = I.cell(x)
            return isinstance(c, InstC) and isinstance(c.cls, ClassVal) and q.name in c.cls.mro_names()
        return False
    n = q.name if isinstance(q, Lib) else getattr(q, '_pyname', None)
    if n is None: raise Unsupported(f'isinstance of {q!r}')
    n = n.split('.')[-1]
    k = kind_of(I, x)
    if n == 'list': return k == 'list'
    if n == 'tuple': return isinstance(x, tuple) or k == 'tuple'
    if n == 'dict': return isinstance(x, Ref) and isinstance(I.cell(x), DictC)
    if n == 'str': return isinstance(x, str)
    if n == 'int': return (isinstance(x, int)) or (isinstance(x, T) and not k and is_int(x)) or (isinstance(x, T) and x.op in BOOL)
    if n == 'float': return isinstance(x, float) or (isinstance(x, T) and x.op not in BOOL and not k and not is_int(x) and x.op != 'const')
    if n == 'bool': return isinstance(x, bool) or (isinstance(x, T) and (x.op in BOOL or (x.op in ('var', 'app') and x.args[1] == 'B')))
    if n == 'ndarray' or n == 'array': return k == 'np'
    if n in ('SX', 'DM', 'MX'): return k == 'sx' if n == 'SX' else False
    if n == 'NoneType': return x is None
    raise Unsupported(f'isinstance {n}')


def exists(I, v):
    """some entry of a (nested) family of conditions holds"""
    out = []
    for s in v.args[1:]:
        if s.op == 'one': out.append(lift(I.truth(s.args[0])))
        elif s.op in ('gen', 'cat'):
            k = fresh('e'); b = open_(s, k)
            with I.fam(k, s.args[0]):
                if s.op == 'cat': b = exists(I, b)
                elif b.op not in BOOL and not (b.op in ('var', 'app') and b.args[1] == 'B'): b = lift(I.truth(b))
                if b is not TRUE and I.proves(b): b = TRUE
                elif b is not FALSE and I.proves(neg_c(b)): b = FALSE
            out.append(lt(ZERO, s.args[0]) if b is TRUE else bind('exi', k, s.args[0], b) if b is not FALSE else FALSE)
        elif s.op == 'opt': out.append(conj(s.args[0], exists(I, s.args[1])))
        else: raise Unsupported('any')
    return disj(*out)


def forall(I, v):
    out = []
    for s in v.args[1:]:
        if s.op == 'one': out.append(lift(I.truth(s.args[0])))
        elif s.op == 'gen':
            k = fresh('e'); out.append(neg_c(bind('exi', k, s.args[0], neg_c(open_(s, k)))))
        elif s.op == 'cat':
            k = fresh('e'); out.append(neg_c(bind('exi', k, s.args[0], neg_c(forall(I, open_(s, k))))))
        else: raise Unsupported('all')
    return conj(*out)


def b_any(I, x, f=disj):
    v = asvec(I, x)
    return I.boolc(exists(I, v) if f is disj else forall(I, v))


class SetH:
    """a set of numbers; only its size and membership are used"""
    kind = 'set'
    def length(self, I, o): return card(I.cell(o).st)
    def contains(self, I, o, x): return memb(I, I.freeze(x), I.cell(o).st)
    def getattr(self, I, o, a): raise Unsupported('set.' + a)
    def binop(self, I, op, x, y, rev):
        if op != 'Sub' or rev or not (isinstance(y, Ref) and isinstance(I.cell(y), OpaqueC) and I.cell(y).h.__class__ is SetH): return NotImplemented
        a, b = retag('L', I.cell(x).st), retag('L', I.cell(y).st)
        return I.new(OpaqueC(SetH(), gen('L', app('setdiff_n', a, b, sort='I'), lambda i: app('setdiff', a, b, i, sort='I'))))


def card(v): return app('card', retag('L', v), sort='I')


NONNEG.add('setdiff_n')


def b_set(I, x=()):
    x = un(I, x)
    if isinstance(x, RangeV): x = I.listify(x)
    if isinstance(x, tuple): x = I.pylist(list(x))
    v = I.resolve_opts(asvec(I, x))
    if all(s.op == 'one' for s in v.args[1:]) and len(v.args) <= 2: return I.seq('list', v)
    return I.new(OpaqueC(SetH(), v))


def same_length(I, v):
    """all parts of a nested family have the same number of entries (None: not known)"""
    lens = []; ok = [True]
    def walk(v):
        for s in v.args[1:]:
            if s.op == 'one': lens.append(vlen(s.args[0]))
            elif s.op in ('gen', 'cat'):
                k = fresh('n')
                with I.fam(k, s.args[0]):
                    if s.op == 'cat': walk(open_(s, k)); n = ZERO
                    else: n = simp(vlen(open_(s, k)), I.pcs)
                if s.op == 'gen':
                    if k not in n.fv: lens.append(n)
                    elif len(v.args) == 2 and v is top: ok[0] = I.proves(le(card(gen('L', s.args[0], lambda q: vlen(open_(s, q)))), ONE))
                    else: ok[0] = False
                elif any(k in x.fv for x in lens): ok[0] = False
            else: ok[0] = False
    top = v
    walk(v)
    return True if ok[0] and all(n is lens[0] or I.proves(eq(n, lens[0])) for n in lens) else None


def b_list(I, x=()):
    if isinstance(x, (RangeV, EnumV, ZipV)): return I.listify(x)
    if isinstance(x, DictItems): return I.pylist(x.items)
    x = un(I, x)
    if isinstance(x, tuple): return I.pylist(list(x))
    if isinstance(x, (Ref, SubRef)):
        c = I.cell(x)
        if isinstance(c, Seq): return I.seq('list', c.v)
        if isinstance(c, DictC): return I.pylist(list(c.d))
    raise Unsupported('list()')


def b_abs(I, x):
    x = un(I, x)
    if isscalar(I, x): return unlift(tabs(num_of(I, x)))
    c = I.cell(x)
    return I.new(Seq(c.kind, I.map_vec(c.v, tabs)))


def b_round(I, x, n=None):
    t = num_of(I, x)
    if t.op == 'num': return round(t.args[0])
    return app('round', t, sort='I')


def b_int(I, x):
    if isinstance(x, T) and (x.op in BOOL or x.op in ('var', 'app') and x.args[1] == 'B'): return ite(x, ONE, ZERO) if any(v in I.scratch for v in x.fv) else int(I.decide(x))
    t = num_of(I, x)
    if is_int(t): return unlift(t)
    if t.op == 'app' and t.args[0] in ('round',): return t
    return app('int', t, sort='I')


def b_float(I, x):
    return num_of(I, x)


def b_bool(I, x): return I.truth(x)


def b_hasattr(I, o, a):
    try: v = I.getattr(o, a)
    except PyRaise: return False
    return not left_over(v) or I.decide(var('has_' + a, 'B'))


def left_over(v):
    """value of an attribute stored by an earlier call, if there was one"""
    return isinstance(v, T) and v.op == 'app' and v.args[1] == 'O:left'


def b_getattr(I, o, a, *d):
    try:
        v = I.getattr(o, a)
        return d[0] if d and left_over(v) and not I.decide(var('has_' + a, 'B')) else v
    except PyRaise:
        if d: return d[0]
        raise


def b_type(I, o):
    if isinstance(o, Ref) and isinstance(I.cell(o), InstC): return I.cell(o).cls
    k = kind_of(I, o)
    if k == 'list': return B_LIST
    raise Unsupported('type()')


def b_sorted(I, x, **kw): return ('sorted', x)


def mkb(name, f):
    def g(I, *a, **kw): USED.add('builtin ' + name); return f(I, *a, **kw)
    g._pyname = name
    return g


BUILTINS = {n: mkb(n, f) for n, f in dict(
    len=b_len, range=b_range, sum=b_sum, min=minmax('min', tmin), max=minmax('max', tmax), isinstance=b_isinstance,
    enumerate=lambda I, x, start=0: EnumV(x, start), zip=lambda I, *x: ZipV(list(x)), any=b_any,
    all=lambda I, x: b_any(I, x, conj), list=b_list, abs=b_abs, round=b_round, int=b_int, float=b_float, bool=b_bool,
    set=b_set, tuple=lambda I, x=(): tuple(I.concrete_items(x)), dict=lambda I, *a, **kw: b_dict(I, *a, **kw), str=lambda I, x='': '{}', repr=lambda I, x: '{}',
    hasattr=b_hasattr, getattr=b_getattr, setattr=lambda I, o, a, v: I.setattr(o, a, v), type=b_type, sorted=b_sorted,
    print=lambda I, *a, **kw: None, breakpoint=lambda I: None, slice=lambda I, *a: slice(*a),
    property=lambda I, *a, **kw: ('property', a, kw)).items()}
B_LIST = BUILTINS['list']
for _n in ('Exception', 'ValueError', 'TypeError', 'NotImplementedError', 'Warning', 'RuntimeError', 'IndexError', 'KeyError', 'AttributeError', 'object', 'id'):
    pass


def b_dict(I, *a, **kw):
    d = {}
    if a:
        x = a[0]
        if isinstance(x, ZipV):
            for s in I.iteration_segments(x):
                if s[0] != 'one': raise Unsupported('dict of a family')
                d[s[1][0]] = s[1][1]
        elif isinstance(x, DictItems):
            for k, v in x.items: d[k] = v
        else: d.update(I.cell(x).d)
    d.update(kw)
    return I.new(DictC(d))


# ------------------------------------------------------------------ numpy / casadi
def parts_of(I, seq):
    """the list of arrays given to concatenate / vertcat"""
    if isinstance(seq, (tuple, list)): return list(seq)
    seq = un(I, seq)
    if isinstance(seq, tuple): return list(seq)
    return None


def concat_list(I, seq, kind):
    p = parts_of(I, seq)
    if p is not None:
        return I.seq(kind, vcat('L', *[asvec(I, x) for x in p]))
    v = I.resolve_opts(I.vecof(seq)); out = []
    for s in v.args[1:]:
        if s.op == 'one': out.append(s.args[0] if s.args[0].op in ('vec', 'ite') and I._container(s.args[0]) else vec('L', [s]))
        elif s.op == 'gen':
            k = fresh('g'); b = open_(s, k)
            out.append(cat('L', s.args[0], lambda q, s=s: open_(s, q)) if b.op == 'vec' else vec('L', [s]))
        elif s.op == 'cat': out.append(cat('L', s.args[0], lambda q, s=s: flatinner(I, open_(s, q))))
        else: raise Unsupported('concatenate')
    return I.seq(kind, vcat('L', *out))


def flatinner(I, v):
    out = []
    for s in v.args[1:]:
        if s.op == 'one': out.append(s.args[0] if s.args[0].op == 'vec' else vec('L', [s]))
        elif s.op == 'gen': out.append(cat('L', s.args[0], lambda q, s=s: open_(s, q)))
        else: raise Unsupported('concatenate')
    return vcat('L', *out)


def np_concatenate(I, seq, axis=0):
    p = parts_of(I, seq)
    if p is not None and any(is_mat(I, x) for x in p): raise Unsupported('concatenate of matrices')
    return concat_list(I, seq, 'np')


def ca_vertcat(I, *xs):
    xs = [un(I, x) for x in xs]
    # zero-size parts are dropped; matrices must agree in width
    mats = [x for x in xs if is_mat(I, x) and not I.proves(eq(vlen(I.cell(x).rows), ZERO)) and not I.proves(eq(I.cell(x).nc, ONE))]
    if mats:
        nc = I.cell(mats[0]).nc
        rows = []
        for x in xs:
            if is_mat(I, x):
                c = I.cell(x)
                if I.proves(eq(vlen(c.rows), ZERO)): continue
                if not equal(c.nc, nc, I.pcs):
                    if not I.decide(eq(c.nc, nc)): raise PyRaise('RuntimeError')
                rows.append(c.rows)
            else:
                v = asvec(I, x)
                if I.proves(eq(vlen(v), ZERO)): continue
                raise Unsupported('vertcat of a column and a matrix')
        return I.new(MatC('sx', nc, vcat('L', *rows)))
    if len(xs) == 1 and isscalar(I, xs[0]): return I.seq('sx', asvec(I, xs[0]))
    return I.seq('sx', vcat('S', *[asvec(I, x) for x in xs]))


def ca_horzcat(I, *xs):
    vs = [retag('L', asvec(I, x)) for x in xs]
    if len(vs) == 2:
        w = I.zip_vec(vs[0], vs[1], lambda a, b: vec('L', [one(a), one(b)]), 'L')
        return I.new(MatC('sx', num(2), w))
    raise Unsupported('horzcat')


def ca_horzsplit(I, m, *a):
    m = un(I, m)
    c = I.cell(m)
    if isinstance(c, MatC):
        if not is_num(c.nc): raise Unsupported('horzsplit of unknown width')
        return I.pylist([I.seq('sx', I.map_vec(c.rows, lambda r, j=j: I.elem(r, num(j)))) for j in range(int(numval(c.nc)))])
    return I.pylist([m])


def sx_sym(I, name, n=1, m=1):
    n = num_of(I, n)
    m = num_of(I, m)
    uid = next(I.uid)
    lv = [k for k, _ in I.loopvars]
    if m is not ONE:
        return I.new(MatC('sx', m, gen('L', n, lambda i: gen('L', m, lambda j: app('sym', num(uid), *lv, i, j)))))
    if n is ONE: return I.seq('sx', vec('S', [one(app('sym', num(uid), *lv, ZERO))]))
    return I.seq('sx', gen('S', n, lambda i: app('sym', num(uid), *lv, i)))


def sx_ctor(I, x=None, *a):
    if x is None: return I.seq('sx', vec('S', []))
    if a:
        return filled(I, 'sx', [num_of(I, x)] + [num_of(I, y) for y in a], 0)
    x = un(I, x)
    if isscalar(I, x): return I.seq('sx', vec('S', [one(num_of(I, x))]))
    if is_mat(I, x):
        c = I.cell(x); return I.new(MatC('sx', c.nc, c.rows))
    return I.seq('sx', asvec(I, x))


def sx_zeros(I, *a, val=0):
    if len(a) == 1 and isinstance(a[0], tuple): a = a[0]
    d = [num_of(I, x) for x in a] or [ONE]
    if len(d) == 1: d.append(ONE)
    if d[0] is ZERO and d[1] is ZERO: return I.seq('sx', vec('S', []))
    return filled(I, 'sx', d, val)


def mapfn(f):
    def g(I, x, *r):
        x = un(I, x)
        if isscalar(I, x): return unlift(f(num_of(I, x)))
        c = I.cell(x)
        if isinstance(c, OpaqueC): c2 = asvec(I, x); return I.seq('np', I.map_vec(c2, f))
        if isinstance(c, MatC): return I.new(MatC(c.kind, c.nc, I.map_vec(c.rows, lambda q: I.map_vec(q, f))))
        return I.new(Seq('np' if c.kind == 'list' else c.kind, I.map_vec(c.v, f)))
    return g


def fn1(name):
    def f(t):
        if name == 'sqrt' and t.op == 'num' and t.args[0] in (0, 1): return t
        if name == 'tanh' and t is ZERO: return ZERO
        if name == 'exp' and t is ZERO: return ONE
        return app(name, t)
    return mapfn(f)


def ew2(f):
    def g(I, a, b):
        ka, kb = kind_of(I, a), kind_of(I, b)
        r = elementwise(I, f, a, b, sx_dom(ka, kb))
        return unlift(r) if isinstance(r, T) else r
    return g


def red(name):
    def g(I, x):
        v = asvec(I, x)
        v = I.resolve_opts(v)
        if len(v.args) == 2 and v.args[1].op == 'one': return v.args[1].args[0]
        return app(name, retag('S', v))
    return g


def ca_sum1(I, x): return vsum(I, asvec(I, x))


def np_array(I, x, **kw):
    x = un(I, x)
    if isscalar(I, x): return num_of(I, x)
    if isinstance(x, (RangeV,)): x = I.listify(x)
    if isinstance(x, tuple): x = I.pylist(list(x))
    c = I.cell(x)
    if isinstance(c, OpaqueC): return I.call(c.h.getattr(I, x, 'copy'), [], {}) if getattr(c.h, 'mutable', False) else x
    if isinstance(c, MatC): return I.new(MatC('np', c.nc, c.rows))
    v = c.v
    nested = [s for s in v.args[1:] if s.op in ('one', 'gen') and (s.args[0] if s.op == 'one' else s.args[1]).op in ('vec', 'mat')]
    if nested:
        if len(nested) == len(v.args) - 1 and all(s.op == 'one' and s.args[0].op == 'vec' and all(q.op == 'one' and q.args[0].op == 'num' for q in s.args[0].args[1:]) for s in nested) \
                and len({len(s.args[0].args) for s in nested}) == 1:
            return I.new(MatC('np', num(len(nested[0].args[0].args) - 1), vec('L', [one(retag('L', s.args[0])) for s in nested])))
        if not homogeneous(I, v): raise PyRaise('ValueError', 'inhomogeneous shape')
        return I.new(OpaqueC(NDIdx(), v))
    return I.seq('np', I.map_vec(v, lambda t: t))


def homogeneous(I, v):
    """all parts of a nested family have the same shape"""
    def leafy(v): return not any((s.args[0].op == 'vec') if s.op == 'one' else (s.args[1].op == 'vec') if s.op == 'gen' else not leafy(open_(s, fresh('n'))) if s.op == 'cat' else False for s in v.args[1:])
    if leafy(v): return True
    if not same_length(I, v): return False
    for s in v.args[1:]:
        if s.op == 'one': ok = homogeneous(I, s.args[0])
        elif s.op == 'gen':
            k = fresh('n')
            with I.fam(k, s.args[0]): ok = homogeneous(I, open_(s, k))
        elif s.op == 'cat':
            k = fresh('n')
            with I.fam(k, s.args[0]): ok = all(homogeneous(I, t.args[0]) if t.op == 'one' else homogeneous(I, open_(t, fresh('n'))) if t.op == 'gen' else False for t in open_(s, k).args[1:])
        else: ok = False
        if not ok: return False
    return True


class NDIdx:
    """multi-dimensional integer array built from nested lists (only used as an index)"""
    kind = 'ndidx'
    def getattr(self, I, o, a):
        if a in ('flatten',): return lambda II: II.seq('np', deep_flat(II.cell(o).st))
        if a == 'T' or a == 'shape': raise Unsupported('array attribute')
        raise Unsupported(a)
    def getitem(self, I, o, i): raise Unsupported('index array subscript')
    def length(self, I, o): return unlift(vlen(I.cell(o).st))


def deep_flat(v):
    out = []
    for s in v.args[1:]:
        if s.op == 'one':
            if s.args[0].op == 'vec': out += list(deep_flat(s.args[0]).args[1:])
            else: out.append(s)
        elif s.op == 'gen':
            k = fresh('f'); b = open_(s, k)
            if b.op == 'vec': out.append(bind('cat', k, s.args[0], deep_flat(b)))
            else: out.append(s)
        elif s.op == 'cat':
            k = fresh('f'); out.append(bind('cat', k, s.args[0], deep_flat(open_(s, k))))
        elif s.op == 'oseg': out.append(s)
        else: raise Unsupported('flatten')
    return vec('L', out)


def np_append(I, a, b):
    return I.seq('np', vcat('L', asvec(I, a), asvec(I, b)))


def np_cumsum(I, x):
    v = I.resolve_opts(asvec(I, x))
    segs = v.args[1:]
    out = []; base = ZERO
    for s in segs:
        if s.op == 'one': base = add(base, s.args[0]); out.append(one(base))
        elif s.op == 'gen':
            k = fresh('c')
            out.append(bind('gen', k, s.args[0], add(base, summ(add(k, ONE), lambda q, s=s: open_(s, q)))))
            base = add(base, summ(s.args[0], lambda q, s=s: open_(s, q)))
        elif s.op == 'cat':
            k, j = fresh('c'), fresh('d')
            b = open_(s, k)
            pre = add(base, summ(k, lambda q, s=s: vsum(I, open_(s, q))))
            inner = []
            for t in b.args[1:]:
                if t.op == 'one': pre = add(pre, t.args[0]); inner.append(one(pre))
                elif t.op == 'gen':
                    inner.append(bind('gen', j, t.args[0], add(pre, summ(add(j, ONE), lambda q, t=t: open_(t, q)))))
                    pre = add(pre, summ(t.args[0], lambda q, t=t: open_(t, q)))
                else: raise Unsupported('cumsum')
            out.append(bind('cat', k, s.args[0], vec('L', inner)))
            base = add(base, summ(s.args[0], lambda q, s=s: vsum(I, open_(s, q))))
        else: raise Unsupported('cumsum')
    return I.seq('np', vec('L', out))


def np_array_equal(I, a, b, close=False):
    a, b = un(I, a), un(I, b)
    if left_over(a) or left_over(b): return app('eq_left', I.freeze(a), I.freeze(b), sort='B')
    if close: raise Unsupported('allclose')
    return I.boolc(eqvec(I, retag('L', asvec(I, a)), retag('L', asvec(I, b))))


def np_empty(I, shape, **kw):
    """only used as np.empty(dims + (0,), dtype=int).tolist(): nested lists of empty lists"""
    d = shape_arg(I, shape)
    if d[-1] is ZERO:
        t = vec('L', [])
        for n in reversed(d[:-1]): t = gen('L', n, lambda k, t=t: t)
        return I.new(OpaqueC(NDEmpty(), t))
    raise Unsupported('np.empty')


class NDEmpty:
    kind = 'nd'
    def getattr(self, I, o, a):
        if a == 'tolist': return lambda II: II.seq('list', II.cell(o).st)
        raise Unsupported(a)


def np_where(I, m):
    return (MaskIdx(asvec(I, m)),)


def np_sum(I, x): return unlift(vsum(I, asvec(I, x)))


def np_full(I, shape, v): return filled(I, 'np', shape_arg(I, shape), num_of(I, v))


def ca_function(I, name, ins, outs, *a):
    f = FuncSX(name, [I.freeze(x) for x in I.concrete_items(ins)], [I.freeze(x) for x in I.concrete_items(outs)])
    return f


def np_isarray(I, x): return kind_of(I, x) == 'np'


def np_hstack(I, x): return concat_list(I, x, 'np')


def np_max(I, x): return BUILTINS['max'](I, x)


def np_reshape(I, *a): raise Unsupported('reshape')


INF_ = lambda *a: INF

LIB = {
    'numpy.ones': lambda I, s, **k: filled(I, 'np', shape_arg(I, s), 1), 'numpy.zeros': lambda I, s, **k: filled(I, 'np', shape_arg(I, s), 0),
    'numpy.full': np_full, 'numpy.concatenate': np_concatenate, 'numpy.hstack': np_hstack, 'numpy.append': np_append,
    'numpy.flatnonzero': lambda I, m: np_where(I, m)[0], 'numpy.array': np_array, 'numpy.asarray': np_array, 'numpy.cumsum': np_cumsum, 'numpy.empty': np_empty, 'numpy.abs': b_abs, 'numpy.where': np_where,
    'numpy.sum': np_sum, 'numpy.max': np_max, 'numpy.sqrt': fn1('sqrt'), 'numpy.nan_to_num': lambda I, x: I.seq('np', I.map_vec(asvec(I, x), lambda t: app('nan_to_num', t))) if not is_mat(I, x) else app_mat(I, x, 'nan_to_num'),
    'numpy.array_equal': np_array_equal, 'numpy.allclose': lambda I, a, b, **kw: np_array_equal(I, a, b, True),
    'numpy.any': b_any, 'numpy.all': lambda I, x: b_any(I, x, conj), 'numpy.isnan': mapfn(lambda t: FALSE),
    'numpy.log': fn1('log'), 'numpy.round': b_round, 'numpy.isinf': mapfn(lambda t: TRUE if t in (INF, neg(INF)) else FALSE),
    'warnings.warn': lambda I, *a, **k: None,
    'casadi.vertcat': ca_vertcat, 'casadi.vcat': lambda I, x: concat_list(I, x, 'sx'), 'casadi.horzcat': ca_horzcat,
    'casadi.horzsplit': ca_horzsplit, 'casadi.veccat': ca_vertcat,
    'casadi.SX.sym': sx_sym, 'casadi.SX': sx_ctor, 'casadi.DM': sx_ctor, 'casadi.SX.zeros': sx_zeros, 'casadi.SX.ones': lambda I, *a: sx_zeros(I, *a, val=1),
    'casadi.SX.eye': lambda I, n: I.seq('sx', vec('S', [one(ONE)])) if num_of(I, n) is ONE else _unsup('eye'),
    'casadi.diag': lambda I, v: DiagV(asvec(I, v)), 'casadi.sqrt': fn1('sqrt'), 'casadi.tanh': fn1('tanh'), 'casadi.exp': fn1('exp'),
    'casadi.sin': fn1('sin'), 'casadi.cos': fn1('cos'), 'casadi.log': fn1('log'),
    'casadi.fabs': mapfn(tabs), 'casadi.fmax': ew2(tmax), 'casadi.fmin': ew2(tmin), 'casadi.mmax': red('maxof'), 'casadi.mmin': red('minof'),
    'casadi.mtimes': lambda I, a, *r: functools.reduce(lambda x, y: binop(I, 'MatMult', x, y), r, a),
    'casadi.sum1': ca_sum1, 'casadi.transpose': lambda I, x: getattr_(I, x, 'T'), 'casadi.Function': ca_function, 'casadi.dot': lambda I, a, b: dot(I, asvec(I, a), asvec(I, b)),
    'casadi.sum2': lambda I, x: x, 'casadi.norm_inf': red('norm_inf'), 'time.time': lambda I: app('clock', num(next(I.uid))),
    'copy.copy': lambda I, x: I.new(I.cell(x)) if isinstance(x, Ref) else x, 'copy': lambda I, x: I.new(I.cell(x)) if isinstance(x, Ref) else x,
}


def app_mat(I, x, f):
    c = I.cell(x)
    return I.new(MatC(c.kind, c.nc, I.map_vec(c.rows, lambda r: I.map_vec(r, lambda t: app(f, t)))))


def _unsup(m): raise Unsupported(m)


CONSTS = {'numpy.inf': INF, 'casadi.inf': INF, 'numpy.nan': None, 'math.inf': INF}


def call(I, name, args, kw):
    if name.startswith('exc.'): return const(('exc', name[4:]))
    f = I.lib.get(name) or LIB.get(name)
    if f is None:
        short = name.split('.', 1)
        f = LIB.get(name)
    if f is None: raise Unsupported(f'library function {name}')
    USED.add(name)
    return f(I, *args, **kw)
