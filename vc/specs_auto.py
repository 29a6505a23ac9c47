"""Contracts of the automatic model (C16): structural induction over CasADi expression trees.

An arbitrary expression node is a term nd with a number of arguments, an operation and a value; the operations the code
distinguishes are interpreted (sign, minus, max, min, +, -, *), all others are uninterpreted functions of the arguments' values.
Each recursive function is verified once for an arbitrary node; its calls on the arguments answer by the same contract."""
from .ctx import *
from .spec import *
from .libs import un
from .specs_base import Obj0

AM = 'auto_model.NosnocAutoModel.'
ARITY = dict(OP_SIGN=1, OP_NEG=1, OP_SQ=1, OP_SIN=1, OP_COS=1, OP_EXP=1, OP_FABS=1, OP_FMAX=2, OP_FMIN=2, OP_ADD=2, OP_SUB=2, OP_MUL=2, OP_DIV=2)
NONSMOOTH = ('OP_SIGN', 'OP_FMAX', 'OP_FMIN')
solve.NONNEG |= {'n_comps', 'n_sw', 'n_oldc', 'n_ode'}
val = lambda nd: app('val', nd)
dep = lambda nd, k: app('dep', nd, num(k), sort='O:nd')
ndep = lambda nd: app('ndep', nd, sort='I')
isop = lambda nd, o: app('is_' + o, nd, sort='B')
sx1 = lambda I, t: I.seq('sx', vec('S', [one(t)]))
sv = lambda t: vec('S', [one(t)])
NODE = app('node', sort='O:nd')


def node_of(I, o):
    if not isinstance(o, (Ref, SubRef)): return None
    c = I.cell(o)
    v = getattr(c, 'v', None)
    if v is None or c.kind != 'sx' or len(v.args) != 2 or v.args[1].op != 'one': return None
    t = v.args[1].args[0]
    return t.args[2] if t.op == 'app' and t.args[0] == 'val' else None


def opname(I, op):
    n = getattr(op, 'name', None)
    if not isinstance(n, str) or not n.startswith('casadi.OP_') or n[7:] not in ARITY: raise Unsupported(f'CasADi operation {op!r}')
    return n[7:]


def arity(I, nd):
    n = ndep(nd)
    for k in (0, 1, 2):
        if I.proves(eq(n, num(k))): return k
    for k in (0, 1):
        if I.decide(eq(n, num(k))): return k
    I.assume(eq(n, num(2)))
    return 2


def is_op(I, nd, op):
    o = opname(I, op)
    if I.proves(neg_c(eq(ndep(nd), num(ARITY[o])))) or any(I.proves(isop(nd, q)) for q in ARITY if q != o): return False
    if not I.decide(isop(nd, o)): return False
    I.assume(eq(ndep(nd), num(ARITY[o])))
    for q in ARITY:
        if q != o: I.assume(neg_c(isop(nd, q)))
    return True


def apply1(I, o, x): return neg(x) if o == 'OP_NEG' else sgn(x) if o == 'OP_SIGN' else app('op1', const(o), x) if isinstance(o, str) else app('op1', o, x)


def sgn(x): return ite(lt(ZERO, x), ONE, ite(lt(x, ZERO), num(-1), ZERO))


def apply2(o, x, y):
    f = dict(OP_ADD=add, OP_SUB=sub, OP_MUL=mul, OP_DIV=div, OP_FMAX=lambda a, b: ite(le(b, a), a, b), OP_FMIN=lambda a, b: ite(le(a, b), a, b))
    return f[o](x, y) if isinstance(o, str) and o in f else app('op2', o, x, y)


def arities(I, nd):
    """a node with a known number of arguments has no operation of another arity"""
    return tuple(neg_c(isop(nd, o)) for k in (0, 1, 2) if I.proves(eq(ndep(nd), num(k))) for o in ARITY if ARITY[o] != k)


def repl(t, m):
    if t in m: return m[t]
    if t.op in ('app',) and any(isinstance(a, T) for a in t.args): return app(t.args[0], *[repl(a, m) if isinstance(a, T) else a for a in t.args[2:]], sort=t.args[1])
    return t


def op_of(I, nd):
    """the operation of a node as far as the path has decided it"""
    for o in ARITY:
        if I.proves(isop(nd, o)): return o
    return nd


def value(I, nd):
    a = [k for k in (0, 1, 2) if I.proves(eq(ndep(nd), num(k)))]
    if not a: return None
    o = op_of(I, nd)
    if a[0] == 0: return val(nd)
    if a[0] == 1: return apply1(I, o, val(dep(nd, 0)))
    return apply2(o, val(dep(nd, 0)), val(dep(nd, 1)))


def install(I):
    from .interp import Lib
    def build(I, op, *xs):
        if isinstance(op, T) and op.op == 'app' and op.args[0] == 'opcode': o = op_of(I, op.args[2]); I.emit('built', op=op.args[2])
        else: o = opname(I, op); I.emit('built', op=const(o))
        ts = []
        for x in xs:
            v = asvec(I, x)
            if len(v.args) != 2 or v.args[1].op != 'one': raise Unsupported('operation on a vector')
            ts.append(v.args[1].args[0])
        if isinstance(o, str) and len(xs) != ARITY[o]: raise PyRaise('RuntimeError', 'arity')
        return sx1(I, apply1(I, o, *ts) if len(ts) == 1 else apply2(o, *ts))
    def attr(I, o, a):
        if a in ('unary', 'binary') and isinstance(o, (Ref, SubRef)) and getattr(I.cell(o), 'kind', '') == 'sx': return build
        nd = node_of(I, o)
        if nd is None: return NotImplemented
        if a == 'n_dep': return lambda I: arity(I, nd)
        if a == 'is_op': return lambda I, op: is_op(I, nd, op)
        if a == 'op': return lambda I: app('opcode', nd, sort='O:opcode')
        if a == 'dep':
            def d(I, k=0):
                k = un(I, k)
                n = arity(I, nd)
                if not isinstance(k, int) or not 0 <= k < max(n, 0): raise PyRaise('RuntimeError', 'no such argument')
                return sx1(I, val(dep(nd, k)))
            return d
        return NotImplemented
    I.obj_attr['sx'] = attr
    I.lib = dict(I.lib, **{'casadi.SX.unary': build, 'casadi.SX.binary': build,
                           'casadi.vertsplit': lambda I, v: I.seq('list', I.gen('L', vlen(asvec(I, v)), lambda i: sv(I.elem(asvec(I, v), i))))})


def self_obj(I, **at):
    return I.new(InstC(I.prog.module('auto_model').ns['NosnocAutoModel'], at))


OLDC = gen('L', var('n_oldc'), lambda i: sv(app('c_old', i)))
OLDA = gen('L', var('n_oldc'), lambda i: sv(app('a_old', i)))


def rec(first, f):
    st = {}
    def c(I, s, node):
        if first and st.get('I') is not I: st['I'] = I; return NotImplemented
        nd = node_of(I, node)
        if nd is None: raise Unsupported('query about a composed expression')
        return f(I, s, nd)
    return c


smooth = lambda nd: app('smooth', nd, sort='B')
additive = lambda nd: app('additive', nd, sort='B')
comp = lambda nd: gen('L', app('n_comps', nd, sort='I'), lambda i: sv(app('comp', nd, i)))


def c_smooth(first): return rec(first, lambda I, s, nd: unlift(smooth(nd)))
def c_additive(first): return rec(first, lambda I, s, nd: unlift(additive(nd)))
def c_comps(first): return rec(first, lambda I, s, nd: I.seq('list', comp(nd)))


def c_rebuild(first):
    """appends the switching functions and weights below the node in step; the value is that of the node when every weight indicates the sign of its function"""
    def f(I, s, nd):
        n = app('n_sw', nd, sort='I')
        for a, g in (('c', 'cs'), ('alpha', 'as')):
            I.setattr(s, a, I.seq('list', vcat('L', I.vecof(I.getattr(s, a)), gen('L', n, lambda i, g=g: sv(app(g, nd, i))))))
        return sx1(I, app('reb', nd))
    return rec(first, f)


def truth(out):
    """returned truth value (None counts as false)"""
    if out[0] != 'return': return None
    v = out[1]
    return FALSE if v is None else lift(v) if isinstance(v, (bool, T)) else None


def node_spec(S, name, contracts, post, **at):
    def setup(I):
        install(I)
        o = Obj0(); o.self_ = self_obj(I, **{k: v(I) for k, v in at.items()}); o.node = sx1(I, val(NODE))
        o.before = dict(I.cell(o.self_).at); o.frozen = {k: I.freeze(v) for k, v in o.before.items()}
        return o
    def body(I, o): return I.call(I.cell(o.self_).cls.lookup(name), [o.self_, o.node])
    verify(S, AM + name, setup, body, post, contracts=contracts)


def spec_smoothq(S, want):
    def post(S, I, o, out):
        pc = tuple(I.pcs) + arities(I, NODE)
        b = truth(out); n = [k for k in (0, 1, 2) if I.proves(eq(ndep(NODE), num(k)))]
        ns = disj(*[isop(NODE, q) for q in NONSMOOTH])
        want_ = None if not n else TRUE if n[0] == 0 else conj(neg_c(ns), *[smooth(dep(NODE, k)) for k in range(n[0])])
        S.oblige('_check_smooth: C16 an expression is smooth exactly when it is no sign, min or max and its arguments are smooth',
                 b is not None and want_ is not None and prove(conj(disj(neg_c(b), want_), disj(b, neg_c(want_))), pc), (out, pc))
        S.oblige('_check_smooth: C16 nothing is changed', I.cell(o.self_).at == o.before, '')
    node_spec(S, '_check_smooth', {AM + '_check_smooth': c_smooth(True)}, post)


def spec_additiveq(S, want):
    def post(S, I, o, out):
        pc = tuple(I.pcs) + arities(I, NODE)
        b = truth(out); n = [k for k in (0, 1, 2) if I.proves(eq(ndep(NODE), num(k)))]
        d0, d1 = dep(NODE, 0), dep(NODE, 1)
        sw = lambda nd: disj(*[isop(nd, q) for q in NONSMOOTH])
        imp = lambda c, t: conj(disj(neg_c(c), t), c)
        if not n: w = None
        elif n[0] == 0: w = FALSE
        elif n[0] == 1: w = disj(isop(NODE, 'OP_SIGN'), conj(isop(NODE, 'OP_NEG'), additive(d0)))
        else: w = disj(isop(NODE, 'OP_FMAX'), isop(NODE, 'OP_FMIN'), conj(isop(NODE, 'OP_MUL'), disj(conj(sw(d0), smooth(d1)), conj(neg_c(sw(d0)), sw(d1), smooth(d0)))))
        S.oblige('_check_additive: C16 additive exactly for a sign, min or max, possibly negated, or multiplied by a smooth expression',
                 b is not None and w is not None and prove(conj(disj(neg_c(b), w), disj(b, neg_c(w))), pc), (out, w, pc))
        S.oblige('_check_additive: C16 nothing is changed', I.cell(o.self_).at == o.before, '')
    node_spec(S, '_check_additive', {AM + '_check_additive': c_additive(True), AM + '_check_smooth': c_smooth(False)}, post)


def total(v):
    """sum of a list of scalar expressions"""
    t = ZERO
    for s in v.args[1:]:
        if s.op == 'one': t = add(t, s.args[0].args[1].args[0])
        elif s.op == 'gen': t = add(t, summ(s.args[0], lambda i: open_(s, i).args[1].args[0]))
        else: raise Unsupported('sum of components')
    return t


def spec_comps(S, want):
    def post(S, I, o, out):
        pc = tuple(I.pcs)
        O = lambda n, ok, d='': S.oblige(f'_find_nonlinear_components: C16 {n}', ok, d)
        if not O('returns a list', out[0] == 'return' and isinstance(out[1], Ref) and I.cell(out[1]).kind == 'list', out): return
        v = I.vecof(out[1]); w = value(I, NODE)
        ih = [eq(val(dep(NODE, k)), total(comp(dep(NODE, k)))) for k in (0, 1)]      # induction hypothesis
        e = eq(val(NODE), w) if w is not None and w is not val(NODE) else TRUE
        O('the components sum to the expression', w is not None and prove(eq(total(v), val(NODE)), pc + (e,) + tuple(ih)), (v, w, pc))
        O('nothing is changed', I.cell(o.self_).at == o.before, '')
    node_spec(S, '_find_nonlinear_components', {AM + '_find_nonlinear_components': c_comps(True)}, post)


def spec_rebuild(S, want):
    def post(S, I, o, out):
        pc = tuple(I.pcs)
        O = lambda n, ok, d='': S.oblige(f'_rebuild_nonlin: C16 {n}', ok, d)
        if not O('returns', out[0] == 'return', out): return
        at = I.cell(o.self_).at
        C, A = I.vecof(at['c']), I.vecof(at['alpha'])
        # both lists grow in step: family by family, pair by pair
        facts, ok = [], True
        sc, sa = list(C.args[1:]), list(A.args[1:])
        ok = len(sc) == len(sa) and len(sc) >= 1 and sc[0] is OLDC.args[1] and sa[0] is OLDA.args[1]
        new = []
        for x, y in zip(sc[1:], sa[1:]):
            if x.op == 'gen' and y.op == 'gen':
                i = fresh('i'); a, b = open_(x, i).args[1].args[0], open_(y, i).args[1].args[0]
                ok = ok and x.args[0] is y.args[0] and a.op == b.op == 'app' and a.args[0] == 'cs' and b.args[0] == 'as' and a.args[2:] == b.args[2:]
            elif x.op == 'one' and y.op == 'one':
                c, a = x.args[0].args[1].args[0], y.args[0].args[1].args[0]
                ok = ok and a.op == 'app' and a.args[0] == 'sym' and a not in new
                new.append(a)
                facts += [neg_c(eq(c, ZERO)), eq(a, ite(lt(ZERO, c), ONE, ZERO))]
            else: ok = False
        O('one fresh weight per switching function, in matching order, behind those found before', ok, (C, A))
        w = value(I, NODE)
        ih = [eq(app('reb', dep(NODE, k)), val(dep(NODE, k))) for k in (0, 1)]
        v = asvec(I, out[1]) if out[1] is not None else None
        e = v.args[1].args[0] if v is not None and len(v.args) == 2 and v.args[1].op == 'one' else None
        subs = {}
        goal = e is not None and w is not None and prove(eq(e, w), pc + tuple(facts) + tuple(ih))
        if not goal and e is not None and w is not None:        # uninterpreted operations: equal arguments give equal values
            m = {app('reb', dep(NODE, k)): val(dep(NODE, k)) for k in (0, 1)}
            goal = prove(eq(repl(e, m), w), pc + tuple(facts))
        O('equal to the expression when every weight indicates the sign of its switching function', goal, (e, w, facts, pc))
        bad = [x for x in I.events if x.kind == 'built' and (x.d['op'].args[0] in NONSMOOTH if x.d['op'].op == 'const' else
               not prove(conj(*[neg_c(isop(x.d['op'], q)) for q in NONSMOOTH]), pc + arities(I, x.d['op'])))]
        O('no nonsmooth operation is rebuilt', not bad, bad)
        O('nothing else is changed', set(at) == set(o.before) and all(at[k] == o.before[k] for k in at if k not in ('c', 'alpha')), at)
    node_spec(S, '_rebuild_nonlin', {AM + '_rebuild_nonlin': c_rebuild(True)}, post, c=lambda I: I.seq('list', OLDC), alpha=lambda I: I.seq('list', OLDA))


n_o = var('n_ode')
ROOT = lambda i: app('root', i, sort='O:nd')
ODE = gen('S', n_o, lambda i: val(ROOT(i)))


def spec_reform(S, want):
    """_detect_additive, _reformulate_nonlin and reformulate"""
    def setup(I):
        install(I)
        o = Obj0()
        o.self_ = self_obj(I, f_nonsmooth_ode=I.seq('sx', ODE), x=I.seq('sx', S_('sym_x', n_x)), x0=I.seq('np', gen('N', n_x, lambda i: app('x0', i))), u=I.seq('sx', S_('sym_u', n_u)), p=None,
                           c=I.pylist([]), S=I.pylist([]), F=I.pylist([]), f=I.pylist([]), alpha=I.pylist([]))
        o.before = dict(I.cell(o.self_).at)
        return o
    def post_nonlin(S, I, o, out):
        O = lambda n, ok, d='': S.oblige(f'_reformulate_nonlin: C16 {n}', ok, d)
        if not O('returns', out[0] == 'return', out): return
        at = I.cell(o.self_).at
        O('the right-hand side is rebuilt component by component', eq_vec(retag('S', asvec(I, at['f'])), gen('S', n_o, lambda i: app('reb', ROOT(i))), I.pcs), at['f'])
        fam = lambda f: cat('L', n_o, lambda i: gen('L', app('n_sw', ROOT(i), sort='I'), lambda j: sv(app(f, ROOT(i), j))))
        for a, f in (('c', 'cs'), ('alpha', 'as')):
            O(f'{a}: switching functions and weights of all components, in the same order', eq_vec(I.vecof(at[a]), fam(f), I.pcs), I.vecof(at[a]))
        O('nothing else is changed', all(at[k] == o.before[k] for k in o.before if k not in ('f', 'c', 'alpha')), at)
    verify(S, AM + '_reformulate_nonlin', setup, lambda I, o: I.call(I.cell(o.self_).cls.lookup('_reformulate_nonlin'), [o.self_]), post_nonlin, contracts={AM + '_rebuild_nonlin': c_rebuild(False)})

    def c_comp_nodes(I, s, node):
        nd = node_of(I, node)
        if nd is None: raise Unsupported('components of a composed expression')
        return I.seq('list', gen('L', app('n_comps', nd, sort='I'), lambda i: sv(val(app('compnode', nd, i, sort='O:nd')))))
    def post_det(S, I, o, out):
        b = truth(out); pc = tuple(I.pcs)
        i, k = fresh('i'), fresh('k')
        O = lambda n, ok, d='': S.oblige(f'_detect_additive: C16 {n}', ok, d)
        if not O('returns a truth value', b is not None, out): return
        A = additive(app('compnode', ROOT(i), k, sort='O:nd'))
        if b is not TRUE and b is not FALSE:
            if b is not bind('exi', i, n_o, bind('exi', k, app('n_comps', ROOT(i), sort='I'), A)): raise Unsupported('form of the returned truth value')
            O('true exactly when some component of some equation is additive', True)
            return O('nothing is changed', I.cell(o.self_).at == o.before, '')
        r = conj(le(ZERO, i), lt(i, n_o), le(ZERO, k), lt(k, app('n_comps', ROOT(i), sort='I')))
        if b is FALSE: O('false only when no component of any equation is additive', prove(neg_c(A), pc + (r,) + tuple(inst(pc, (i, k), (r,)))), pc)
        else: O('true only when some component of some equation is additive', witness(I, pc), pc)
        O('nothing is changed', I.cell(o.self_).at == o.before, '')
    verify(S, AM + '_detect_additive', setup, lambda I, o: I.call(I.cell(o.self_).cls.lookup('_detect_additive'), [o.self_]), post_det,
           contracts={AM + '_check_additive': c_additive(False), AM + '_find_nonlinear_components': c_comp_nodes})

    def setup2(I):
        o = setup(I)
        def c_nonlin(I, s):
            I.setattr(s, 'f', I.seq('sx', gen('S', n_o, lambda i: app('reb', ROOT(i)))))
            I.setattr(s, 'c', I.seq('list', gen('L', var('n_oldc'), lambda i: sv(app('c_new', i)))))
            I.setattr(s, 'alpha', I.seq('list', gen('L', var('n_oldc'), lambda i: sv(app('a_new', i)))))
        def new(I, *a, **kw):
            if a: raise Unsupported('positional arguments of the model')
            I.emit('model', **{k: (I.freeze(v) if v is not None else const(None)) for k, v in kw.items()})
            return I.new(InstC('NosnocModel', {}))
        I.contracts.update({AM + '_detect_additive': lambda I, s: True, AM + '_reformulate_nonlin': c_nonlin, 'model.NosnocModel': new})
        return o
    def post_ref(S, I, o, out):
        O = lambda n, ok, d='': S.oblige(f'reformulate: C16 {n}', ok, d)
        if not O('returns', out[0] == 'return', out): return
        ev = [e for e in I.events if e.kind == 'model']
        if not O('one model is built', len(ev) == 1, ev): return
        d = ev[0].d; pc = I.pcs
        col = lambda f: gen('S', var('n_oldc'), lambda i: app(f, i))
        lst = lambda v, w: isinstance(v, T) and v.op == 'vec' and len(v.args) == 2 and v.args[1].op == 'one' and same_col(v.args[1].args[0], w, I)
        O('one subsystem with the rebuilt right-hand side', lst(d.get('f_x'), gen('S', n_o, lambda i: app('reb', ROOT(i)))), d.get('f_x'))
        O('all switching functions in one vector, in order', lst(d.get('c'), col('c_new')), d.get('c'))
        O('all weights in one vector, in the order of their functions', lst(d.get('alpha'), col('a_new')), d.get('alpha'))
        O('state, initial state and control are the given ones', same_col(d.get('x'), S_('sym_x', n_x), I) and same_col(d.get('u'), S_('sym_u', n_u), I) and same_col(d.get('x0'), gen('N', n_x, lambda i: app('x0', i)), I), d)
        O('no region description besides', not (set(d) - {'x', 'x0', 'u', 'f_x', 'c', 'alpha', 'name', 'p'}), d)
    verify(S, AM + 'reformulate', setup2, lambda I, o: I.call(I.cell(o.self_).cls.lookup('reformulate'), [o.self_]), post_ref)


def same_col(v, w, I): return isinstance(v, T) and v.op == 'vec' and eq_vec(retag('S', v), retag('S', w), I.pcs)


def witness(I, pc):
    """a component index for which the path has established additivity"""
    for c in pc:
        for t in (c.args if c.op == 'and' else (c,)):
            if t.op == 'app' and t.args[0] == 'additive' and t.args[2].op == 'app' and t.args[2].args[0] == 'compnode': return True
    return False


def inst(pc, at, rng):
    """instances of (nested) universal facts at the given indices, outermost first, where the range is established"""
    out = []
    for c in pc:
        for t in (c.args if c.op == 'and' else (c,)):
            if t.op == 'all' and at and prove(conj(le(ZERO, at[0]), lt(at[0], t.args[0])), rng):
                b = open_(t, at[0])
                out += [b] + inst((b,), at[1:], rng)
    return out
