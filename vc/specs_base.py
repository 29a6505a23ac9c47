"""Contracts of NosnocFormulationObject: add_variable, add_constraint, create_complementarity."""
from .ctx import *
from .spec import *

solve.NONNEG |= {'n_comp', 'n_new', 'n_old', 'n_oldg', 'n_lb', 'n_ub', 'n_init'}


def spec_mpcc(S, want):
    """NosnocFormulationObject.create_complementarity"""
    n, nx = var('n_comp'), var('n_xlist')
    X = lambda i, j: app('x', i, j)
    Y = lambda j: app('y', j)
    mode = var('opt_mpcc_mode', 'E:MpccMode')
    is_ = lambda *names: disj(*[eq(mode, const(EnumM('MpccMode', m))) for m in names])
    sig, tau, se = app('sigma'), app('tau'), app('se')
    def setup(I):
        I.assume(le(ONE, nx))
        fe = I.new(InstC(I.prog.module('problem').ns['FiniteElement'], dict(opts=mk_opts(I), ind_comp=I.pylist([]), ind_bool=I.pylist([]),
                   w=I.new(OpaqueC(W('self'), None)))))
        return fe
    def body(I, fe):
        x = I.seq('list', gen('L', nx, lambda i: gen('S', n, lambda j: X(i, j))))
        sc = lambda t: I.seq('sx', vec('S', [one(t)]))
        f = I.cell(fe).cls.lookup('create_complementarity')
        return I.call(f, [fe, x, I.seq('sx', gen('S', n, Y)), sc(sig), sc(tau), sc(se)])
    def c_var(I, s, sym, index, lb, ub, init, stage=None, sys=None):
        I.emit('var', sym=retag('L', asvec(I, sym)), lb=retag('L', asvec(I, lb)), ub=retag('L', asvec(I, ub)), init=retag('L', asvec(I, init)), index=group_of(I, s, index))
    def post(S, I, fe, out):
        I.decide(is_('BOOLEAN'))
        pc = I.pcs
        aug = I.proves(is_('FISCHER_BURMEISTER_IP_AUG'))
        if out[0] != 'return':
            S.oblige('create_complementarity: C06 only summed partners in the augmented mode are refused', aug and I.proves(neg_c(eq(nx, ONE))), f'{out} {pc}'); return
        ones = lambda v: gen('L', n, lambda j: v)
        j = fresh('j'); B = [(j, n)]
        sx = summ(nx, lambda i: X(i, j))
        prodt = mul(sx, Y(j))
        R = lambda e, lb, ub, g, t: Row(B, g, dict(e=e, lb=lb, ub=ub), 'C06 ' + t)
        minf = neg(INF)
        fb = lambda i: sub(add(X(i, j), Y(j)), app('sqrt', add(power(X(i, j), 2), power(Y(j), 2), power(sig, 2))))
        w1, w2 = var('opt_fb_ip_aug1_weight', 'R'), var('opt_fb_ip_aug2_weight', 'R')
        ex = [R(sub(prodt, sig), ZERO, ZERO, is_('SCHOLTES_EQ'), 'Scholtes equality'),
              R(sub(prodt, sig), minf, ZERO, is_('SCHOLTES_INEQ'), 'Scholtes inequality'),
              R(sub(prodt, se), ZERO, ZERO, is_('ELASTIC_EQ'), 'elastic equality'),
              R(sub(prodt, se), minf, ZERO, is_('ELASTIC_INEQ'), 'elastic inequality'),
              R(sub(prodt, se), minf, ZERO, is_('ELASTIC_TWO_SIDED'), 'elastic two-sided, upper'),
              R(add(prodt, se), ZERO, INF, is_('ELASTIC_TWO_SIDED'), 'elastic two-sided, lower'),
              R(summ(nx, fb), ZERO, ZERO, is_('FISCHER_BURMEISTER'), 'Fischer-Burmeister')]
        g = is_('FISCHER_BURMEISTER_IP_AUG')
        ex += [R(fb(ZERO), ZERO, ZERO, g, 'Fischer-Burmeister'),
               R(mul(w1, sub(X(ZERO, j), sig), app('sqrt', tau)), ZERO, ZERO, g, 'first augmentation, first partner'),
               R(mul(w1, sub(Y(j), sig), app('sqrt', tau)), ZERO, ZERO, g, 'first augmentation, second partner'),
               R(mul(w2, fb(ZERO), app('sqrt', add(ONE, power(sub(X(ZERO, j), Y(j)), 2)))), ZERO, ZERO, g, 'second augmentation')]
        g = is_('BOOLEAN')
        vs = [e for e in I.events if e.kind == 'var']
        z = ZERO
        if I.proves(g):
            S.oblige('create_complementarity: C06 boolean mode adds one vector of fresh variables', len(vs) == 1 and vs[0].binders == () and vs[0].guard is TRUE, vs)
            if len(vs) == 1:
                d = vs[0].d
                S.oblige('create_complementarity: C06 binaries are 0..1, listed as binaries, with guess one half',
                         eq_vec(d['lb'], ones(ZERO), pc) and eq_vec(d['ub'], ones(ONE), pc) and eq_vec(d['init'], ones(num(Fraction(1, 2))), pc) and d['index'] is const('ind_bool'), d)
                zs = d['sym']
                fr = len(zs.args) == 2 and zs.args[1].op == 'gen'
                S.oblige('create_complementarity: C06 binaries are fresh symbols, one per component', fr and str(open_(zs.args[1], j).args[0]) == 'sym' and equal(vlen(zs), n, pc), zs)
                if fr: z = open_(zs.args[1], j)
        else: S.oblige('create_complementarity: C06 no further variables outside the boolean mode', not vs, vs)
        M = num(100000)
        ex += [R(sub(mul(M, z), Y(j)), ZERO, INF, g, 'big-M, first partner above'), R(add(mul(M, z), Y(j)), ZERO, INF, g, 'big-M, first partner below'),
               R(sub(mul(M, sub(ONE, z)), sx), ZERO, INF, g, 'big-M, sum above'), R(add(mul(M, sub(ONE, z)), sx), ZERO, INF, g, 'big-M, sum below')]
        cons = [e for e in I.events if e.kind == 'con']
        S.oblige('create_complementarity: C06 every added row is listed in the complementarity index', all(e.d['index'] is const('ind_comp') for e in cons), cons)
        match(S, 'create_complementarity', blocks(con_rows(I), n, pc), ex, pc)
    verify(S, 'problem.NosnocFormulationObject.create_complementarity', setup, body, post, contracts={**C_CON, FO + 'add_variable': c_var})


def blocks(rows, n, pc):
    """a family over c*n rows (constant c) is seen as c families over n rows"""
    out = []
    for r in rows:
        if len(r.binders) == 1 and r.binders[0][1].op == 'poly':
            v, m = r.binders[0]
            ms = tm._mono(m)
            if len(ms) == 1 and ms[0][1] == ((n, 1),) and ms[0][0].denominator == 1 and 1 < ms[0][0] <= 8:
                for q in range(int(ms[0][0])):
                    k = fresh('b')
                    p2 = tuple(pc) + (le(ZERO, k), lt(k, n))
                    s = {v: add(k, scale(q, n))}
                    out.append(Row([(k, n)], subst(r.guard, s), {a: simp(subst(x, s), p2) for a, x in r.d.items()}, r.tag))
                continue
        out.append(r)
    return out


class Obj0:
    """an object with a decision vector of unknown contents"""


def base_obj(I, **over):
    nw, ng = var('n_old'), var('n_oldg')
    V = lambda kind, f, n: I.seq(kind, gen('L', n, lambda i: app(f, i)))
    at = dict(w=V('sx', 'w_old', nw), lbw=V('np', 'lbw_old', nw), ubw=V('np', 'ubw_old', nw), w0=V('np', 'w0_old', nw),
              g=V('sx', 'g_old', ng), lbg=V('np', 'lbg_old', ng), ubg=V('np', 'ubg_old', ng), cost=I.seq('sx', vec('S', [one(app('cost_old'))])))
    at.update(over)
    return I.new(InstC(I.prog.module('problem').ns['FiniteElement'], at))


def spec_addvar(S, want):
    """NosnocFormulationObject.add_variable"""
    n, nw = var('n_new'), var('n_old')
    def setup(I):
        st = I.decide(var('has_stage', 'B')); sy = I.decide(var('has_sys', 'B')) if st else False
        o = Obj0(); o.st, o.sy = st, sy
        NA, NB = var('n_as'), var('n_bs')
        o.a, o.b = var('stage_i'), var('sys_i')
        o.NA, o.NB = NA, NB
        I.assume(le(ZERO, o.a)); I.assume(lt(o.a, NA)); I.assume(le(ZERO, o.b)); I.assume(lt(o.b, NB))
        m0 = lambda *ix: gen('L', app('n_slot', *ix, sort='I'), lambda i: app('slot', *ix, i, sort='I'))
        o.m0 = m0
        if sy: idxv = gen('L', NA, lambda a: gen('L', NB, lambda b: m0(a, b)))
        else: idxv = gen('L', NA, lambda a: m0(a))
        o.idx0 = idxv
        o.index = I.seq('list', idxv)
        o.self_ = base_obj(I)
        o.before = dict(I.cell(o.self_).at)
        return o
    def body(I, o):
        V = lambda kind, f, m: I.seq(kind, gen('L', m, lambda i: app(f, i)))
        kw = {}
        if o.st: kw['stage'] = o.a
        if o.sy: kw['sys'] = o.b
        f = I.cell(o.self_).cls.lookup('add_variable')
        return I.call(f, [o.self_, V('sx', 'sym', n), o.index, V('np', 'lb', var('n_lb')), V('np', 'ub', var('n_ub')), V('np', 'init', var('n_init'))], kw)
    def post(S, I, o, out):
        pc = I.pcs
        at = I.cell(o.self_).at
        good = conj(*[eq(var(x), n) for x in ('n_lb', 'n_ub', 'n_init')])
        if out[0] != 'return':
            S.oblige('add_variable: C01 refuses only bounds or guesses of the wrong length', I.proves(neg_c(good)), f'{out} {pc}')
            S.oblige('add_variable: C01 a refused call changes nothing', all(eq_vec(I.vecof(at[k]), gen('L', nw, lambda i, k=k: app(k + '_old', i)), pc) for k in ('w', 'lbw', 'ubw', 'w0')), at)
            return
        S.oblige('add_variable: C01 wrong lengths are refused', I.proves(good), f'{pc}')
        for k, s in (('w', 'sym'), ('lbw', 'lb'), ('ubw', 'ub'), ('w0', 'init')):
            want_ = vcat('L', gen('L', nw, lambda i: app(k + '_old', i)), gen('L', n, lambda i: app(s, i)))
            S.oblige(f'add_variable: C01/C02 {k} is the old vector followed by the new part', eq_vec(I.vecof(at[k]), want_, pc), f'{I.vecof(at[k])!r} {pc}')
        S.oblige('add_variable: C01 nothing else changes', all(at[k] is o.before[k] or eq_vec(I.vecof(at[k]), I.vecof(o.before[k]), pc) for k in o.before if k not in ('w', 'lbw', 'ubw', 'w0')) and set(at) == set(o.before), at)
        new = gen('L', n, lambda i: add(nw, i))
        got = I.vecof(o.index)
        if not o.st: S.oblige('add_variable: C01 the new positions are appended to the index list', eq_vec(got, vcat('L', o.idx0, vec('L', [one(new)])), pc), f'{got!r}')
        else:
            # read back an arbitrary slot
            a, b = var('q_a'), var('q_b')
            facts = [le(ZERO, a), lt(a, o.NA), le(ZERO, b), lt(b, o.NB)]
            for hit in (True, False):
                c = conj(eq(a, o.a), eq(b, o.b)) if o.sy else eq(a, o.a)
                F = FakeI(tuple(pc) + tuple(facts) + ((c.args if c.op == 'and' else (c,)) if hit else (neg_c(c),)))
                ok = equal(vlen(got), o.NA, pc)
                t = simp(F.elem(got, a), F.pcs)
                if o.sy: t = simp(flat_at(F, t, b), F.pcs)
                want_ = new if hit else (o.m0(a, b) if o.sy else o.m0(a))
                S.oblige('add_variable: C01 ' + ('the addressed slot names exactly the new positions' if hit else 'all other slots are unchanged'), ok and same_slot(t, want_, F.pcs), f'{t!r} {F.pcs}')
    verify(S, 'problem.NosnocFormulationObject.add_variable', setup, body, post)


def flat_at(F, t, b):
    if t.op == 'ite': return ite(t.args[0], flat_at(F, t.args[1], b), flat_at(F, t.args[2], b))
    return F.elem(t, b)


def same_slot(t, w, pcs):
    if t.op == 'ite':
        return (prove(FALSE, pcs + (t.args[0],)) or same_slot(t.args[1], w, pcs + (t.args[0],))) and \
               (prove(FALSE, pcs + (neg_c(t.args[0]),)) or same_slot(t.args[2], w, pcs + (neg_c(t.args[0]),)))
    return eq_vec(t, w, pcs)


def spec_addcon(S, want):
    """NosnocFormulationObject.add_constraint"""
    n, ng = var('n_new'), var('n_oldg')
    def setup(I):
        o = Obj0()
        o.lb, o.ub, o.ix = I.decide(var('has_lb', 'B')), I.decide(var('has_ub', 'B')), I.decide(var('has_index', 'B'))
        o.idx0 = gen('L', var('n_as'), lambda a: gen('L', app('n_slot', a, sort='I'), lambda i: app('slot', a, i, sort='I')))
        I.assume(le(ZERO, var('n_as')))
        o.index = I.seq('list', o.idx0)
        o.self_ = base_obj(I); o.before = dict(I.cell(o.self_).at)
        return o
    def body(I, o):
        V = lambda kind, f, m: I.seq(kind, gen('L', m, lambda i: app(f, i)))
        kw = {}
        if o.lb: kw['lb'] = V('np', 'lb', var('n_lb'))
        if o.ub: kw['ub'] = V('np', 'ub', var('n_ub'))
        if o.ix: kw['index'] = o.index
        f = I.cell(o.self_).cls.lookup('add_constraint')
        return I.call(f, [o.self_, V('sx', 'sym', n)], kw)
    def post(S, I, o, out):
        pc = I.pcs; at = I.cell(o.self_).at
        good = conj(*([eq(var('n_lb'), n)] if o.lb else []), *([eq(var('n_ub'), n)] if o.ub else []))
        old = lambda k: gen('L', ng, lambda i: app(k + '_old', i))
        same = lambda ks: all(eq_vec(I.vecof(at[k]), old(k), pc) for k in ks)
        if out[0] != 'return':
            S.oblige('add_constraint: C01 refuses only bounds of the wrong length', I.proves(conj(neg_c(good), lt(ZERO, n))) , f'{out} {pc}')
            S.oblige('add_constraint: C01 a refused call changes nothing', same(('g', 'lbg', 'ubg')), at); return
        S.oblige('add_constraint: C01 wrong lengths are refused', I.proves(disj(good, eq(n, ZERO))), f'{pc}')
        for k, s, has in (('g', 'sym', True), ('lbg', 'lb', o.lb), ('ubg', 'ub', o.ub)):
            want_ = vcat('L', old(k), gen('L', n, lambda i: app(s, i) if has else ZERO))
            S.oblige(f'add_constraint: C01 {k} is the old vector followed by the new part', eq_vec(I.vecof(at[k]), want_, pc), f'{I.vecof(at[k])!r} {pc}')
        S.oblige('add_constraint: C01 nothing else changes', all(at[k] is o.before[k] for k in o.before if k not in ('g', 'lbg', 'ubg')) and set(at) == set(o.before), at)
        got = I.vecof(o.index)
        new = vcat('L', o.idx0, vec('L', [one(gen('L', n, lambda i: add(ng, i)))])) if o.ix else o.idx0
        S.oblige('add_constraint: C01/C06 the new rows are appended to the given index', eq_vec(got, new, pc) or (I.proves(eq(n, ZERO)) and eq_vec(got, o.idx0, pc)), f'{got!r} {pc}')
    verify(S, 'problem.NosnocFormulationObject.add_constraint', setup, body, post)
