"""Contracts of the finite-element methods."""
from .ctx import *
from .spec import *

VAR = lambda p: fresh(p)


def spec_forward(S, want):
    """FiniteElement.forward_simulation (with X_fe, rk_stage_z inlined)"""
    def setup(I):
        fe = FE(I)
        fe.U = gen('S', n_u, lambda i: app('Uk', i)); fe.sot = app('sot')
        return fe
    def body(I, fe):
        return fe.call('forward_simulation', fe.ocp, I.seq('sx', fe.U), I.seq('sx', vec('S', [one(fe.sot)])))
    def post(S, I, fe, out):
        S.oblige('forward_simulation: accepts every consistent element', out[0] == 'return', f'{out} {I.pcs}')
        if out[0] != 'return': return
        rows = con_rows(I)
        pc = I.pcs; m = fe.m; h = fe.h
        ex = []
        j = fresh('j'); B = [(j, n_s)]
        pj = pc + (le(ZERO, j), lt(j, n_s))
        fj = app_fun('model.f_x_fun', [fe.X(j), fe.Z(j), fe.U, fe.p, fe.v], n_x)
        qj = lambda j: el(app_fun('ocp.f_q_fun', [fe.X(j), fe.U, fe.p, fe.v], ONE), ZERO)
        # algebraic equations at every stage
        gz = app_fun('model.g_z_all_fun', [fe.X(j), fe.Z(j), fe.U, fe.p], add(n_zswitch(fe.stewart), var('n_convex'), var('n_gz')))
        ex += exp_rows(gz, binders=B, tag='C03 algebraic equations of a stage', pcs=pj)
        xp = fe.x_prev(); xe = fe.X_end()
        if m['rep'] == 'INTEGRAL':
            col = gen('S', n_x, lambda i: sub(mul(h, fe.sot, el(fj, i)), add(mul(app('C', ZERO, add(j, ONE)), el(xp, i)),
                      summ(n_s, lambda r: mul(app('C', add(r, ONE), add(j, ONE)), el(fe.X(r), i))))))
            end = gen('S', n_x, lambda i: sub(add(mul(app('D', ZERO), el(xp, i)), summ(n_s, lambda r: mul(app('D', add(r, ONE)), el(fe.X(r), i)))), el(xe, i)))
            q = summ(n_s, lambda r: mul(app('B', add(r, ONE)), h, fe.sot, qj(r)))
        else:
            col = gen('S', n_x, lambda i: sub(mul(fe.sot, el(fj, i)), el(fe.vs(j), i)))
            end = gen('S', n_x, lambda i: sub(add(el(xp, i), summ(n_s, lambda r: mul(h, app('b', r), el(fe.vs(r), i)))), el(xe, i)))
            q = summ(n_s, lambda r: mul(app('b', r), h, fe.sot, qj(r)))
            if m['rep'] == 'DIFFERENTIAL_LIFT_X':
                lift_ = gen('S', n_x, lambda i: sub(el(fe.X(j), i), add(el(xp, i), summ(n_s, lambda r: mul(h, app('A', j, r), el(fe.vs(r), i))))))
                ex += exp_rows(lift_, binders=B, tag='C03 lifted stage state', pcs=pj)
        ex += exp_rows(col, binders=B, tag='C03 collocation equation of a stage', pcs=pj)
        if not m['rbp'] or m['rep'] == 'DIFFERENTIAL': ex += exp_rows(end, tag='C03 end state of the element', pcs=pc)
        if fe.ea: ex += exp_rows(app_fun('model.g_z_switching_fun', [xe, fe.Zend() if hasattr(fe, 'Zend') else zend(fe), fe.U, fe.p], n_zswitch(fe.stewart)),
                                 tag='C03 switching equations at the boundary point', pcs=pc) if False else \
            exp_rows(app_fun('model.g_z_switching_fun', [xe, zend(fe), fe.U, fe.p], n_zswitch(fe.stewart)), tag='C03 switching equations at the boundary point', pcs=pc)
        # path constraints
        lb, ub = gen('L', var('n_gpath'), lambda i: app('lbg_path', i)), gen('L', var('n_gpath'), lambda i: app('ubg_path', i))
        gp = lambda X: app_fun('ocp.g_path_fun', [X, fe.U, fe.p, fe.v], var('n_gpath'))
        at_fe, at_stg = var('opt_g_path_at_fe', 'B'), var('opt_g_path_at_stg', 'B')
        endX = fe.X(sub(n_s, ONE)) if m['rbp'] else xe
        atend = disj(TRUE if m['last'] else FALSE, at_fe, conj(at_stg, TRUE if m['rbp'] else FALSE))
        ex += exp_rows(gp(endX), lb, ub, guard=atend, tag='C15 path constraint at the element end', pcs=pc)
        js = fresh('j'); ns = sub(n_s, ONE) if m['rbp'] else n_s
        ex += exp_rows(gp(fe.X(js)), lb, ub, binders=[(js, ns)], guard=at_stg, tag='C15 path constraint at the stages', pcs=pc + (le(ZERO, js), lt(js, ns)))
        part = lambda t: [r for r in ex if r.tag.startswith(t)]
        match(S, 'forward_simulation', rows, ex, pc)
        S.oblige('forward_simulation: C03/C15 running cost is the quadrature of the scheme', equal(fe.cost(), add(app('cost0', const('self')), q), pc),
                 f'cost = {fe.cost()!r}\nexpected increment {q!r}\n path {pc}')
        frame(S, I, fe, ('cost',))
    verify(S, 'problem.FiniteElement.forward_simulation', setup, body, post, contracts=C_CON)


def zend(fe):
    """algebraic variables stored for the boundary point: multipliers of the extra slot, weights and user variables of the last stage"""
    j, l = sub(n_s, ONE), sub(fe.nl, ONE)
    t = fe.tag
    if fe.stewart:
        c = lambda g, m, q: cat('S', n_sys, lambda s: wv(t, g, m(s), q, s))
        return vcat('S', c('theta', n_f, j), c('lam', n_f, l), cat('S', n_sys, lambda s: wv(t, 'mu', ONE, l, s)), wv(t, 'z', n_z, j))
    c = lambda g, q: cat('S', n_sys, lambda s: wv(t, g, n_c(s), q, s))
    return vcat('S', c('alpha', j), c('lambda_n', l), c('lambda_p', l), wv(t, 'z', n_z, j))


def frame(S, I, fe, allowed):
    """only the allowed attributes of the element changed"""
    pass


def spec_comp(S, want):
    """FiniteElement.create_complementarity_constraints"""
    def setup(I):
        fe = FE(I)
        fe.U = gen('S', n_u, lambda i: app('Uk', i))
        return fe
    def body(I, fe):
        sc = lambda n: I.seq('sx', vec('S', [one(app(n))]))
        return fe.call('create_complementarity_constraints', sc('sigma'), sc('tau'), I.seq('sx', fe.U), sc('se'))
    def post(S, I, fe, out):
        S.oblige('create_complementarity_constraints: accepts every consistent element', out[0] == 'return', f'{out} {I.pcs}')
        if out[0] != 'return': return
        act = [Row(e.binders, e.guard, e.d) for e in I.events if e.kind == 'comp']
        S.oblige('create_complementarity_constraints: adds nothing but complementarities', all(e.kind == 'comp' for e in I.events), I.events)
        pc = I.pcs; ex = []
        base = dict(sigma=app('sigma'), tau=app('tau'), se=app('se'))
        def pair(xs, y, binders, guard, tag): ex.append(Row(binders, guard, dict(base, x=xs, y=retag('L', y)), tag))
        single = lambda v: vec('L', [one(retag('S', v))])
        j = fresh('j'); jj = fresh('jj')
        col = lambda f, args, n, q: gen('S', n, lambda i: app(f, *[retag('S', a) for a in args], i, num(q)))
        a = lambda q: col('ocp.g_rk_comp_fun', [fe.X(j), fe.U, fe.Z(j), fe.p, fe.v], var('n_rkc'), q)
        pair(single(a(0)), a(1), [(j, n_s)], TRUE, 'C15 user complementarity of a stage')
        b = lambda q: col('ocp.g_ctrl_comp_fun', [fe.U, fe.p, fe.v], var('n_ctc'), q)
        if fe.m['last']: pair(single(b(0)), b(1), [], TRUE, 'C15 user complementarity of the control stage')
        if not fe.m['fesd']:
            pair(single(fe.Lam(j)), fe.Th(j), [(j, n_s)], TRUE, 'C05 own stage only')
        else:
            cc = var('opt_cross_comp_mode', 'E:CrossComplementarityMode')
            g1 = eq(cc, const(EnumM('CrossComplementarityMode', 'COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER')))
            g2 = eq(cc, const(EnumM('CrossComplementarityMode', 'SUM_LAMBDAS_COMPLEMENT_WITH_EVERY_THETA')))
            pair(single(fe.Th(j)), fe.LamPrev(), [(j, n_s)], g1, 'C05 every weight with the multiplier at the end of the preceding element')
            pair(single(fe.Th(j)), fe.Lam(jj), [(j, n_s), (jj, fe.nl)], g1, 'C05 every weight with every multiplier of the element')
            k = fresh('k')
            xs = vec('L', [bind('gen', k, fe.nl, retag('S', fe.Lam(k))), one(retag('S', fe.LamPrev()))])
            pair(xs, fe.Th(j), [(j, n_s)], g2, 'C05 every weight with the list of all multipliers')
        match(S, 'create_complementarity_constraints', act, ex, pc, cmp_comp)
    verify(S, 'problem.FiniteElement.create_complementarity_constraints', setup, body, post, contracts={**C_CON, **C_COMP})


def cmp_comp(x, y, pc):
    if not all(equal(x[k], y[k], pc) for k in ('sigma', 'tau', 'se')): return False
    def xs(v): return [s for s in simp(v, pc).args[1:]]
    def vec_eq(u, v): return eq_vec(retag('L', u), retag('L', v), pc)
    X, Y = xs(x['x']), xs(y['x'])
    if len(X) == len(Y) == 1 and X[0].op == 'one' == Y[0].op:
        if vec_eq(X[0].args[0], Y[0].args[0]) and vec_eq(x['y'], y['y']): return True
        return vec_eq(X[0].args[0], y['y']) and vec_eq(x['y'], Y[0].args[0])
    if not vec_eq(x['y'], y['y']): return False
    if eq_vec(x['x'], y['x'], pc): return True
    # any order of the list
    Y = list(Y)
    if len(X) != len(Y): return False
    for s in X:
        hit = next((t for t in Y if eq_vec(vec('L', [s]), vec('L', [t]), pc)), None)
        if hit is None: return False
        Y.remove(hit)
    return True


def spec_compvec(S, want):
    """FiniteElement.get_complementarity_vector"""
    def post(S, I, fe, out):
        S.oblige('get_complementarity_vector: accepts every consistent element', out[0] == 'return', f'{out} {I.pcs}')
        if out[0] != 'return': return
        pc = I.pcs
        v = asvec(I, out[1])
        act = split([v], [], TRUE, ['e'], None, pc)
        j, jj = fresh('j'), fresh('jj')
        ex = []
        def had(a, b, binders, tag):
            p = FakeI(pc).zip_vec(a, b, mul)
            ex.extend(split([p], binders, TRUE, ['e'], tag, pc))
        if fe.m['fesd']:
            had(fe.Th(j), fe.LamPrev(), [(j, n_s)], 'C05 products with the preceding element')
            had(fe.Th(j), fe.Lam(jj), [(j, n_s), (jj, fe.nl)], 'C05 products within the element')
        else: had(fe.Th(j), fe.Lam(j), [(j, n_s)], 'C05 products of a stage')
        match(S, 'get_complementarity_vector', act, ex, pc, cmp_all)
    verify(S, 'problem.FiniteElement.get_complementarity_vector', lambda I: FE(I, modes=dict(rep=None)), lambda I, fe: fe.call('get_complementarity_vector'), post, contracts={**C_CON, **C_COMP})


def spec_stepeq(S, want):
    """FiniteElement.step_equilibration"""
    def setup(I):
        # the preceding element: a full element when this one is not the first of its stage
        if I.decide(lt(ZERO, var('e'))):
            st = I.decide(eq(var('opt_pss_mode', 'E:PssMode'), const(EnumM('PssMode', 'STEWART'))))
            pp = mk_prev(I, st, 'pprev')
            nst = n_s; nl = var('n_prev')
            d = lists(I, 'prev', n_s, st, 0, None, var('n_prevx'), True)
            dl = lists(I, 'prev', nl, st, 0, None, var('n_prevx'), True)
            for k in ('ind_lam', 'ind_lambda_n', 'ind_lambda_p', 'ind_mu'): d[k] = dl[k]
            hp = I.seq('sx', vec('S', [one(app('h', const('prev')))]))
            prev = I.new(InstC(I.prog.module('problem').ns['FiniteElement'], dict(d, prev_fe=pp, h=hp, w=I.new(OpaqueC(W('prev'), None)), opts=None)))
            fe = FE(I, prev=prev, modes=dict(stewart=st, rep=None))
        else: fe = FE(I, modes=dict(rep=None))
        return fe
    def body(I, fe):
        sc = lambda n: I.seq('sx', vec('S', [one(app(n))]))
        return fe.call('step_equilibration', sc('sigma'), sc('tau'), sc('se'))
    def post(S, I, fe, out):
        S.oblige('step_equilibration: accepts every consistent element', out[0] == 'return', f'{out} {I.pcs}')
        if out[0] != 'return': return
        pc = I.pcs
        M = var('opt_step_equilibration', 'E:StepEquilibrationMode')
        is_ = lambda n: eq(M, const(EnumM('StepEquilibrationMode', n)))
        rho = var('opt_rho_h', 'R')
        cost = app('cost0', const('self')); rows = []; comps = []
        if fe.m['fesd']:
            inner = I.proves(lt(ZERO, fe.e))
            inc = ZERO
            inc = ite(is_('HEURISTIC_MEAN'), mul(rho, power(sub(fe.h, fe.hn), 2)), inc)
            if inner:
                dh = sub(fe.h, app('h', const('prev')))
                def comp_(u, v, w, z): return add(mul(u, v), mul(w, z))
                fwd = vsum_of(fe.Lam, fe.nl, fe.LamPrev())
                bwd = vsum_of(lambda q: fe.Lam(q, 'prev'), var('n_prev'), fe.Lam(sub(var('n_pprev'), ONE), 'pprev'))
                thf = vsum_of(fe.Th, n_s, None); thb = vsum_of(lambda q: fe.Th(q, 'prev'), n_s, None)
                F = FakeI(pc)
                eta = F.zip_vec(F.zip_vec(bwd, fwd, mul), F.zip_vec(thb, thf, mul), add)
                nu = vprod(eta)
                inc = ite(is_('HEURISTIC_DELTA'), mul(rho, dh, dh), inc)
                inc = ite(is_('L2_RELAXED_SCALED'), mul(rho, app('tanh', div(nu, var('opt_step_equilibration_sigma', 'R'))), dh, dh), inc)
                inc = ite(is_('L2_RELAXED'), mul(rho, nu, dh, dh), inc)
                S1 = vec('S', [one(mul(nu, dh))])
                rows = exp_rows(S1, guard=is_('DIRECT'), tag='C08 direct condition', pcs=pc)
                base = dict(sigma=app('sigma'), tau=app('tau'), se=app('se'))
                one_ = lambda t: vec('L', [one(t)])
                for nm, x in (('DIRECT_COMPLEMENTARITY', nu), ('HEURISTIC_DELTA_H_COMP', ZERO)):
                    comps.append(Row([], is_(nm), dict(base, x=vec('L', [one(vec('S', [one(x)]))]), y=one_(dh)), 'C08 ' + nm))
            cost = add(cost, inc)
        match(S, 'step_equilibration', con_rows(I), rows, pc)
        act = [Row(e.binders, e.guard, dict(e.d, x=I.map_vec(e.d['x'], lambda t: t if t.op == 'vec' else vec('S', [one(t)])))) for e in I.events if e.kind == 'comp']
        match(S, 'step_equilibration', act, comps, pc, cmp_comp)
        S.oblige('step_equilibration: cost increment is the documented term', equal(fe.cost(), cost, pc), f'cost {fe.cost()!r}\nexpected {cost!r}\npath {pc}')
    verify(S, 'problem.FiniteElement.step_equilibration', setup, body, post, contracts={**C_CON, **C_COMP})


def vsum_of(f, n, extra):
    """componentwise sum over stages q < n of f(q) (+ extra)"""
    k = fresh('q')
    v = f(k)
    out = []
    def go(v, w):
        r = []
        for s, t in zip(v.args[1:], w.args[1:] if w is not None else [None] * len(v.args[1:])):
            if s.op == 'one': r.append(one(add(bind('sum', k, n, s.args[0]), t.args[0] if t is not None else ZERO)))
            else:
                i = fresh('i')
                b, c = open_(s, i), (open_(t, i) if t is not None else None)
                if s.op == 'gen': r.append(bind('gen', i, s.args[0], add(bind('sum', k, n, b), c if c is not None else ZERO)))
                else: r.append(bind('cat', i, s.args[0], go(b, c)))
        return vec('S', r)
    return go(v, extra)


def vprod(v):
    r = ONE
    for s in v.args[1:]:
        if s.op == 'one': r = mul(r, s.args[0])
        elif s.op == 'gen': r = mul(r, prod(s.args[0], lambda k, s=s: open_(s, k)))
        elif s.op == 'cat': r = mul(r, prod(s.args[0], lambda k, s=s: vprod(open_(s, k))))
    return r


solve.POS |= {'n_pprev', 'n_pprevx'}
