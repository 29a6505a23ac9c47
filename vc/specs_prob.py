"""Contracts of the constructors: finite elements, initial element, problem."""
from .ctx import *
from .spec import *


def slot_of(I, s, index, stage, sys):
    """the addressed slot of an index list: (group, stage, system), normalised"""
    g = group_of(I, s, index)
    if stage is None: return g, const(None), const(None)
    v = I.vecof(index)
    a = I.index(vlen(v), num_of(I, stage))
    if sys is None: return g, a, const(None)
    e = I.elem(v, a)
    if e.op != 'vec': raise Unsupported('index list of unknown shape')
    return g, a, I.index(vlen(e), num_of(I, sys))


def check_len(I, n, *vs):
    for v in vs:
        if not equal(vlen(v), n, I.pcs) and not I.decide(eq(vlen(v), n)): raise PyRaise('Exception', 'inconsistent dimension')


def c_add_variable(I, s, symbolic, index, lb, ub, initial, stage=None, sys=None):
    """contract of add_variable inside an element constructor: one block, one slot"""
    sym, l, u, i0 = (asvec(I, x) for x in (symbolic, lb, ub, initial))
    n = vlen(sym)
    check_len(I, n, l, u, i0)
    g, a, b = slot_of(I, s, index, stage, sys)
    I.emit('var', g=g, a=a, b=b, n=n, sym=retag('L', sym), lb=retag('L', l), ub=retag('L', u), init=retag('L', i0))


def c_add_h(I, s, symbolic, lb, ub, initial):
    """contract of add_step_size_variable"""
    sym, l, u, i0 = (asvec(I, x) for x in (symbolic, lb, ub, initial))
    check_len(I, ONE, sym, l, u, i0)
    I.emit('var', g=const('ind_h'), a=const(None), b=const(None), n=ONE, sym=retag('L', sym), lb=retag('L', l), ub=retag('L', u), init=retag('L', i0))


C_VARS = {FO + 'add_variable': c_add_variable, 'problem.FiniteElement.add_step_size_variable': c_add_h}


def cmp_slot(x, y, pc):
    return all(x[k] is y[k] or equal(x[k], y[k], pc) for k in ('g', 'a', 'b', 'n') if k != 'g') and x['g'] is y['g']


def cmp_bounds(x, y, pc):
    return cmp_slot(x, y, pc) and all(k not in y or eq_vec(x[k], y[k], pc) for k in ('lb', 'ub', 'init'))


def fresh_symbols(S, I, what, evs):
    """every block is made of symbols that occur nowhere else"""
    seen = set()
    for e in evs:
        v = e.d['sym']; ok = len(v.args) <= 2; key = None
        for s in v.args[1:]:
            j = fresh('j')
            t = s.args[0] if s.op == 'one' else open_(s, j) if s.op == 'gen' else None
            ok = ok and t is not None and t.op == 'app' and t.args[0] == 'sym'
            if ok:
                key = t.args[2]
                lv = t.args[3:-1]
                ok = all(any(b is x for x in lv) for b, n in e.binders) and (t.args[-1] is j if s.op == 'gen' else True)
        if key is not None:
            ok = ok and key not in seen; seen.add(key)
        S.oblige(f'{what}: C01 the variables of block {e.d["g"].args[0]} are fresh symbols', ok, repr(v)[:800])


def const_vec(n, t): return gen('L', n, lambda i: t)


def expected_vars(st, rep, ea, fesd, rbp, xn, h0, full=True):
    """slots of a finite element with their bounds (spec of C01 and C02)"""
    out = []
    g = lambda f, n: gen('L', n, lambda i: app(f, i))
    mode = var('opt_mpcc_mode', 'E:MpccMode')
    nonneg = disj(*[eq(mode, const(EnumM('MpccMode', m))) for m in ('SCHOLTES_EQ', 'SCHOLTES_INEQ', 'ELASTIC_INEQ', 'ELASTIC_EQ')])
    dual = ite(nonneg, ZERO, neg(INF))
    def R(grp, n, dims, lb, ub, init=None, tag=None, a=None):
        bs = [(fresh('q'), d) for d in dims]
        ix = [v for v, _ in bs]
        if a is not None: ix = [a] + ix
        nn = n(ix[-1]) if callable(n) else n
        d = dict(g=const(grp), a=ix[0] if ix else const(None), b=ix[1] if len(ix) > 1 else const(None), n=nn, lb=lb(nn), ub=ub(nn))
        if init is not None: d['init'] = init(nn)
        out.append(Row(bs, TRUE, d, (tag or grp)))
    C = lambda t: (lambda n: const_vec(n, t))
    if fesd:
        gam = var('opt_gamma_h', 'R')
        R('ind_h', ONE, [], C(mul(sub(ONE, gam), h0)), C(mul(add(ONE, gam), h0)), C(h0), 'step size')
    if rep != 'INTEGRAL': R('ind_v', n_x, [n_s], C(neg(INF)), C(INF), None, 'state derivative')
    X = (lambda n: g('lbx', n), lambda n: g('ubx', n), lambda n: g('x0', n))
    if rep != 'DIFFERENTIAL': R('ind_x', n_x, [n_s], *X, tag='stage state')
    if rep == 'DIFFERENTIAL' or not rbp: R('ind_x', n_x, [], *X, tag='end state', a=sub(xn, ONE))
    inf, one_ = C(INF), C(ONE)
    if st:
        R('ind_theta', n_f, [n_s, n_sys], C(dual), inf, tag='convex multiplier')
        R('ind_lam', n_f, [n_s, n_sys], C(dual), inf, tag='Lagrange multiplier')
        R('ind_mu', ONE, [n_s, n_sys], C(neg(INF)), inf, tag='simplex dual')
        if ea:
            R('ind_lam', n_f, [n_sys], C(dual), inf, tag='boundary multiplier', a=n_s)
            R('ind_mu', ONE, [n_sys], C(neg(INF)), inf, tag='boundary simplex dual', a=n_s)
    else:
        R('ind_alpha', n_c, [n_s, n_sys], C(dual), one_, tag='Heaviside weight')
        R('ind_lambda_n', n_c, [n_s, n_sys], C(dual), inf, tag='negative part multiplier')
        R('ind_lambda_p', n_c, [n_s, n_sys], C(dual), inf, tag='positive part multiplier')
        if ea:
            R('ind_lambda_n', n_c, [n_sys], C(dual), inf, tag='boundary negative part multiplier', a=n_s)
            R('ind_lambda_p', n_c, [n_sys], C(dual), inf, tag='boundary positive part multiplier', a=n_s)
    R('ind_z', n_z, [n_s], lambda n: g('lbz', n), lambda n: g('ubz', n), lambda n: g('z0', n), 'algebraic state')
    return out


def spec_feinit(S, want):
    """FiniteElement.__init__"""
    nm = 'FiniteElement.__init__'
    def setup(I):
        o = type('O', (), {})()
        o.st = I.decide(eq(var('opt_pss_mode', 'E:PssMode'), const(EnumM('PssMode', 'STEWART'))))
        r = var('opt_irk_representation', 'E:IrkRepresentation')
        o.rep = next(x for x in ('INTEGRAL', 'DIFFERENTIAL', 'DIFFERENTIAL_LIFT_X') if x == 'DIFFERENTIAL_LIFT_X' or I.decide(eq(r, const(EnumM('IrkRepresentation', x)))))
        o.fesd = I.decide(var('opt_use_fesd', 'B')); o.rbp = I.decide(var('opt_rbp', 'B'))
        o.c, o.e = var('c'), var('e')
        I.assume(le(ZERO, o.c)); I.assume(lt(o.c, N_stages)); I.assume(le(ZERO, o.e)); I.assume(lt(o.e, Nfe(o.c)))
        o.last = I.decide(eq(o.e, sub(Nfe(o.c), ONE)))
        o.opts, o.model, o.ocp = mk_opts(I), mk_model(I, o.st), mk_ocp(I)
        install_funs(I, o.st)
        o.prev = mk_prev(I, o.st)
        return o
    def body(I, o):
        cls = I.prog.module('problem').ns['FiniteElement']
        r = I.instantiate(cls, [o.opts, o.model, o.ocp, o.c, o.e], dict(prev_fe=o.prev))
        return r
    def post(S, I, o, out):
        pc = I.pcs
        if not S.oblige(f'{nm}: C01/C02 accepts every consistent problem', out[0] == 'return', f'{out} {pc}'): return
        ref = out[1]; at = I.cell(ref).at
        ea = 1 if (o.fesd and not o.rbp and not o.last) else 0
        xn = ONE if o.rep == 'DIFFERENTIAL' else n_s if o.rbp else add(n_s, ONE)
        T_ = var('opt_terminal_time', 'R')
        h0 = div(T_, mul(N_stages, Nfe(o.c)))
        evs = [e for e in I.events if e.kind == 'var']
        S.oblige(f'{nm}: C01 nothing but variables is added', len(evs) == len(I.events), I.events)
        act = [Row(e.binders, e.guard, e.d) for e in evs]
        ex = expected_vars(o.st, o.rep, ea, o.fesd, o.rbp, xn, h0)
        drop = lambda rs, t: [Row(r.binders, r.guard, r.d, f'{t} {r.tag}') for r in rs]
        # slots that hold no variables need not be addressed
        match(S, nm + ' slots', nonempty(act, pc), nonempty(drop(ex, 'C01'), pc), pc, cmp_slot)
        match(S, nm + ' bounds and guesses', nonempty(act, pc), nonempty(drop(ex, 'C02'), pc), pc, cmp_bounds)
        fresh_symbols(S, I, nm, evs)
        # shape of the index lists
        lists_ = dict(ind_x=(xn,), ind_v=(n_s,), ind_z=(n_s,), ind_theta=(n_s, n_sys), ind_alpha=(n_s, n_sys))
        for k in ('ind_lam', 'ind_mu', 'ind_lambda_n', 'ind_lambda_p'): lists_[k] = (add(n_s, num(ea)), n_sys)
        for k, dims in lists_.items():
            t = vec('L', [])
            for n in reversed(dims): t = gen('L', n, lambda i, t=t: t)
            S.oblige(f'{nm}: C01 index list {k} has one slot per place', eq_vec(I.vecof(at[k]), t, pc), f'{I.vecof(at[k])!r} expected {t!r}')
        for k in ('ind_comp', 'ind_bool') + (() if o.fesd else ('ind_h',)):
            S.oblige(f'{nm}: C01 index list {k} starts empty', eq_vec(I.vecof(at[k]), vec('L', []), pc), I.vecof(at[k]))
        # attributes the methods rely on
        h = num_of(I, at['h'])
        if o.fesd:
            hv = [e for e in evs if e.d['g'] is const('ind_h')]
            S.oblige(f'{nm}: C01/C03/C07/C08 the step size is its own variable', len(hv) == 1 and len(hv[0].d['sym'].args) == 2 and h is hv[0].d['sym'].args[1].args[0], h)
        else: S.oblige(f'{nm}: C03/C07/C08 the step size is the nominal step of the control stage', equal(h, h0, pc), h)
        S.oblige(f'{nm}: C03/C10 parameters of the own control stage', eq_vec(asvec(I, at['p']), S_('p_ctrl', add(n_pt, n_pg), o.c), pc), at['p'])
        S.oblige(f'{nm}: C03/C05/C08 references to options, model, control problem and predecessor',
                 at['prev_fe'] == o.prev and at['opts'] == o.opts and at['model'] == o.model and at['ocp'] == o.ocp
                 and lift(at['ctrl_idx']) is o.c and lift(at['fe_idx']) is o.e, at)
        S.oblige(f'{nm}: C03/C15 the cost starts at zero', equal(num_of(I, at['cost']), ZERO, pc), at['cost'])
        for k in ('g', 'lbg', 'ubg'): S.oblige(f'{nm}: C01/C03 {k} starts empty', eq_vec(asvec(I, at[k]), vec('L', []), pc), at[k])
    verify(S, 'problem.FiniteElement.__init__', setup, body, post, contracts=C_VARS)


def nonempty(rows, pc):
    """without the families of blocks that have no entry"""
    return [r for r in rows if not prove(le(r.d['n'], ZERO), row_pc(r, pc))]


def spec_addh(S, want):
    """FiniteElement.add_step_size_variable"""
    nw = var('n_old')
    def setup(I):
        from .specs_base import base_obj
        o = type('O', (), {})()
        o.self_ = base_obj(I, ind_h=I.pylist([])); o.before = dict(I.cell(o.self_).at)
        return o
    def body(I, o):
        sc = lambda k, t: I.seq(k, vec('L', [one(app(t))]))
        f = I.cell(o.self_).cls.lookup('add_step_size_variable')
        return I.call(f, [o.self_, sc('sx', 'sym'), sc('np', 'lb'), sc('np', 'ub'), sc('np', 'init')])
    def post(S, I, o, out):
        nm = 'add_step_size_variable'; pc = I.pcs; at = I.cell(o.self_).at
        if not S.oblige(f'{nm}: C01 accepts every step size', out[0] == 'return', out): return
        for k, s in (('w', 'sym'), ('lbw', 'lb'), ('ubw', 'ub'), ('w0', 'init')):
            v = vcat('L', gen('L', nw, lambda i: app(k + '_old', i)), vec('L', [one(app(s))]))
            S.oblige(f'{nm}: C01/C02 {k} is the old vector followed by the step size', eq_vec(I.vecof(at[k]), v, pc), I.vecof(at[k]))
        S.oblige(f'{nm}: C01 the step size index names the new position', eq_vec(I.vecof(at['ind_h']), vec('L', [one(nw)]), pc), I.vecof(at['ind_h']))
        S.oblige(f'{nm}: C01 nothing else changes', set(at) == set(o.before) and all(at[k] is o.before[k] for k in at if k not in ('w', 'lbw', 'ubw', 'w0', 'ind_h')), at)
    verify(S, 'problem.FiniteElement.add_step_size_variable', setup, body, post)


def spec_fe0(S, want):
    """FiniteElementZero.__init__"""
    nm = 'FiniteElementZero.__init__'
    def setup(I):
        o = type('O', (), {})()
        o.st = I.decide(eq(var('opt_pss_mode', 'E:PssMode'), const(EnumM('PssMode', 'STEWART'))))
        o.opts, o.model = mk_opts(I), mk_model(I, o.st)
        return o
    def body(I, o):
        return I.instantiate(I.prog.module('problem').ns['FiniteElementZero'], [o.opts, o.model], {})
    def post(S, I, o, out):
        pc = I.pcs
        if not S.oblige(f'{nm}: C03/C10 accepts every consistent model', out[0] == 'return', f'{out} {pc}'): return
        at = I.cell(out[1]).at
        evs = [e for e in I.events if e.kind == 'var']
        ex = []
        def R(g, n, dims, a):
            bs = [(fresh('q'), d) for d in dims]
            ix = [a] + [v for v, _ in bs]
            nn = n(ix[-1]) if callable(n) else n
            ex.append(Row(bs, TRUE, dict(g=const(g), a=ix[0], b=ix[1] if len(ix) > 1 else const(None), n=nn), f'C03/C05/C10 {g}'))
        R('ind_x', n_x, [], ZERO)
        if o.st: R('ind_lam', n_f, [n_sys], ZERO)
        else: R('ind_lambda_n', n_c, [n_sys], ZERO); R('ind_lambda_p', n_c, [n_sys], ZERO)
        match(S, nm, nonempty([Row(e.binders, e.guard, e.d) for e in evs], pc), nonempty(ex, pc), pc, cmp_slot)
        fresh_symbols(S, I, nm, evs)
        for k in ('ind_lam', 'ind_lambda_n', 'ind_lambda_p'):
            t = gen('L', ONE, lambda i: gen('L', n_sys, lambda j: vec('L', [])))
            S.oblige(f'{nm}: C03/C05/C10 {k} has one slot per system', eq_vec(I.vecof(at[k]), t, pc), I.vecof(at[k]))
        S.oblige(f'{nm}: C03/C10 one stored state', eq_vec(I.vecof(at['ind_x']), vec('L', [one(vec('L', []))]), pc), I.vecof(at['ind_x']))
    verify(S, 'problem.FiniteElementZero.__init__', setup, body, post, contracts=C_VARS)
