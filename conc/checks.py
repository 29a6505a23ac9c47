"""Concrete per-property checks on the real code. Each check_<id>(case) returns a list of messages (empty = holds).
Cases are JSON-able; cases_<id>(rng, n) generates them."""
import copy
import math
import random
import itertools
import traceback
import numpy as np
import casadi as ca
import nosnoc
from nosnoc.nosnoc_types import *
from . import gen, oracle
from .gen import build, random_case, nfe_list, FakeNlp
from .oracle import flat, Oracle, Par, compare

INF = math.inf


class Refused(Exception):
    pass


def eq(a, b, tol=1e-9):
    a, b = np.asarray(a, float).flatten(), np.asarray(b, float).flatten()
    if a.shape != b.shape:
        return False
    with np.errstate(invalid='ignore'):
        return bool(np.all((a == b) | (np.abs(a - b) <= tol * (1 + np.abs(b)))))


def rand_w(prob, seed, lo=.2, hi=1.4):
    return np.random.RandomState(seed % 2 ** 31).uniform(lo, hi, prob.w.shape[0])


# ------------------------------------------------------------- generic NLP comparison
def nlp_fails(case, tag, points=1):
    u, opts, model, ocp, s = build(case)
    prob = s.problem
    orc = Oracle(u, prob)
    s.compute_lambda00(); s.setup_p_val(.37, .21)
    out = []
    if not (prob.w.shape[0] == len(prob.w0) == len(prob.lbw) == len(prob.ubw)):
        return [(['C01'], 'lengths of the decision vector and its bounds differ')]
    for k in range(points):
        w = rand_w(prob, case['seed'] + k)
        if k: w = w - .45
        out += compare(orc, w, Par(u), s.p_val)
    return out


def tagged(case, tag, points=1):
    return [m for t, m in nlp_fails(case, tag, points) if tag in t]


def _rows_check(tag):
    def check(case):
        return tagged(case, tag, 1)
    return check


def forced(rng, **over):
    return random_case(rng, over)


# ------------------------------------------------------------- C01
def groups(prob, opts):
    g = {n: flat(getattr(prob, n)) for n in
         ['ind_x', 'ind_v', 'ind_theta', 'ind_lam', 'ind_mu', 'ind_alpha', 'ind_lambda_n', 'ind_lambda_p',
          'ind_z', 'ind_u', 'ind_h', 'ind_sot', 'ind_v_global', 'ind_elastic', 'ind_bool']}
    return g


def layout_fails(u, prob):
    o = prob.opts; c = u.case
    bad = []
    n = prob.w.shape[0]
    for nm in ('lbw', 'ubw', 'w0'):
        if len(getattr(prob, nm)) != n:
            bad.append(f'len({nm}) != len(w)')
    ng = prob.g.shape[0]
    if len(prob.lbg) != ng or len(prob.ubg) != ng:
        bad.append('constraint bounds have the wrong length')
    G = groups(prob, o)
    seen = {}
    for k, L in G.items():
        for i in L:
            if not (isinstance(i, (int, np.integer)) and 0 <= i < n):
                bad.append(f'{k} names nonexistent entry {i}')
            elif i in seen:
                bad.append(f'entry {i} named by {seen[i]} and {k}')
            seen[i] = k
    missing = [i for i in range(n) if i not in seen]
    if missing:
        bad.append(f'entries {missing[:5]} belong to no index group')
    Nfe = nfe_list(c); st = o.pss_mode.name == 'STEWART'
    rep = o.irk_representation.name; radau = o.irk_scheme.name == 'RADAU_IIA'
    ns = o.n_s

    def shape(grp, c_, k, want, what):
        try:
            L = getattr(prob, grp)[c_][k]
        except Exception:
            bad.append(f'{grp}[{c_}][{k}] does not exist'); return
        def lens(L):
            return [lens(a) if (isinstance(a, list) and any(isinstance(b, list) for b in a)) else len(a) for a in L]
        try:
            got = lens(L)
        except Exception:
            got = L
        if got != want:
            bad.append(f'{grp}[{c_}][{k}] has shape {got}, expected {want}')
        else:
            for a in L:
                for b in (a if (a and isinstance(a[0], list)) else [a]):
                    if b != list(range(b[0], b[0] + len(b))) if b else False:
                        bad.append(f'{grp}[{c_}][{k}] is not in order: {b}')
    for ci in range(c['N_stages']):
        if len(prob.ind_x[ci]) != Nfe[ci]:
            bad.append(f'stage {ci} has {len(prob.ind_x[ci])} elements, expected {Nfe[ci]}')
            continue
        for k in range(Nfe[ci]):
            e = 1 if (o.use_fesd and not radau and k < Nfe[ci] - 1) else 0
            nx = 1 if rep == 'DIFFERENTIAL' else (ns if radau else ns + 1)
            shape('ind_x', ci, k, [c['n_x']] * nx, 'x')
            shape('ind_v', ci, k, [0 if rep == 'INTEGRAL' else c['n_x']] * ns, 'v')
            shape('ind_z', ci, k, [c['n_z']] * ns, 'z')
            shape('ind_theta', ci, k, [[f if st else 0 for f in u.n_f]] * ns, 'theta')
            shape('ind_lam', ci, k, [[f if st else 0 for f in u.n_f]] * (ns + e), 'lam')
            shape('ind_mu', ci, k, [[1 if st else 0 for f in u.n_f]] * (ns + e), 'mu')
            nc = [0 if st else q for q in u.n_c]
            shape('ind_alpha', ci, k, [nc] * ns, 'alpha')
            shape('ind_lambda_n', ci, k, [nc] * (ns + e), 'ln')
            shape('ind_lambda_p', ci, k, [nc] * (ns + e), 'lp')
            if prob.ind_x_cont[ci][k] != prob.ind_x[ci][k][-1]:
                bad.append('ind_x_cont is not the element end state')
    if [len(a) for a in prob.ind_u] != [c['n_u']] * c['N_stages']: bad.append('ind_u shape')
    if len(prob.ind_h) != (sum(Nfe) if o.use_fesd else 0): bad.append('ind_h shape')
    m = o.speed_of_time_variables.name
    if len(flat(prob.ind_sot)) != {'NONE': 0, 'LOCAL': c['N_stages'], 'GLOBAL': 1}[m]: bad.append('ind_sot shape')
    if len(flat(prob.ind_v_global)) != c['n_v']: bad.append('ind_v_global shape')
    if len(flat(prob.ind_elastic)) != (1 if o.mpcc_mode.name.startswith('ELASTIC') else 0): bad.append('ind_elastic shape')
    return bad


def check_C01(case):
    u, opts, model, ocp, s = build(case)
    prob = s.problem
    bad = layout_fails(u, prob)
    if bad:
        return bad
    # the entry a group names carries the variable of that place: shown by the collocation and algebraic rows
    orc = Oracle(u, prob)
    s.compute_lambda00(); s.setup_p_val(.37, .21)
    f = compare(orc, rand_w(prob, case['seed']), Par(u), s.p_val)
    return [m for t, m in f if 'C01' in t]


# ------------------------------------------------------------- C02
def check_C02(case):
    u, opts, model, ocp, s = build(case)
    prob = s.problem; o = opts; c = u.case
    bad = []
    lb, ub, w0 = prob.lbw, prob.ubw, prob.w0

    def want(ind, l, b, g, what):
        if not len(ind): return
        if l is not None and not eq(lb[ind], l): bad.append(f'{what}: lower bounds {lb[ind]} expected {l}')
        if b is not None and not eq(ub[ind], b): bad.append(f'{what}: upper bounds {ub[ind]} expected {b}')
        if g is not None and not eq(w0[ind], g): bad.append(f'{what}: guess {w0[ind]} expected {g}')
    n = c['n_x']
    has = c['ocp'] and c['bounds']
    lx, ux = (u.lbx, u.ubx) if has else (np.full(n, -INF), np.full(n, INF))
    lu, uu, gu = (u.lbu, u.ubu, u.ug) if has else (np.full(c['n_u'], -INF), np.full(c['n_u'], INF), np.zeros(c['n_u']))
    lv, uv, gv = (u.lbv, u.ubv, u.vg) if has else (np.full(c['n_v'], -INF), np.full(c['n_v'], INF), np.zeros(c['n_v']))
    lz, uz, gz = (u.lbz, u.ubz, u.z0) if c['bounds'] else (np.full(c['n_z'], -INF), np.full(c['n_z'], INF), np.zeros(c['n_z']))
    dual = 0.0 if o.mpcc_mode.name in ('SCHOLTES_EQ', 'SCHOLTES_INEQ', 'ELASTIC_EQ', 'ELASTIC_INEQ') else -INF
    Nfe = nfe_list(c)
    hi = 0
    for ci in range(c['N_stages']):
        want(prob.ind_u[ci], lu, uu, gu, f'control {ci}')
        if o.speed_of_time_variables.name == 'LOCAL':
            want(flat(prob.ind_sot[ci]), [o.speed_of_time_min], [o.speed_of_time_max], [1.0], 'speed of time')
        for k in range(Nfe[ci]):
            at = f'stage {ci} element {k}'
            for L in prob.ind_x[ci][k]: want(L, lx, ux, u.x0, at + ' state')
            for L in prob.ind_v[ci][k]: want(L, [-INF] * len(L), [INF] * len(L), None, at + ' derivative')
            for L in prob.ind_z[ci][k]: want(L, lz, uz, gz, at + ' algebraic')
            for gname in ('ind_theta', 'ind_lam', 'ind_lambda_n', 'ind_lambda_p'):
                L = flat(getattr(prob, gname)[ci][k])
                want(L, [dual] * len(L), [INF] * len(L), None, at + gname)
            L = flat(prob.ind_alpha[ci][k]); want(L, [dual] * len(L), [1.] * len(L), None, at + ' alpha')
            L = flat(prob.ind_mu[ci][k]); want(L, [-INF] * len(L), [INF] * len(L), None, at + ' mu')
            L = flat(prob.ind_bool[ci][k]); want(L, [0.] * len(L), [1.] * len(L), None, at + ' binary')
            if o.use_fesd:
                h0 = float(o.terminal_time) / c['N_stages'] / Nfe[ci]
                want([prob.ind_h[hi]], [(1 - o.gamma_h) * h0], [(1 + o.gamma_h) * h0], [h0], at + ' step size'); hi += 1
    if o.speed_of_time_variables.name == 'GLOBAL':
        want(flat(prob.ind_sot), [o.speed_of_time_min], [o.speed_of_time_max], [1.0], 'speed of time')
    want(flat(prob.ind_v_global), lv, uv, gv, 'global variables')
    want(flat(prob.ind_elastic), [o.s_elastic_min], [o.s_elastic_max], [o.s_elastic_0], 'elastic slack')
    return bad


# ------------------------------------------------------------- C04
def cases_C04(rng, n):
    return [dict(kind='C04', scheme=s, n_s=k) for s in ('RADAU_IIA', 'GAUSS_LEGENDRE') for k in range(1, 13)]


def check_C04(case):
    from nosnoc.rk_utils import generate_butcher_tableu, generate_butcher_tableu_integral
    sch, s = IrkSchemes[case['scheme']], case['n_s']
    bad = []
    rad = sch == IrkSchemes.RADAU_IIA
    p = 2 * s - 1 if rad else 2 * s
    try:
        A, b, c, order = generate_butcher_tableu(s, sch)
        got = True
    except Exception:
        got = False
    if s <= 9 and not got: bad.append(f'tableau {sch.name} {s} not available')
    if got:
        A, b, c = np.asarray(A, float), np.asarray(b, float), np.asarray(c, float)
        if A.shape != (s, s) or b.shape != (s,) or c.shape != (s,):
            return [f'tableau {sch.name} {s}: shapes {A.shape} {b.shape} {c.shape}']
        tol = 5e-11
        if order != p: bad.append(f'{sch.name} {s}: order {order} expected {p}')
        for k in range(1, p + 1):
            r = math.fsum(b * c ** (k - 1)) - 1 / k
            if abs(r) > tol: bad.append(f'{sch.name} {s}: quadrature condition {k} violated by {r:.2e}')
        for k in range(1, s + 1):
            r = np.abs(A @ c ** (k - 1) - c ** k / k).max()
            if r > tol: bad.append(f'{sch.name} {s}: stage condition {k} violated by {r:.2e}')
        if (abs(c[-1] - 1) < 1e-12) != rad: bad.append(f'{sch.name} {s}: last node {c[-1]}')
        if s > 9: bad.append(f'{sch.name} {s}: undocumented stage count accepted')
    if s <= 9:
        B, C, D, t = generate_butcher_tableu_integral(s, sch)
        B, C, D, t = (np.asarray(q, float) for q in (B, C, D, t))
        B, D = B.flatten(), D.flatten()
        tol = 2e-8
        nodes = np.concatenate(([0.0], ca.collocation_points(s, 'radau' if rad else 'legendre')))
        if not eq(t, nodes): bad.append(f'{sch.name} {s}: integral form nodes {t}')
        else:
            for k in range(s + 1):
                if abs(D @ t ** k - 1) > tol: bad.append(f'{sch.name} {s}: end value of t^{k}')
                d = k * t ** (k - 1) if k else 0 * t
                if np.abs((t ** k) @ C - d).max() > tol * 50: bad.append(f'{sch.name} {s}: derivative of t^{k}')
            for k in range(1, p + 1):
                r = math.fsum(B[1:] * t[1:] ** (k - 1)) - 1 / k
                if abs(r) > tol: bad.append(f'{sch.name} {s}: integral form quadrature condition {k} violated by {r:.2e}')
        for rep in IrkRepresentation:
            o = nosnoc.NosnocOpts(); o.n_s = s; o.irk_scheme = sch; o.irk_representation = rep
            o.preprocess()
            if bool(o.right_boundary_point_explicit) != rad:
                bad.append(f'{sch.name} {s} {rep.name}: right boundary classified {o.right_boundary_point_explicit}')
            if rep == IrkRepresentation.INTEGRAL:
                if not (eq(o.B_irk, B) and eq(o.C_irk, C) and eq(o.D_irk, D)): bad.append('options do not hold the integral tableau')
            elif got and not (eq(o.A_irk, A) and eq(o.b_irk, b)): bad.append('options do not hold the tableau')
    return bad


# ------------------------------------------------------------- C07 grids (rows + results)
def check_C07(case):
    bad = tagged(case, 'C07')
    u, opts, model, ocp, s = build(case)
    prob = s.problem; c = u.case
    w = rand_w(prob, case['seed'] + 5)
    r = nosnoc.get_results_from_primal_vector(prob, w)
    Nfe = nfe_list(c)
    if opts.use_fesd:
        h = w[[prob.ind_h[i] for i in range(sum(Nfe))]]
    else:
        h = np.concatenate([[opts.terminal_time / c['N_stages'] / n] * n for n in Nfe])
    if not eq(r['time_steps'], h): bad.append(f'time steps {r["time_steps"]} expected {h}')
    grid = np.concatenate(([0.], np.cumsum(h)))
    if not eq(r['t_grid'], grid): bad.append(f't_grid {r["t_grid"]} expected {grid}')
    gu = grid[np.concatenate(([0], np.cumsum(Nfe)))]
    if not eq(r['t_grid_u'], gu): bad.append(f't_grid_u {r["t_grid_u"]} expected {gu}')
    # speed of time: dynamics and running cost rows
    if opts.speed_of_time_variables.name != 'NONE':
        bad += [m for t, m in nlp_fails(case, 'C07') if 'C03' in t]
    return bad


# ------------------------------------------------------------- C10
def cases_C10(rng, n):
    out = []
    for i in range(n):
        c = random_case(rng, dict(use_fesd=i % 2 == 0, speed_of_time_variables='NONE', step_equilibration='HEURISTIC_MEAN',
                                  mpcc_mode=rng.choice(['SCHOLTES_INEQ', 'FISCHER_BURMEISTER']), n_s=rng.choice([1, 2])),
                        Nfe=[1] * 3 if i % 3 else [1, 2, 1], N_stages=3, n_ptv=rng.choice([0, 1, 2]), n_pg=rng.choice([0, 1, 2]),
                        ocp=True, g_path=1, g_term=1, comp=[1, 1, 1])
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            ops.append([rng.choice(['p_global', 'p_time_var', 'x0', 'solve']), rng.randrange(10 ** 6)])
        c['ops'] = ops + [['solve', 0]]
        c['kind_'] = 'C10'
        out.append(c)
    return out


def check_C10(case):
    u, opts, model, ocp, s = build(case, solver=True)
    prob = s.problem; c = u.case
    cur = dict(x0=u.x0.copy(), ptv=u.ptv_val.copy(), pg=u.pg_val.copy())
    bad = []
    opts.max_iter_homotopy = 1
    for op, seed in case['ops']:
        R = np.random.RandomState(seed)
        if op == 'p_global' and c['n_pg']:
            cur['pg'] = R.uniform(-1, 1, c['n_pg']); s.set('p_global', cur['pg'].copy())
        elif op == 'p_time_var' and c['n_ptv']:
            cur['ptv'] = R.uniform(-1, 1, (c['N_stages'], c['n_ptv'])); s.set('p_time_var', cur['ptv'].copy())
        elif op == 'x0':
            cur['x0'] = R.uniform(-1, 1, c['n_x']); s.set('x0', cur['x0'].copy())
        elif op == 'solve':
            k = len(s.solver.calls)
            s.solve()
            p = s.solver.calls[k]['p']
            if p.shape[0] != prob.p.shape[0]:
                return [f'parameter vector of length {p.shape[0]}, problem needs {prob.p.shape[0]}']
            orc = Oracle(u, prob)
            sg = opts.sigma_0
            par = Par(u, sigma=sg, tau=min(sg ** 1.5, sg), x0=cur['x0'], ptv=cur['ptv'], pg=cur['pg'])
            w = rand_w(prob, seed + case['seed'])
            bad += [m for t, m in compare(orc, w, par, p)]
            lam = orc.lambda00()
            if not eq(np.sort(s.lambda00), np.sort(lam)): bad.append(f'initial multipliers {s.lambda00} expected {lam}')
            n_ptv = c['n_ptv']
            if not (eq(model.p_val_ctrl_stages[:, :n_ptv], cur['ptv']) and
                    all(eq(r, cur['pg']) for r in model.p_val_ctrl_stages[:, n_ptv:])):
                bad.append('parameter values of the stages are not the values set')
    return bad


# ------------------------------------------------------------- C11
ST = ['Solve_Succeeded', 'Solved_To_Acceptable_Level', 'Feasible_Point_Found', 'Search_Direction_Becomes_Too_Small',
      'Infeasible_Problem_Detected', 'Maximum_Iterations_Exceeded', 'Restoration_Failed', 'Diverging_Iterates', 'Invalid_Number_Detected',
      'Maximum_CpuTime_Exceeded', 'User_Requested_Stop']
GOOD = set(ST[:4])


def cases_C11(rng, n):
    out = []
    for i in range(n):
        c = random_case(rng, dict(use_fesd=rng.random() < .6, mpcc_mode='SCHOLTES_INEQ',
                                  n_s=1, comp_tol=rng.choice([1e-8, 1e-4]), sigma_0=rng.choice([1.0, .3, 2.0]),
                                  sigma_N=rng.choice([1e-8, 1e-3, 1e-2]), homotopy_update_slope=rng.choice([.1, .5, .3]),
                                  homotopy_update_exponent=rng.choice([1.5, 2.0]),
                                  homotopy_update_rule=rng.choice(['LINEAR', 'SUPERLINEAR']),
                                  max_iter_homotopy=rng.choice([0, 1, 2, 4, 7]),
                                  pss_mode='STEWART', speed_of_time_variables='NONE',
                                  fix_active_set_fe0=rng.random() < .3, irk_representation='INTEGRAL',
                                  initialization_strategy=rng.choice(['ALL_XCURRENT_W0_START', 'ALL_XCURRENT_WOPT_PREV', 'EXTERNAL']),
                                  do_polishing_step=rng.random() < .3),
                        kind='S', sys=[[1, 'full']], n_z=0, comp=[0, 0, 0])
        c['res'] = [rng.choice([1.0, 1e-2, 2e-4, 1e-5, 2e-8, 1e-9, 0.0]) for _ in range(12)]
        c['status'] = [rng.choice(ST) for _ in range(12)]
        if rng.random() < .4: c['status'] = [rng.choice(ST[:4]) for _ in range(11)] + [rng.choice(ST)]
        c['solves'] = rng.choice([1, 1, 2])
        c['fs'] = [round(rng.uniform(-3, 3), 3) for _ in range(12)]
        out.append(c)
    return out


def check_C11(case, only=None):
    u, opts, model, ocp, s = build(case, solver=True)
    prob = s.problem; c = u.case
    bad = []
    nlp = s.solver
    lb0, ub0, lg0, ug0 = (np.array(a, float).copy() for a in (prob.lbw, prob.ubw, prob.lbg, prob.ubg))
    th = prob.ind_theta[-1][-1][-1][0]; la = prob.ind_lam[-1][-1][-1][0]
    first = len(prob.ind_theta[0][0][-1][0]) and sum(nfe_list(c)) == 1
    lam00 = None
    for rep in range(c['solves']):
        start = len(nlp.calls)
        hist = []

        def script(i, kw):
            k = i - start
            x = np.zeros(prob.w.shape[0])
            if th:
                x[th[0]] = 1.0
                x[la[0]] = c['res'][k % 12]
            # other entries identify the iterate (controls and states do not enter the residual)
            x[flat(prob.ind_x)] = 0.01 * (k + 1) + rep
            r = dict(x=x, status=c['status'][k % 12], iter=100 + 10 * rep + k, time=1. + k, f=c['fs'][k % 12])
            hist.append(r)
            return r
        nlp.script = script
        w_first = np.array(prob.w0, float).copy()
        if opts.initialization_strategy.name != 'EXTERNAL':
            for a in prob.ind_x:
                for b in a:
                    for ind in b: w_first[ind] = np.array(model.x0).flatten()
        res = s.solve()
        calls = nlp.calls[start:]
        lam00 = np.array(s.lambda00)
        # reference run of the homotopy
        sg = opts.sigma_0
        n = 0
        sched = []
        while n < opts.max_iter_homotopy:
            sched.append(sg)
            r = hist[n] if n < len(hist) else None
            n += 1
            if r is None:
                bad.append('fewer NLP solves than the stopping rules ask for'); break
            resid = float(prob.comp_res(r['x'], calls[n - 1]['p']))
            if resid < opts.comp_tol: break
            if sg <= opts.sigma_N: break
            if opts.homotopy_update_rule.name == 'LINEAR': sg = opts.homotopy_update_slope * sg
            else: sg = max(opts.sigma_N, min(opts.homotopy_update_slope * sg, sg ** opts.homotopy_update_exponent))
        npol = len(calls) - n
        if opts.do_polishing_step:
            if npol < 1: bad.append(f'{len(calls)} NLP solves, expected {n} plus polishing')
        elif npol != 0:
            bad.append(f'{len(calls)} NLP solves, expected {n}')
        if bad: return bad
        for k in range(n):
            s.lambda00 = lam00
            s.setup_p_val(sched[k], min(sched[k] ** 1.5, sched[k]))
            if not eq(calls[k]['p'], s.p_val, 1e-13): bad.append(f'solve {k}: parameters are not those of relaxation {sched[k]}')
            if k and not eq(calls[k]['x0'], hist[k - 1]['x']): bad.append(f'solve {k} does not start from the previous solution')
            lbe, ube = lb0.copy(), ub0.copy()
            if opts.fix_active_set_fe0:
                act = [i for i, l in enumerate(lam00) if l > 10 * opts.comp_tol]
                z = []
                for st in prob.ind_theta[0][0]:
                    t = flat(st); z += [t[i] for i in act]
                lbe[z] = 0.; ube[z] = 0.
                if k == 0 and z and not np.all(calls[k]['x0'][z] == 0.): bad.append('fixed weights do not start at zero')
            for nm, e in (('lbx', lbe), ('ubx', ube), ('lbg', lg0), ('ubg', ug0)):
                if not eq(calls[k][nm], e): bad.append(f'solve {k}: {nm} differs from the problem')
        if not (eq(prob.lbw, lb0) and eq(prob.ubw, ub0)): bad.append('the problem\'s bounds changed')
        tot = opts.max_iter_homotopy + (1 if opts.do_polishing_step else 0)
        it = [h['iter'] for h in hist[:n]] + [None] * (tot - n)
        if opts.do_polishing_step: it[-1] = hist[-1]['iter']
        if list(res['nlp_iter']) != it: bad.append(f'nlp_iter {res["nlp_iter"]} expected {it}')
        cpu = list(res['cpu_time_nlp'])
        if len(cpu) != tot or cpu[:n] != [h['time'] for h in hist[:n]] or any(v is not None for v in cpu[n:tot - (1 if opts.do_polishing_step else 0)]):
            bad.append(f'cpu times {cpu}')
        if len(res['w_all']) != n + 1: bad.append(f'{len(res["w_all"])} iterates listed, expected {n + 1}')
        else:
            for k in range(n):
                if not eq(res['w_all'][k + 1], hist[k]['x']): bad.append(f'iterate {k + 1} is not the solution of solve {k}')
            if not eq(res['w_all'][0], w_first): bad.append('iterate 0 is not the initial guess')
            if opts.fix_active_set_fe0: w_first[z] = 0.
            if not eq(calls[0]['x0'], w_first): bad.append('the first NLP does not start from the initial guess')
        if not eq(res['w_sol'], hist[-1]['x']): bad.append('w_sol is not the last solution')
        if not eq(res['cost_val'], hist[-1]['f']): bad.append(f'cost_val {res["cost_val"]} expected {hist[-1]["f"]}')
        ok = hist[-1]['status'] in GOOD
        if (res['status'] == Status.SUCCESS) != ok or res['status'] not in (Status.SUCCESS, Status.INFEASIBLE):
            bad.append(f'status {res["status"]} after {hist[-1]["status"]}')
        if not eq(res['x_out'], hist[-1]['x'][prob.ind_x[-1][-1][-1]]): bad.append('x_out')
    return bad


# ------------------------------------------------------------- C12
def check_C12(case):
    u, opts, model, ocp, s = build(case)
    prob = s.problem; c = u.case
    Nfe = nfe_list(c)
    w = rand_w(prob, case['seed'] + 3)
    # piecewise constant weights so that some boundaries are switches and others are not
    rng = random.Random(case['seed'])
    st = opts.pss_mode.name == 'STEWART'
    W = 'ind_theta' if st else 'ind_alpha'
    for ci in range(c['N_stages']):
        for k in range(Nfe[ci]):
            for stg in getattr(prob, W)[ci][k]:
                for i in flat(stg): w[i] = .5
    alls = [(ci, k) for ci in range(c['N_stages']) for k in range(Nfe[ci])]
    cur = None
    expsw = []
    for n_, (ci, k) in enumerate(alls):
        ind = flat(getattr(prob, W)[ci][k][-1])
        if cur is None: cur = np.array([rng.uniform(0, 1) for _ in ind])
        else:
            cur = cur + np.array([rng.uniform(-.05, .05) for _ in ind])
            if rng.random() < .5:
                cur = cur.copy(); cur[rng.randrange(len(ind))] += rng.choice([-.4, .4]); expsw.append(n_)
        w[ind] = cur
    r = nosnoc.get_results_from_primal_vector(prob, w)
    bad = []
    X0 = u.x0
    ends = [w[prob.ind_x[ci][k][-1]] for ci, k in alls]

    def same(a, b, what):
        try:
            ok = len(a) == len(b) and all(eq(p, q) for p, q in zip(a, b))
        except Exception:
            ok = False
        if not ok: bad.append(f'{what}: {a!r:.200} expected {b!r:.200}')
    same(r['x_list'], ends, 'x_list')
    same(r['x_traj'], [X0] + ends, 'x_traj')
    same([r['x_out']], [ends[-1]], 'x_out')
    same(r['x_all_list'], [X0] + [w[L] for ci, k in alls for L in prob.ind_x[ci][k]], 'x_all_list')
    U = [w[prob.ind_u[ci]] for ci in range(c['N_stages'])]
    same(r['u_list'], U, 'u_list'); same(r['u_traj'], U, 'u_traj')
    if opts.speed_of_time_variables.name != 'NONE':
        same(r['sot'], [w[L] for L in prob.ind_sot], 'sot')
    for key, g in (('theta_list', 'ind_theta'), ('lambda_list', 'ind_lam')):
        if not st: continue
        got = r[key]
        if len(got) != len(alls): bad.append(f'{key} has {len(got)} entries'); continue
        for (ci, k), v in zip(alls, got):
            e = [w[L] for L in getattr(prob, g)[ci][k][-1]]
            if len(v) != len(e) or not all(eq(a, b) for a, b in zip(v, e)): bad.append(f'{key} at {ci},{k}: {v} expected {e}')
    for key, g in (('alpha_list', 'ind_alpha'), ('lambda_n_list', 'ind_lambda_n'), ('lambda_p_list', 'ind_lambda_p')):
        if st: continue
        same([np.asarray(a).flatten() for a in r[key]], [w[flat(getattr(prob, g)[ci][k][-1])] for ci, k in alls], key)
    same(r['z_list'], [w[prob.ind_z[ci][k][-1]] if c['n_z'] else np.zeros(0) for ci, k in alls], 'z_list')
    same([np.asarray(r['v_global']).flatten()], [w[flat(prob.ind_v_global)] if c['n_v'] else np.zeros(0)], 'v_global')
    if opts.use_fesd: h = w[prob.ind_h]
    else: h = np.concatenate([[opts.terminal_time / c['N_stages'] / n] * n for n in Nfe])
    grid = np.concatenate(([0.], np.cumsum(h)))
    same([np.asarray(r['switch_times'])], [grid[expsw] if expsw else np.zeros(0)], 'switch_times')
    return bad


# ------------------------------------------------------------- C13
def cases_C13(rng, n):
    out = []
    for i in range(n):
        c = random_case(rng, dict(mpcc_mode='SCHOLTES_INEQ', initialization_strategy=rng.choice(
            ['EXTERNAL', 'EXTERNAL', 'ALL_XCURRENT_W0_START', 'ALL_XCURRENT_WOPT_PREV']), max_iter_homotopy=2))
        c['ops'] = [[rng.choice(['x', 'x', 'u', 'v_global', 'theta', 'w', 'x0', 'solve', 'bad', 'badx']), rng.randrange(10 ** 6)]
                    for _ in range(rng.choice([1, 2, 4]))] + [['solve', 1]]
        out.append(c)
    return out


def check_C13(case):
    u, opts, model, ocp, s = build(case, solver=True)
    prob = s.problem; c = u.case; nlp = s.solver
    Nfe = nfe_list(c)
    ext = opts.initialization_strategy.name == 'EXTERNAL'
    w = np.array(prob.w0, float).copy()
    x0 = u.x0.copy()
    bad = []
    for op, seed in case['ops']:
        R = np.random.RandomState(seed); n = len(w)
        def call(field, val):
            try:
                s.set(field, val)
            except Warning:
                if ext: bad.append('spurious warning')
        if op == 'x' and ext:
            if R.rand() < .5 or c['N_stages'] == sum(Nfe):
                v = R.rand(c['N_stages'], c['n_x'])
                for i in range(c['N_stages']):
                    for fe in prob.ind_x[i]:
                        for L in fe: w[L] = v[i]
            else:
                v = R.rand(sum(Nfe), c['n_x'])
                i = 0
                for st in prob.ind_x:
                    for fe in st:
                        for L in fe: w[L] = v[i]
                        i += 1
            call('x', v)
        elif op == 'u' and c['n_u']:
            v = R.rand(c['N_stages'], c['n_u'])
            for i in range(c['N_stages']): w[prob.ind_u[i]] = v[i]
            call('u', v)
        elif op == 'v_global' and c['n_v']:
            v = R.rand(c['n_v']); w[flat(prob.ind_v_global)] = v; call('v_global', v)
        elif op == 'theta' and opts.pss_mode.name == 'STEWART':
            v = R.rand(sum(Nfe), sum(u.n_f)); i = 0
            for st in prob.ind_theta:
                for fe in st:
                    for L in fe: w[flat(L)] = v[i]
                    i += 1
            call('theta', v)
        elif op == 'w' and ext:
            w = R.rand(n); call('w', w.copy())
        elif op == 'x0':
            x0 = R.rand(c['n_x']); call('x0', x0.copy())
        elif op == 'bad':
            try:
                s.set('nonsense', R.rand(2)); bad.append('unknown field accepted')
            except Exception: pass
        elif op == 'badx':
            m = c['N_stages'] + sum(Nfe) + 1
            for f in ('x', 'theta'):
                if f == 'x' and not ext: continue
                try:
                    s.set(f, R.rand(m, c['n_x'] if f == 'x' else sum(u.n_f))); bad.append(f'{f} of wrong leading dimension accepted')
                except Exception: pass
        elif op == 'solve':
            k = len(nlp.calls)
            nlp.script = lambda i, kw: dict(x=R.rand(n) + 2.)
            if not ext: w[flat(prob.ind_x)] = np.tile(x0, len(flat(prob.ind_x)) // c['n_x'])
            res = s.solve()
            if not eq(nlp.calls[k]['x0'], w): bad.append('the first NLP does not start from the expected initial guess')
            if opts.initialization_strategy.name == 'ALL_XCURRENT_WOPT_PREV': w = np.array(res['w_sol']).copy()
            if not eq(prob.w0, w): bad.append('the stored guess after solving is wrong')
            continue
        if not eq(prob.w0, w):
            d = [i for i in range(n) if abs(prob.w0[i] - w[i]) > 1e-12]
            bad.append(f'after set {op}: entries {d[:6]} of the guess are wrong')
            return bad
    if not eq(prob.model.x0, x0): bad.append('initial state')
    return bad


# ------------------------------------------------------------- C14
def cases_C14(rng, n):
    out = []
    for i in range(n):
        bad = i % 4 == 3
        c = random_case(rng, dict(use_fesd=rng.random() < .7, mpcc_mode='SCHOLTES_INEQ', n_s=1,
                                  initialization_strategy='EXTERNAL' if rng.random() < .5 else 'ALL_XCURRENT_W0_START',
                                  max_iter_homotopy=rng.choice([1, 2, 3]), step_equilibration='HEURISTIC_MEAN'),
                        N_stages=1 if not bad else rng.choice([1, 2]), Nfe=rng.choice([1, 2, 3]), n_u=0 if not bad else rng.choice([0, 1]),
                        ocp=False if not bad else rng.random() < .5, n_pg=rng.choice([0, 1, 2]))
        c['Nsim'] = rng.choice([0, 1, 2, 4])
        c['stat'] = [rng.random() < .7 for _ in range(5)]
        c['stop'] = rng.random() < .5
        c['pv'] = rng.random() < .6
        c['pv_bad'] = rng.random() < .25
        c['winit'] = c['opts']['initialization_strategy'] == 'EXTERNAL' and rng.random() < .7
        c['fl'] = rng.randrange(10 ** 6)
        out.append(c)
    return out


def check_C14(case):
    u, opts, model, ocp, s = build(case, solver=True)
    prob = s.problem; c = u.case; N = c['Nsim']
    R = np.random.RandomState(c['fl'])
    pure = c['n_u'] == 0 and c['N_stages'] == 1 and not c['ocp']
    pv = R.rand(N, c['n_pg']) if c['pv'] else None
    if pv is not None and c['pv_bad']:
        badp = R.rand(N + 1, c['n_pg']) if R.rand() < .5 else R.rand(N, c['n_pg'] + 1)
    x0 = R.rand(c['n_x'])
    winit = [R.rand(prob.w.shape[0]) for _ in range(N)] if c['winit'] else None

    def make(p):
        return nosnoc.NosnocSimLooper(s, x0.copy(), N, p_values=p, w_init=winit, print_level=0)
    if pv is not None and c['pv_bad']:
        try:
            make(badp); return ['parameter values of wrong shape accepted']
        except Exception: return []
    try:
        lo = make(pv)
    except Exception as e:
        return [] if not pure else [f'pure simulation problem refused: {e!r:.100}']
    if not pure: return ['problem with controls, several stages or ocp data accepted for simulation']
    log = []
    orig = s.solve

    def solve():
        k = len(log)
        start = len(s.solver.calls)
        def script(i, kw):
            x = R.rand(prob.w.shape[0])
            return dict(x=x, status='Solve_Succeeded' if c['stat'][k % 5] else 'Infeasible_Problem_Detected', f=R.randn())
        s.solver.script = script
        xin, pin = np.array(prob.model.x0).copy(), prob.model.p_val_ctrl_stages.copy()
        r = orig()
        log.append((xin, pin, s.solver.calls[start]['x0'].copy(), r))
        return r
    s.solve = solve
    ret = lo.run(stop_on_failure=c['stop'])
    bad = []
    exp = N
    if c['stop']:
        for k in range(N):
            if not c['stat'][k % 5]: exp = k + 1; break
    if len(log) != exp: return [f'{len(log)} simulation steps performed, expected {exp} (stop_on_failure={c["stop"]})']
    res = lo.get_results()
    X = [x0]; ts = []; th = []; sw = []
    cur = x0; T = 0.
    for k, (xin, pin, w0, r) in enumerate(log):
        if not eq(xin, cur): bad.append(f'step {k} starts from {xin}, expected {cur}')
        if pv is not None and not all(eq(row[c['n_ptv']:], pv[k]) for row in pin): bad.append(f'step {k} parameters')
        if winit is not None and not eq(w0, winit[k]): bad.append(f'step {k} initial guess')
        X += r['x_list']; cur = r['x_out']
        sw += (np.asarray(r['switch_times']) + T).tolist()
        ts += list(r['time_steps']); T = float(np.sum(ts))
    def same(key, e):
        g = res[key]
        try:
            ok = len(g) == len(e) and all((a is b) or eq(a, b) for a, b in zip(g, e))
        except Exception: ok = False
        if not ok: bad.append(f'{key}: {g!r:.150} expected {e!r:.150}')
    same('X_sim', X); same('time_steps', ts); same('t_grid', np.concatenate(([0.], np.cumsum(ts))))
    same('switch_times', sw)
    for key, src in (('theta_sim', 'theta_list'), ('lambda_sim', 'lambda_list'), ('alpha_sim', 'alpha_list'), ('z_sim', 'z_list'),
                     ('w_sim', 'w_sol'), ('w_all', 'w_all'), ('cost_vals', 'cost_val')):
        g = res[key]
        if len(g) != len(log) or any(a is not l[3][src] for a, l in zip(g, log)) and key not in ('cost_vals',):
            bad.append(f'{key} is not the list of the per-step results')
        if key == 'cost_vals' and not eq(g, [l[3]['cost_val'] for l in log]): bad.append('cost_vals')
    if list(res['status']) != [l[3]['status'] for l in log]: bad.append('status list')
    cpu = np.zeros((N, np.asarray(res['cpu_nlp']).shape[1] if N else 0))
    for k, l in enumerate(log): cpu[k] = [0 if v is None else v for v in l[3]['cpu_time_nlp']]
    if N and not eq(res['cpu_nlp'], cpu): bad.append('cpu_nlp')
    if opts.speed_of_time_variables.name != 'NONE' and [list(map(float, np.concatenate(a))) for a in res['sot']] != \
            [list(map(float, np.concatenate(l[3]['sot']))) for l in log]: bad.append('sot')
    return bad


# ------------------------------------------------------------- C16
UN = ['sin', 'cos', 'exp', 'tanh', 'neg', 'sq', 'sqrt1', 'atan']
BI = ['+', '-', '*', '/']


def rand_tree(rng, depth, ns, u=True):
    # switching functions do not depend on the controls
    r = rng.random()
    if depth == 0 or r < .12:
        return rng.choice([['x', rng.randrange(3)], ['k', round(rng.uniform(-2, 2), 2)], ['u', 0] if u else ['x', 0]])
    if r < .35: return [rng.choice(UN), rand_tree(rng, depth - 1, ns, u)]
    if r < .65 or not ns: return [rng.choice(BI), rand_tree(rng, depth - 1, ns, u), rand_tree(rng, depth - 1, ns, u)]
    if r < .8: return ['sign', rand_tree(rng, depth - 1, False, False)]
    return [rng.choice(['max', 'min']), rand_tree(rng, depth - 1, False, False), rand_tree(rng, depth - 1, False, False)]


def tree_sx(t, x, u):
    k = t[0]
    if k == 'x': return x[t[1]]
    if k == 'u': return u[0]
    if k == 'k': return ca.SX(t[1])
    a = [tree_sx(q, x, u) for q in t[1:]]
    return {'sin': ca.sin, 'cos': ca.cos, 'exp': lambda q: ca.exp(ca.sin(q)), 'tanh': ca.tanh, 'neg': lambda q: -q, 'sq': lambda q: q ** 2, 'atan': ca.atan,
            'sqrt1': lambda q: ca.sqrt(q ** 2 + 1), '+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q,
            '/': lambda p, q: p / (q ** 2 + 1), 'sign': ca.sign, 'max': ca.fmax, 'min': ca.fmin}[k](*a)


NS_OPS = None


def has_ns(e):
    if e.n_dep() == 0: return False
    if e.is_op(ca.OP_SIGN) or e.is_op(ca.OP_FMAX) or e.is_op(ca.OP_FMIN): return True
    return any(has_ns(e.dep(i)) for i in range(e.n_dep()))


def is_sw(e):
    return e.n_dep() > 0 and (e.is_op(ca.OP_SIGN) or e.is_op(ca.OP_FMAX) or e.is_op(ca.OP_FMIN))


def spec_additive(e):
    if e.n_dep() == 1:
        if e.is_op(ca.OP_NEG): return spec_additive(e.dep(0))
        return bool(e.is_op(ca.OP_SIGN))
    if e.n_dep() == 0: return False
    if e.is_op(ca.OP_FMIN) or e.is_op(ca.OP_FMAX): return True
    if e.is_op(ca.OP_MUL):
        if is_sw(e.dep(0)): return not has_ns(e.dep(1))
        if is_sw(e.dep(1)): return not has_ns(e.dep(0))
    return False


def spec_components(e):
    if e.n_dep() == 1 and e.is_op(ca.OP_NEG): return [-a for a in spec_components(e.dep(0))]
    if e.n_dep() == 2 and e.is_op(ca.OP_ADD): return spec_components(e.dep(0)) + spec_components(e.dep(1))
    if e.n_dep() == 2 and e.is_op(ca.OP_SUB): return spec_components(e.dep(0)) + [-a for a in spec_components(e.dep(1))]
    return [e]


def cases_C16(rng, n):
    out = []
    hand = [[['+', ['sign', ['x', 0]], ['neg', ['sign', ['x', 1]]]]], [['min', ['x', 0], ['x', 1]]], [['max', ['x', 0], ['sin', ['x', 1]]]],
            [['neg', ['max', ['x', 0], ['k', 0.5]]]], [['*', ['sign', ['x', 0]], ['x', 1]], ['-', ['x', 0], ['min', ['x', 2], ['x', 1]]]],
            [['+', ['sign', ['x', 0]], ['*', ['sign', ['x', 1]], ['sign', ['x', 2]]]]], [['-', ['sin', ['sign', ['x', 0]]], ['sign', ['x', 1]]]]]
    for h in hand: out.append(dict(trees=h, seed=1))
    for i in range(n):
        out.append(dict(trees=[rand_tree(rng, rng.choice([2, 3, 4]), True) for _ in range(rng.choice([1, 1, 2, 3]))], seed=rng.randrange(10 ** 6)))
    return out


def check_C16(case):
    x = ca.SX.sym('x', 3); uu = ca.SX.sym('u', 1)
    es = [tree_sx(t, x, uu) for t in (case['trees'] + [['x', 1], ['sin', ['x', 0]]])[:3]]   # padded with smooth components to the dimension of x
    f = ca.vertcat(*es)
    bad = []
    mk = lambda: nosnoc.NosnocAutoModel(x=x, x0=np.zeros(3), u=uu, f_nonsmooth_ode=f)
    rs = np.random.RandomState(case['seed'])
    pts = [(rs.uniform(-2, 2, 3), rs.uniform(-2, 2, 1)) for _ in range(12)]
    am = mk()
    for e in ca.vertsplit(f):
        if bool(am._check_smooth(e)) != (not has_ns(e)): bad.append(f'smooth({e}) = {am._check_smooth(e)}')
        comps = am._find_nonlinear_components(e)
        d = ca.Function('d', [x, uu], [sum(comps, ca.SX(0)) - e])
        for p in pts:
            v = float(d(*p))
            if not abs(v) < 1e-9: bad.append(f'components of {e} do not sum to it ({v})'); break
        if len(comps) != len(spec_components(e)): bad.append(f'{e} has {len(comps)} components')
        for k in comps:
            if bool(am._check_additive(k)) != spec_additive(k): bad.append(f'additive({k})')
    add = any(spec_additive(k) for e in ca.vertsplit(f) for k in spec_components(e))
    if bool(am._detect_additive()) != add: bad.append('additivity of the right-hand side')
    if bad or not add:
        return bad
    m = mk().reformulate()
    if m.f_x is None: return ['expected the general-inclusion reformulation']
    c = ca.vertcat(*m.c); al = ca.vertcat(*m.alpha)
    if c.shape != al.shape: return [f'{c.shape[0]} switching functions for {al.shape[0]} weights']
    fx = ca.vertcat(*m.f_x)
    if fx.shape[0] != len(es): return ['right-hand side has the wrong dimension']
    try:
        F = ca.Function('F', [x, uu, al], [fx]); C = ca.Function('C', [x, uu], [c]); G = ca.Function('G', [x, uu], [f])
    except Exception as e:
        return [f'reformulated expressions contain foreign symbols: {e!r:.100}']
    for p in pts:
        cv = np.array(C(*p)).flatten()
        if np.any(np.abs(cv) < 1e-6) or not np.all(np.isfinite(cv)): continue
        a, b = np.array(F(*p, (cv > 0).astype(float))).flatten(), np.array(G(*p)).flatten()
        if not eq(a, b, 1e-8): bad.append(f'reformulated {a}, original {b} at {p}, switching functions {cv}'); break
    for e in case['trees']:
        pass
    if any(has_ns(q) for q in ca.vertsplit(fx)) and not any(_nested(t) for t in case['trees']):
        bad.append('reformulated right-hand side still contains nonsmooth operations')
    # usable in the Step mode
    try:
        o = nosnoc.NosnocOpts(); o.pss_mode = PssMode.STEP
        o.preprocess(); m.preprocess_model(o)
    except Exception as e:
        bad.append(f'reformulated model cannot be used: {e!r:.100}')
    else:
        if m.dims.n_c_sys != [c.shape[0]]: bad.append('dimensions of the reformulated model')
    return bad


def _nested(t):
    return False


# ------------------------------------------------------------- C17
def cases_C17(rng, n):
    out = []
    for i in range(n):
        out.append(dict(seed=rng.randrange(10 ** 6)))
    return out


def snap(o):
    d = {}
    for k in list(o.__dataclass_fields__) + ['B_irk', 'C_irk', 'D_irk', 'A_irk', 'b_irk', 'irk_time_points', 'right_boundary_point_explicit']:
        if hasattr(o, k):
            v = getattr(o, k)
            d[k] = v.tolist() if isinstance(v, np.ndarray) else copy.deepcopy(v)
    d['__nlp'] = copy.deepcopy(o.opts_casadi_nlp)
    d['__tol'], d['__it'] = o.tol_ipopt, o.nlp_max_iter
    return d


def check_C17(case):
    rng = random.Random(case['seed'])
    bad = []
    fresh0 = snap(nosnoc.NosnocOpts())
    objs = [nosnoc.NosnocOpts() for _ in range(3)]
    setv = [dict() for _ in objs]
    for _ in range(rng.choice([2, 5, 9])):
        i = rng.randrange(3); o = objs[i]
        others = [(k, snap(q)) for k, q in enumerate(objs) if k != i]
        op = rng.choice(['tol', 'iter', 'hom', 'nfe', 'ctol', 'pre', 'N', 'rep', 'ip', 'slope', 'ns'])
        try:
            if op == 'tol': o.tol_ipopt = setv[i]['tol'] = rng.choice([1e-5, 1e-9, 3e-7])
            elif op == 'iter': o.nlp_max_iter = setv[i]['iter'] = rng.choice([10, 777])
            elif op == 'hom' and not setv[i].get('pre'): o.max_iter_homotopy = setv[i]['hom'] = rng.choice([1, 3, 12])
            elif op == 'nfe' and not setv[i].get('pre'):
                o.Nfe_list = list(rng.choice([[1, 3], [2, 2]])); o.N_stages = 2; setv[i]['nfe'] = list(o.Nfe_list)
            elif op == 'ctol' and not setv[i].get('pre'): o.comp_tol = rng.choice([1e-4, 1e-7])
            elif op == 'slope' and not setv[i].get('pre'): o.homotopy_update_slope = rng.choice([.2, .5]); o.sigma_0 = rng.choice([1., 10.])
            elif op == 'N' and not setv[i].get('pre') and 'nfe' not in setv[i]: o.N_stages = rng.choice([1, 2, 4]); o.N_finite_elements = rng.choice([1, 3])
            elif op == 'ns' and not setv[i].get('pre'): o.n_s = rng.choice([1, 2, 3])
            elif op == 'rep' and not setv[i].get('pre'): o.irk_representation = rng.choice(list(IrkRepresentation))
            elif op == 'ip': o.opts_casadi_nlp['ipopt']['linear_solver'] = rng.choice(['ma27', 'mumps'])
            elif op == 'pre': o.preprocess(); setv[i]['pre'] = True
        except Exception as e:
            return [f'{op}: {e!r:.100}']
        for k, sn in others:
            if snap(objs[k]) != sn: bad.append(f'operation {op} on one option object changed another'); return bad
        if snap(nosnoc.NosnocOpts()) != fresh0: bad.append(f'operation {op} changed the defaults of new option objects'); return bad
    for o, v in zip(objs, setv):
        o.preprocess()
        a = snap(o)
        o.preprocess()
        if snap(o) != a: bad.append('preprocessing twice differs from once')
        ip = o.opts_casadi_nlp['ipopt']
        tol = v.get('tol', None)
        if tol is None and not v.get('pre'): tol = o.comp_tol * 1e-2
        if tol is not None and not all(eq(ip[k], tol) for k in ('tol', 'dual_inf_tol', 'compl_inf_tol')): bad.append(f'inner tolerances {ip} expected {tol}')
        if tol is not None and not eq(o.tol_ipopt, tol): bad.append('tol_ipopt')
        if ip['max_iter'] != v.get('iter', 500): bad.append('inner iteration limit')
        if 'hom' in v:
            if o.max_iter_homotopy != v['hom']: bad.append('homotopy limit not kept')
        else:
            e = int(round(abs(math.log(o.comp_tol / o.sigma_0) / math.log(o.homotopy_update_slope)))) + 1
            if o.max_iter_homotopy != e: bad.append(f'homotopy limit {o.max_iter_homotopy} expected {e}')
        if list(o.Nfe_list) != v.get('nfe', [o.N_finite_elements] * o.N_stages): bad.append(f'elements per stage {o.Nfe_list}')
    # wrong types
    o = nosnoc.NosnocOpts()
    f = rng.choice([k for k in o.__dataclass_fields__ if k != 'opts_casadi_nlp'])
    setattr(o, f, object())
    try:
        o.preprocess(); bad.append(f'{f} of wrong type accepted')
    except Exception: pass
    # options reach the NLP solver
    case2 = dict(gen.DEFAULT, seed=3, n_u=0, ocp=False, opts=dict())
    u = gen.build_user(case2)
    oo = gen.make_opts(u.case); oo.tol_ipopt = 3e-6; oo.nlp_max_iter = 41
    real = ca.nlpsol; ca.nlpsol = FakeNlp
    try: s = nosnoc.NosnocSolver(oo, gen.make_model(u), None)
    finally: ca.nlpsol = real
    if s.solver.opts['ipopt']['tol'] != 3e-6 or s.solver.opts['ipopt']['max_iter'] != 41: bad.append('options do not reach the NLP solver')
    return bad


# ------------------------------------------------------------- C18
def c18_muts():
    """name -> function(kw_model, kw_ocp, opts, u) making an inconsistent input"""
    z = np.zeros
    x = lambda u: u.x
    M = {}
    def m(name, need=None):
        def d(f): M[name] = (f, need); return f
        return d
    @m('z0 length', 'z')
    def _(a, b, o, u): a['z0'] = z(u.case['n_z'] + 1)
    @m('lbz length', 'z')
    def _(a, b, o, u): a['lbz'] = z(u.case['n_z'] + 1)
    @m('ubz length', 'z')
    def _(a, b, o, u): a['ubz'] = z(max(0, u.case['n_z'] - 1))
    @m('F and f_x')
    def _(a, b, o, u): a['f_x'] = [u.x]; a['alpha'] = u.alpha
    @m('neither F nor f_x')
    def _(a, b, o, u):
        for k in ('F', 'f_x'): a.pop(k, None)
    @m('f_x without alpha', 'incl')
    def _(a, b, o, u): a.pop('alpha')
    @m('c and S and g', 'S')
    def _(a, b, o, u): a['g_Stewart'] = u.gS
    @m('no regions', 'S')
    def _(a, b, o, u): a.pop('c'); a.pop('S')
    @m('S missing', 'S')
    def _(a, b, o, u): a.pop('S')
    @m('c missing', 'S')
    def _(a, b, o, u): a.pop('c')
    @m('alpha without f_x', 'incl')
    def _(a, b, o, u): a.pop('f_x')
    @m('F not a list', 'S')
    def _(a, b, o, u): a['F'] = tuple(a['F'])
    @m('c not a list', 'Sincl')
    def _(a, b, o, u): a['c'] = tuple(a['c'])
    @m('S not a list', 'S')
    def _(a, b, o, u): a['S'] = tuple(a['S'])
    @m('c and S lengths', 'S')
    def _(a, b, o, u): a['S'] = a['S'] + [a['S'][0]]
    @m('regions of S and F', 'S')
    def _(a, b, o, u): a['S'] = a['S'][:-1] + [a['S'][-1][:-1, :]]
    @m('regions of first S and F', 'S')
    def _(a, b, o, u): a['S'] = [np.vstack((a['S'][0], a['S'][0][:1]))] + a['S'][1:]
    @m('one region only', 'S')
    def _(a, b, o, u): a['F'] = a['F'][:-1] + [a['F'][-1][:, 0]]; a['S'] = a['S'][:-1] + [a['S'][-1][:1, :]]
    @m('g_Stewart rows', 'gS')
    def _(a, b, o, u): a['g_Stewart'] = a['g_Stewart'][:-1] + [a['g_Stewart'][-1][:-1]]
    @m('g_Stewart not a list', 'gS')
    def _(a, b, o, u): a['g_Stewart'] = tuple(a['g_Stewart'])
    @m('g_Stewart in step mode', 'gS')
    def _(a, b, o, u): o.pss_mode = PssMode.STEP
    @m('inclusion in stewart mode', 'incl')
    def _(a, b, o, u): o.pss_mode = PssMode.STEWART
    @m('alpha and c lengths', 'incl')
    def _(a, b, o, u): a['alpha'] = a['alpha'][:-1] + [ca.SX.sym('q', a['alpha'][-1].shape[0] + 1)]
    @m('rows of F', 'S')
    def _(a, b, o, u): a['F'] = a['F'][:-1] + [ca.vertcat(a['F'][-1], a['F'][-1][0, :])]
    @m('rows of F (g)', 'gS')
    def _(a, b, o, u): a['F'] = [ca.vertcat(a['F'][0], a['F'][0][0, :])] + a['F'][1:]
    @m('F and S lengths', 'S')
    def _(a, b, o, u): a['F'] = a['F'] + [a['F'][0]]
    @m('columns of S and c', 'S')
    def _(a, b, o, u): a['S'] = a['S'][:-1] + [np.hstack((a['S'][-1], a['S'][-1][:, :1]))]
    @m('c longer than the columns of S', 'S')
    def _(a, b, o, u): a['c'] = [ca.vertcat(a['c'][0], u.x[0])] + a['c'][1:]
    @m('rows of f_x', 'incl')
    def _(a, b, o, u): a['f_x'] = a['f_x'][:-1] + [ca.vertcat(a['f_x'][-1], u.x[0])]
    @m('more c than f_x', 'incl')
    def _(a, b, o, u): a['c'] = a['c'] + [u.x[0]]; a['alpha'] = a['alpha'] + [ca.SX.sym('q')]
    @m('alpha split differently from c', 'incl')
    def _(a, b, o, u):
        a['c'] = a['c'][:-1] + [ca.vertcat(a['c'][-1], u.x[0])]; a['alpha'] = [ca.vertcat(a['alpha'][0], ca.SX.sym('q'))] + a['alpha'][1:]
        if len(a['c']) == 1: a['c'] = [ca.vertcat(a['c'][0], u.x[0])]
    @m('p_global_val shape')
    def _(a, b, o, u): a['p_global_val'] = z(u.case['n_pg'] + 1)
    @m('p_time_var_val rows')
    def _(a, b, o, u): a['p_time_var_val'] = z((o.N_stages + 1, u.case['n_ptv']))
    @m('p_time_var_val columns')
    def _(a, b, o, u): a['p_time_var_val'] = z((o.N_stages, u.case['n_ptv'] + 1))
    @m('time freezing without clock')
    def _(a, b, o, u): a.pop('t_var', None); o.time_freezing = True
    for k, n in (('lbx', 'n_x'), ('ubx', 'n_x'), ('lbu', 'n_u'), ('ubu', 'n_u'), ('u_guess', 'n_u'), ('lbv_global', 'n_v'),
                 ('ubv_global', 'n_v'), ('v_global_guess', 'n_v')):
        def f(a, b, o, u, k=k, n=n): b[k] = z(u.case[n] + 1)
        M[k + ' length'] = (f, None)
        def f2(a, b, o, u, k=k, n=n): b[k] = z(u.case[n] - 1)
        M[k + ' too short'] = (f2, n)
    for k in ('lbg', 'ubg'):
        def f(a, b, o, u, k=k): b[k] = z(u.case['g_path'] + 1)
        M[k + ' length'] = (f, None)
    @m('g_path_comp width')
    def _(a, b, o, u): b['g_path_comp'] = ca.SX.zeros(1, 3)
    return M


def cases_C18(rng, n):
    out = []
    names = list(c18_muts())
    picks = names + [rng.choice(names) for _ in range(n)]
    for nm in picks:
        c = random_case(rng, dict(mpcc_mode='SCHOLTES_INEQ', use_fesd=True, n_s=1, step_equilibration='HEURISTIC_MEAN'), ocp=True, Nfe=[1, 1], N_stages=2)
        c['mut'] = nm
        need = c18_muts()[c['mut']][1]
        if need == 'z': c['n_z'] = max(1, c['n_z'])
        elif need in ('S', 'gS', 'incl', 'Sincl'):
            c['kind'] = 'S' if need == 'Sincl' else need
            if need == 'gS': c['opts']['pss_mode'] = 'STEWART'
            if need == 'incl': c['opts']['pss_mode'] = 'STEP'; c['n_x'] = max(c['n_x'], len(c['sys']))
        elif need: c[need] = max(1, c[need])
        if c['mut'] == 'F and f_x' : c['kind'] = 'S'
        if c['kind'] != 'incl' and c['opts']['pss_mode'] == 'STEP' and c['kind'] == 'gS': c['opts']['pss_mode'] = 'STEWART'
        c['drop'] = [k for k in ('z0', 'lbz', 'ubz', 'lbx', 'ubx', 'lbu', 'ubu', 'u_guess', 'lbv_global', 'ubv_global', 'v_global_guess', 'lbg', 'ubg', 'p_time_var_val') if rng.random() < .4]
        out.append(c)
    return out


def kw_of(u):
    """keyword arguments the generator would pass"""
    cap = {}
    class Cap(Exception): pass
    rm, ro = nosnoc.NosnocModel, nosnoc.NosnocOcp
    try:
        nosnoc.NosnocModel = lambda **kw: cap.__setitem__('m', kw)
        nosnoc.NosnocOcp = lambda **kw: cap.__setitem__('o', kw)
        gen.make_model(u); gen.make_ocp(u)
    finally:
        nosnoc.NosnocModel, nosnoc.NosnocOcp = rm, ro
    return cap['m'], cap.get('o', {})


def check_C18(case):
    bad = []
    from nosnoc.solver import construct_problem
    u = gen.build_user(case); c = u.case
    # consistent input with some fields missing: accepted, defaults neutral, supplied values unchanged
    a, b = kw_of(u)
    for k in case['drop']: a.pop(k, None); b.pop(k, None)
    a2, b2 = copy.copy(a), copy.copy(b)
    o = gen.make_opts(c)
    m, oc = nosnoc.NosnocModel(**a), nosnoc.NosnocOcp(**b)
    try:
        prob = construct_problem(o, m, oc)
    except Exception as e:
        return [f'consistent input refused: {e!r:.200}']
    d = m.dims
    exp = dict(n_x=c['n_x'], n_u=c['n_u'], n_z=c['n_z'], n_sys=u.n_sys, n_p_time_var=c['n_ptv'], n_p_glob=c['n_pg'])
    for k, v in exp.items():
        if getattr(d, k) != v: bad.append(f'detected {k}={getattr(d, k)}, expected {v}')
    if c['kind'] != 'incl' and list(d.n_f_sys) != u.n_f: bad.append(f'n_f_sys {d.n_f_sys}')
    if c['kind'] != 'gS' and list(d.n_c_sys) != u.n_c: bad.append(f'n_c_sys {d.n_c_sys}')
    inf = np.inf
    def chk(obj, k, n, dflt, src):
        v = np.asarray(getattr(obj, k), float)
        e = np.asarray(src[k], float) if k in src else np.full(n, dflt)
        if v.shape != e.shape or not eq(v, e): bad.append(f'{k} is {v}, expected {e}')
    for k, n, df in (('z0', c['n_z'], 0.), ('lbz', c['n_z'], -inf), ('ubz', c['n_z'], inf)): chk(m, k, n, df, a2)
    for k, n, df in (('lbx', c['n_x'], -inf), ('ubx', c['n_x'], inf), ('lbu', c['n_u'], -inf), ('ubu', c['n_u'], inf), ('u_guess', c['n_u'], 0.),
                     ('lbv_global', c['n_v'], -inf), ('ubv_global', c['n_v'], inf), ('v_global_guess', c['n_v'], 0.),
                     ('lbg', c['g_path'], 0.), ('ubg', c['g_path'], 0.)): chk(oc, k, n, df, b2)
    e = a2['p_time_var_val'] if 'p_time_var_val' in a2 else np.zeros((o.N_stages, c['n_ptv']))
    if not eq(m.p_val_ctrl_stages[:, :c['n_ptv']], e): bad.append('time varying parameter values')
    if not all(eq(r, u.pg_val if c['n_pg'] else np.zeros(0)) for r in m.p_val_ctrl_stages[:, c['n_ptv']:]): bad.append('global parameter values')
    # the bounds reach the problem
    if c['n_u'] and not eq(prob.lbw[prob.ind_u[0]], b2.get('lbu', np.full(c['n_u'], -inf))): bad.append('control bounds')
    # inconsistent input: refused
    u = gen.build_user(case)
    a, b = kw_of(u)
    o = gen.make_opts(c)
    mut = c18_muts()[case['mut']][0]
    try:
        mut(a, b, o, u)
    except Exception:
        return bad
    try:
        construct_problem(o, nosnoc.NosnocModel(**a), nosnoc.NosnocOcp(**b))
        bad.append(f'inconsistent input accepted: {case["mut"]}')
    except (Exception, Warning):
        pass
    return bad


# ------------------------------------------------------------- C19
def cases_C19(rng, n):
    out = []
    for i in range(n):
        eqonly = i % 3 != 0
        c = random_case(rng, dict(constraint_handling='LEAST_SQUARES',
                                  mpcc_mode=rng.choice(['SCHOLTES_EQ', 'FISCHER_BURMEISTER', 'ELASTIC_EQ']) if eqonly or rng.random() < .5 else
                                  rng.choice(['SCHOLTES_INEQ', 'ELASTIC_TWO_SIDED', 'ELASTIC_INEQ', 'BOOLEAN'])),
                        g_path_bnds='default' if eqonly else rng.choice(['default', 'mixed']))
        if eqonly: c['opts'].pop('time_freezing', None)
        c['half'] = rng.random() < .5   # one-sided path bounds 0 <= g <= inf
        out.append(c)
    return out


def check_C19(case):
    # reference problem without least squares
    ref = copy.deepcopy(case); ref['opts']['constraint_handling'] = 'EXACT'
    if case['half'] and case['g_path'] and case['ocp']:
        def tweak(u):
            u.lbg = np.zeros(u.case['g_path']); u.ubg = np.zeros(u.case['g_path']); u.ubg[-1] = np.inf
    else: tweak = lambda u: None
    def mk(cs):
        u = gen.build_user(cs); tweak(u)
        o, m, oc = gen.make_opts(u.case), gen.make_model(u), gen.make_ocp(u)
        real = ca.nlpsol; ca.nlpsol = FakeNlp
        import contextlib, io
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                return nosnoc.NosnocSolver(o, m, oc)
        finally: ca.nlpsol = real
    r = mk(ref)
    P = r.problem
    bad = []
    alleq = bool(np.all(np.asarray(P.lbg) == 0) and np.all(np.asarray(P.ubg) == 0))
    try:
        s = mk(case)
    except Exception as e:
        return [] if not alleq else [f'equality constrained problem refused: {e!r:.150}']
    if not alleq: return ['inequality constraint accepted for least squares handling']
    p = s.problem
    if p.g.shape[0] or len(p.lbg) or len(p.ubg): bad.append('constraints remain')
    nlp = s.solver.nlp
    if ca.SX(nlp['g']).shape[0]: bad.append('constraints remain in the NLP')
    if not (eq(p.lbw, P.lbw) and eq(p.ubw, P.ubw) and eq(p.w0, P.w0)): bad.append('variable bounds changed')
    for k in range(2):
        w = rand_w(p, case['seed'] + k); q = np.random.RandomState(k).uniform(.2, 1, p.p.shape[0])
        f = float(ca.Function('f', [nlp['x'], nlp['p']], [nlp['f']])(w, q))
        g = np.array(P.g_fun(w, q)).flatten(); e = float(P.cost_fun(w, q)) + math.fsum(g ** 2)
        if not abs(f - e) <= 1e-8 * (1 + abs(e)): bad.append(f'objective {f!r}, expected {e!r}')
        if not eq(np.array(p.g_fun(w, q)).flatten(), g): bad.append('constraint values of the original problem')
    return bad


# ------------------------------------------------------------- C20
def cases_C20(rng, n):
    out = []
    for i in range(n):
        c = random_case(rng, dict(do_polishing_step=True, max_iter_homotopy=rng.choice([1, 2]), comp_tol=rng.choice([1e-8, 1e-4]),
                                  initialization_strategy=rng.choice(['ALL_XCURRENT_W0_START', 'ALL_XCURRENT_WOPT_PREV'])))
        c['pst'] = [rng.choice(ST) for _ in range(3)]
        out.append(c)
    return out


def check_C20(case):
    u, opts, model, ocp, s = build(case, solver=True)
    prob = s.problem; c = u.case; nlp = s.solver
    R = np.random.RandomState(case['seed'])
    n = prob.w.shape[0]
    e = 10 * opts.comp_tol
    base = R.uniform(.05, .95, n)
    vals = [0., 1., .5 * e, -.5 * e, 1 + .5 * e, 1 - .5 * e, 3 * e, -3 * e, 1 + 3 * e, -1., .5, -.7, 2.]
    it = np.array([vals[R.randint(len(vals))] if R.rand() < .8 else b for b in base])
    lb0, ub0 = prob.lbw.copy(), prob.ubw.copy()
    nh = opts.max_iter_homotopy
    hist = []

    def script(i, kw):
        pol = i >= len(hom)
        r = dict(x=it if True and len(hist) < nh else R.uniform(0, 1, n), status='Solve_Succeeded' if len(hist) < nh else c['pst'][len(hist) % 3],
                 iter=50 + len(hist), f=R.randn(), time=.1)
        hist.append(r); return r
    hom = []
    opts.comp_tol_keep = opts.comp_tol
    # residual of the random iterate is far above the tolerance, so all homotopy solves are performed
    nlp.script = script
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        res = s.solve()
    calls = nlp.calls
    # number of homotopy solves actually performed
    sg, m = opts.sigma_0, 0
    while m < nh:
        m += 1
        if float(prob.comp_res(hist[m - 1]['x'], calls[m - 1]['p'])) < opts.comp_tol or sg <= opts.sigma_N: break
        sg = s.homotopy_sigma_update(sg)
    bad = []
    if len(calls) <= m: return [f'no polishing solve after {m} homotopy solves']
    w = hist[m - 1]['x']
    lbe, ube = lb0.copy(), ub0.copy()
    for gname in ('ind_lam', 'ind_lambda_n', 'ind_lambda_p', 'ind_alpha', 'ind_theta', 'ind_mu'):
        for i in flat(getattr(prob, gname)):
            if abs(w[i]) < e: lbe[i] = ube[i] = 0.
            if abs(w[i] - 1) < e: lbe[i] = ube[i] = 1.
    s.setup_p_val(0., 0.)
    for k in range(m, len(calls)):
        q = calls[k]
        if not eq(q['lbx'], lbe):
            d = [i for i in range(n) if not eq(q['lbx'][i], lbe[i])]
            bad.append(f'polishing lower bounds wrong at {d[:5]}: {q["lbx"][d[:5]]} expected {lbe[d[:5]]} (values {w[d[:5]]})')
        if not eq(q['ubx'], ube): bad.append('polishing upper bounds wrong')
        if k == m and not eq(q['x0'], w): bad.append('polishing does not start from the iterate')
        if not eq(q['p'], s.p_val): bad.append('polishing problem is not unrelaxed')
        if not (eq(q['lbg'], prob.lbg) and eq(q['ubg'], prob.ubg)): bad.append('constraint bounds changed')
    if not (eq(prob.lbw, lb0) and eq(prob.ubw, ub0)): bad.append('polishing modified the bounds of the problem')
    last = hist[-1]
    if not eq(res['w_sol'], last['x']): bad.append('w_sol is not the polished solution')
    if not eq(res['x_out'], last['x'][prob.ind_x[-1][-1][-1]]): bad.append('x_out is not polished')
    if (res['status'] == Status.SUCCESS) != (last['status'] in GOOD): bad.append(f'status {res["status"]} for {last["status"]}')
    if not eq(res['cost_val'], last['f']): bad.append('cost of the polished solution')
    if res['nlp_iter'][-1] != last['iter'] or len(res['nlp_iter']) != nh + 1 or len(res['cpu_time_nlp']) != nh + 1: bad.append('statistics of the polishing step')
    elif res['cpu_time_nlp'][-1] is None: bad.append('statistics of the polishing step')
    return bad


# ------------------------------------------------------------- C21
def cases_C21(rng, n):
    out = []
    for i in range(n):
        c = random_case(rng, dict(initialization_strategy='RK4_SMOOTHENED', pss_mode='STEWART', irk_scheme='RADAU_IIA',
                                  terminal_time=rng.choice([.2, .4, .7]),
                                  irk_representation=rng.choice(['INTEGRAL', 'DIFFERENTIAL_LIFT_X']), use_fesd=rng.random() < .7,
                                  smoothing_parameter=rng.choice([1e1, .5, 2.]), mpcc_mode='SCHOLTES_INEQ', n_s=rng.choice([1, 2, 3]),
                                  speed_of_time_variables='NONE'),
                        kind='S', N_stages=1, Nfe=rng.choice([1, 2, 3, [3], [4]]), n_u=0, n_z=0, n_ptv=0, n_pg=0, n_v=0, ocp=False,
                        sys=rng.choice([q for q in gen.SYS]))
        out.append(c)
    return out


def check_C21(case):
    u, opts, model, ocp, s = build(case)
    prob = s.problem; c = u.case
    bad = []
    sp = opts.smoothing_parameter
    E = np.zeros(0)
    ev = lambda nm, i, x: np.array(u.ev[nm][i](x, E, E, E, E, E))

    def smooth(x):
        th = []; f = np.zeros(len(x)); mu = []
        for i in range(u.n_sys):
            al = (np.tanh(ev('c', i, x)[:, 0] / sp) + 1) / 2
            t = np.array([np.prod([al[q] if S == 1 else 1 - al[q] for q, S in enumerate(row) if S != 0]) for row in u.S[i]])
            th.append(t); f = f + ev('F', i, x) @ t
            g = -u.S[i] @ ev('c', i, x)[:, 0]
            e = np.exp(-(g) / sp); mu.append(-(g * e).sum() / e.sum())
        return th, f, mu
    R = np.random.RandomState(case['seed'])
    for _ in range(3):
        x = R.uniform(-1.5, 1.5, c['n_x'])
        th, f, mu = smooth(x)
        t = np.array(model.theta_smooth_fun(x, E)).flatten()
        if not eq(t, np.concatenate(th)): bad.append(f'smoothed weights {t} expected {th}')
        if not eq(np.array(model.f_x_smooth_fun(x)).flatten(), f): bad.append('smoothed right-hand side')
        k = 0
        for i in range(u.n_sys):
            q = t[k:k + u.n_f[i]]; k += u.n_f[i]
            if np.any(q < -1e-12) or abs(q.sum() - 1) > 1e-9: bad.append('smoothed weights are not convex')
    if bad: return bad
    for rep in range(2):
        x0 = u.x0 if rep == 0 else R.uniform(-1, 1, c['n_x'])
        s.set('x0', x0.copy())
        w_before = prob.w0.copy()
        s.initialize()
        w = prob.w0
        A, b, cn, C, D = oracle.tableau(opts.n_s, 'RADAU_IIA')
        n = nfe_list(c)[0]
        h = float(opts.terminal_time) / n
        x = np.array(x0, float)
        touched = set()
        for k in range(n):
            tprev = 0.
            for j in range(opts.n_s):
                dt = (cn[j] - tprev) * h; tprev = cn[j]
                F = lambda y: smooth(y)[1]
                k1 = F(x); k2 = F(x + dt / 2 * k1); k3 = F(x + dt / 2 * k2); k4 = F(x + dt * k3)
                x = x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
                if not np.all(np.abs(x) < 8): return bad   # diverging trajectory: comparison meaningless in floating point
                th, f, mu = smooth(x)
                if not np.all(np.isfinite(np.concatenate([mu] + th))): return bad
                def want(ind, v, what):
                    touched.update(ind)
                    if not eq(w[ind], v, 1e-7): bad.append(f'element {k} stage {j}: {what} guess {w[ind]} expected {v}')
                want(prob.ind_x[0][k][j], x, 'state')
                for i in range(u.n_sys):
                    g = -u.S[i] @ ev('c', i, x)[:, 0]
                    want(prob.ind_theta[0][k][j][i], th[i], 'weight')
                    want(prob.ind_lam[0][k][j][i], g - g.min(), 'multiplier')
                    touched.update(prob.ind_mu[0][k][j][i])
                    want(prob.ind_mu[0][k][j][i], [mu[i]], 'dual')
        rest = [i for i in range(len(w)) if i not in touched]
        if not eq(w[rest], w_before[rest]): bad.append('initialization changed other entries')
        if bad: return bad
    return bad


# ------------------------------------------------------------- row properties
check_C03, check_C05, check_C06, check_C08, check_C09, check_C15 = (_rows_check(t) for t in ('C03', 'C05', 'C06', 'C08', 'C09', 'C15'))


def _c09(case):
    bad = tagged(case, 'C09')
    u, opts, model, ocp, s = build(case)
    orc = Oracle(u, s.problem); orc.par = Par(u)
    s.compute_lambda00()
    lam = orc.lambda00()
    # consumed order: the initial multipliers are the complement of the first element's weights (cross complementarity rows)
    if opts.use_fesd:
        bad += [m for t, m in nlp_fails(case, 'C05') if 'C05' in t]
    if len(s.lambda00) != len(lam): bad.append(f'{len(s.lambda00)} initial multipliers, expected {len(lam)}')
    elif not eq(np.sort(s.lambda00), np.sort(lam)): bad.append(f'initial multipliers {s.lambda00} expected {lam}')
    # the reformulated right-hand side, as a function of the weights
    c = u.case; prob = s.problem; par = Par(u)
    if c['ocp'] or True:
        w = rand_w(prob, case['seed'] + 11)
        ptv = u.ptv_val[0] if c['n_ptv'] else np.zeros(0)
        g = lambda n, i: w[flat(i)] if flat(i) else np.zeros(0)
        x, uk, z, v = (g(0, prob.ind_x[0][0][-1]), g(0, prob.ind_u[0]), g(0, prob.ind_z[0][0][0]), g(0, prob.ind_v_global))
        zall = np.concatenate([g(0, getattr(prob, n)[0][0][0]) for n in
                               ('ind_theta', 'ind_lam', 'ind_mu', 'ind_alpha', 'ind_lambda_n', 'ind_lambda_p', 'ind_z')])
        got = np.array(model.f_x_fun(x, zall, uk, np.concatenate((ptv, u.pg_val)), v)).flatten()
        want = orc.dyn(w, 0, 0, 0, x, uk, z, ptv, v)
        if not eq(got, want, 1e-8): bad.append(f'reformulated right-hand side {got}, expected {want}')
    # the multipliers belong to the values in force, also when only parameters changed since the last time
    R = np.random.RandomState(case['seed'] + 3)
    for what in ('p_global', 'p_time_var', 'x0'):
        if what == 'p_global' and c['n_pg']: par.pg = R.uniform(-1, 1, c['n_pg']); s.set(what, par.pg.copy())
        elif what == 'p_time_var' and c['n_ptv']: par.ptv = R.uniform(-1, 1, (c['N_stages'], c['n_ptv'])); s.set(what, par.ptv.copy())
        elif what == 'x0': par.x0 = R.uniform(-1, 1, c['n_x']); s.set(what, par.x0.copy())
        else: continue
        s.compute_lambda00(); orc.par = par
        lam = orc.lambda00()
        if len(s.lambda00) != len(lam) or not eq(np.sort(s.lambda00), np.sort(lam)):
            bad.append(f'initial multipliers after changing {what}: {s.lambda00} expected {lam}')
    return bad


check_C09 = _c09

FOCUS = dict(
    C03=lambda r: dict(over=dict(rho_h=0.0, n_s=r.choice([1, 2, 3, 3, 4, 5, 6, 7, 8, 9]), mpcc_mode=r.choice(['SCHOLTES_INEQ', 'SCHOLTES_EQ']), step_equilibration='HEURISTIC_MEAN'), force=dict(ocp=True, f_q=True, f_T=False, g_path=0, comp=[0, 0, 0])),
    C05=lambda r: dict(over=dict(mpcc_mode=r.choice(['SCHOLTES_INEQ', 'SCHOLTES_EQ', 'FISCHER_BURMEISTER', 'SCHOLTES_INEQ'])), force=dict(comp=[0, 0, 0])),
    C06=lambda r: dict(over=dict(mpcc_mode=r.choice([m.name for m in MpccMode])), force={}),
    C08=lambda r: dict(over=dict(use_fesd=True, mpcc_mode=r.choice(['SCHOLTES_INEQ', 'SCHOLTES_EQ', 'FISCHER_BURMEISTER', 'ELASTIC_EQ'])), force=dict(f_q=False, f_T=False, comp=[0, 0, 0], Nfe=r.choice([[2, 3], [3, 2], [1, 3]]), N_stages=2)),
    C09=lambda r: dict(over=dict(n_s=r.choice([1, 2]), pss_mode=r.choice(['STEP', 'STEWART']), mpcc_mode='SCHOLTES_EQ', step_equilibration='HEURISTIC_MEAN'), force=dict(N_stages=1, Nfe=[1], comp=[0, 0, 0])),
    C15=lambda r: dict(over=dict(mpcc_mode=r.choice(['SCHOLTES_INEQ', 'SCHOLTES_EQ', 'ELASTIC_INEQ', 'ELASTIC_EQ', 'BOOLEAN'])), force=dict(ocp=True)),
    C07=lambda r: dict(over=dict(mpcc_mode='SCHOLTES_INEQ', rho_h=0.0, step_equilibration='HEURISTIC_MEAN'), force=dict(f_T=False, comp=[0, 0, 0], g_path=0)),
)


def default_cases(pid):
    def f(rng, n):
        out = []
        for i in range(n):
            fo = FOCUS.get(pid)
            if fo and i % 4 != 3:
                d = fo(rng)
                out.append(random_case(rng, d['over'], **d['force']))
            else:
                out.append(random_case(rng))
        # focus may leave unsupported combinations: repair
        for c in out:
            if c['opts']['mpcc_mode'] == 'FISCHER_BURMEISTER_IP_AUG' and c['opts']['use_fesd']:
                c['opts']['cross_comp_mode'] = 'COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER'
            if pid in ('C08',) and c['opts']['mpcc_mode'] == 'FISCHER_BURMEISTER_IP_AUG': c['opts']['mpcc_mode'] = 'SCHOLTES_INEQ'
        return out
    return f


PIDS = ['C%02d' % i for i in range(1, 22)]
CASES = {p: globals().get('cases_' + p) or default_cases(p) for p in PIDS}
CHECKS = {p: globals()['check_' + p] for p in PIDS}


def run_case(pid, case):
    """-> (list of messages). An exception of the real code on a valid case is a failure."""
    try:
        return CHECKS[pid](copy.deepcopy(case))
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f'{t.filename.split("/")[-1]}:{t.name}' for t in tb if '/nosnoc/' in t.filename]
        if not where:
            raise
        return [f'exception in {where[-1]}: {type(e).__name__}: {e!s:.200}']
