"""Independent numeric oracle for the NLP a nosnoc problem has to consist of.

Everything is computed from user-level data (gen.U) and the published index groups; no function of
/repo is used.  Rows are compared as a multiset in a sign-independent normal form."""
import math
import numpy as np
import casadi as ca
from .gen import nfe_list

INF = math.inf


def tableau(n_s, scheme):
    """nodes from the collocation family, coefficients by exact integration of Lagrange polynomials"""
    c = np.array(ca.collocation_points(n_s, 'radau' if scheme == 'RADAU_IIA' else 'legendre'))
    P = np.polynomial.polynomial
    A = np.zeros((n_s, n_s)); b = np.zeros(n_s)
    for j in range(n_s):
        l = np.array([1.0])
        for r in range(n_s):
            if r != j:
                l = P.polymul(l, np.array([-c[r], 1.0])) / (c[j] - c[r])
        L = P.polyint(l)
        b[j] = P.polyval(1.0, L)
        A[:, j] = P.polyval(c, L)
    t = np.concatenate(([0.0], c))
    C = np.zeros((n_s + 1, n_s + 1)); D = np.zeros(n_s + 1)
    for j in range(n_s + 1):
        l = np.array([1.0])
        for r in range(n_s + 1):
            if r != j:
                l = P.polymul(l, np.array([-t[r], 1.0])) / (t[j] - t[r])
        D[j] = P.polyval(1.0, l)
        C[j, :] = P.polyval(t, P.polyder(l)) if len(l) > 1 else 0
    return A, b, c, C, D


def flat(L):
    return [a for i in L for a in flat(i)] if isinstance(L, list) else [L]


class Row:
    __slots__ = ('alts', 'lb', 'ub', 'tag', 'what', 'z')

    def __init__(self, alts, lb, ub, tag, what, z=None):
        self.alts, self.lb, self.ub, self.tag, self.what = alts, lb, ub, tag, what


def canon(v, lb, ub):
    return tuple(sorted((v - lb, ub - v)))


class Par:
    """user level parameter values for one evaluation"""
    def __init__(self, u, sigma=0.37, tau=0.21, x0=None, ptv=None, pg=None, z0=None):
        self.sigma, self.tau = sigma, tau
        self.x0 = u.x0 if x0 is None else x0
        self.ptv = u.ptv_val if ptv is None else ptv
        self.pg = u.pg_val if pg is None else pg
        c = u.case
        if z0 is None:
            z0 = u.z0 if (c['n_z'] and c['bounds']) else np.zeros(c['n_z'])
        self.z0 = z0


class Oracle:
    def __init__(self, u, prob):
        self.u, self.prob = u, prob
        c = u.case
        self.o = o = prob.opts
        self.N = c['N_stages']
        self.Nfe = nfe_list(c)
        self.n_s = o.n_s
        self.stewart = o.pss_mode.name == 'STEWART'
        self.rep = o.irk_representation.name
        self.radau = o.irk_scheme.name == 'RADAU_IIA'
        self.A, self.b, self.cn, self.C, self.D = tableau(o.n_s, o.irk_scheme.name)
        self.fesd = o.use_fesd

    def expr_ev(self, name, x, uk, z, ptv, v, i=None, al=None):
        f = self.u.ev[name] if i is None else self.u.ev[name][i]
        a = [x, uk, z, ptv, self.par.pg, v]
        if al is not None:
            a.append(al)
        return np.array(f(*a)).reshape(f.size_out(0), order='F')

    # --- per stage quantities -------------------------------------------------
    def lam_end_exists(self, c, k):
        return self.fesd and not self.radau and k < self.Nfe[c] - 1

    def n_lam(self, c, k):
        return self.n_s + (1 if self.lam_end_exists(c, k) else 0)

    def get(self, w, group, *idx):
        L = getattr(self.prob, group)
        for i in idx:
            L = L[i]
        return w[flat(L)] if flat(L) else np.zeros(0)

    def theta(self, w, c, k, j):
        if self.stewart:
            return np.concatenate([self.get(w, 'ind_theta', c, k, j, s) for s in range(self.u.n_sys)])
        a = np.concatenate([self.get(w, 'ind_alpha', c, k, j, s) for s in range(self.u.n_sys)])
        return np.concatenate((a, 1 - a))

    def lam(self, w, c, k, j):
        if self.stewart:
            return np.concatenate([self.get(w, 'ind_lam', c, k, j, s) for s in range(self.u.n_sys)])
        return np.concatenate([self.get(w, 'ind_lambda_n', c, k, j, s) for s in range(self.u.n_sys)] +
                              [self.get(w, 'ind_lambda_p', c, k, j, s) for s in range(self.u.n_sys)])

    def lambda00(self):
        u, P = self.u, self.par
        ptv = P.ptv[0] if u.case['n_ptv'] else np.zeros(0)
        z = np.zeros(u.case['n_z']) if P.z0 is None else P.z0
        uk = np.zeros(u.case['n_u']); v = np.zeros(u.case['n_v'])
        n, p = [], []
        for s in range(u.n_sys):
            if self.stewart:
                if u.case['kind'] == 'gS':
                    g = self.expr_ev('gS', P.x0, uk, z, ptv, v, s)[:, 0]
                else:
                    g = -u.S[s] @ self.expr_ev('c', P.x0, uk, z, ptv, v, s)[:, 0]
                n.append(g - g.min())
            else:
                cc = self.expr_ev('c', P.x0, uk, z, ptv, v, s)[:, 0]
                n.append(-np.minimum(cc, 0)); p.append(np.maximum(cc, 0))
        return np.concatenate(n + p)

    def dyn(self, w, c, k, j, x, uk, z, ptv, v):
        u = self.u
        if u.case['kind'] == 'incl':
            al = np.concatenate([self.get(w, 'ind_alpha', c, k, j, s) for s in range(u.n_sys)])
            return self.expr_ev('f_x', x, uk, z, ptv, v, None, al)[:, 0]
        f = np.zeros(len(x))
        for s in range(u.n_sys):
            F = self.expr_ev('F', x, uk, z, ptv, v, s)
            if self.stewart:
                t = self.get(w, 'ind_theta', c, k, j, s)
            else:
                a = self.get(w, 'ind_alpha', c, k, j, s)
                t = np.array([np.prod([(a[q] if S == 1 else 1 - a[q]) for q, S in enumerate(row) if S != 0])
                              for row in u.S[s]])
            f = f + F @ t
        return f

    def switching(self, w, c, k, jl, x, uk, z, ptv, v):
        u = self.u; r = []
        for s in range(u.n_sys):
            if self.stewart:
                if u.case['kind'] == 'gS':
                    g = self.expr_ev('gS', x, uk, z, ptv, v, s)[:, 0]
                else:
                    g = -u.S[s] @ self.expr_ev('c', x, uk, z, ptv, v, s)[:, 0]
                r.append(g - self.get(w, 'ind_lam', c, k, jl, s) + self.get(w, 'ind_mu', c, k, jl, s)[0])
            else:
                cc = self.expr_ev('c', x, uk, z, ptv, v, s)[:, 0]
                r.append(cc - self.get(w, 'ind_lambda_p', c, k, jl, s) + self.get(w, 'ind_lambda_n', c, k, jl, s))
        return np.concatenate(r)

    # --- complementarity rows -------------------------------------------------
    def comp_rows(self, xs, y, tag, what, selast):
        m = self.o.mpcc_mode.name; sg = self.par.sigma; tau = self.par.tau; o = self.o
        rows = []
        for i in range(len(y)):
            xi = [x[i] for x in xs]; sx = sum(xi); yi = y[i]
            R = lambda v, lb, ub: rows.append(Row([v], lb, ub, tag, f'{what}[{i}]'))
            if m == 'SCHOLTES_INEQ': R(sx * yi - sg, -INF, 0.)
            elif m == 'SCHOLTES_EQ': R(sx * yi - sg, 0., 0.)
            elif m == 'ELASTIC_INEQ': R(sx * yi - selast, -INF, 0.)
            elif m == 'ELASTIC_EQ': R(sx * yi - selast, 0., 0.)
            elif m == 'ELASTIC_TWO_SIDED':
                R(sx * yi - selast, -INF, 0.); R(sx * yi + selast, 0., INF)
            elif m == 'FISCHER_BURMEISTER':
                R(sum(a + yi - math.sqrt(a * a + yi * yi + sg * sg) for a in xi), 0., 0.)
            elif m == 'FISCHER_BURMEISTER_IP_AUG':
                a = xi[0]
                f = a + yi - math.sqrt(a * a + yi * yi + sg * sg)
                R(f, 0., 0.)
                R(o.fb_ip_aug1_weight * (a - sg) * math.sqrt(tau), 0., 0.)
                R(o.fb_ip_aug1_weight * (yi - sg) * math.sqrt(tau), 0., 0.)
                R(o.fb_ip_aug2_weight * f * math.sqrt(1 + (a - yi) ** 2), 0., 0.)
            elif m == 'BOOLEAN':
                rows.append(('BOOL', sx, yi, tag, f'{what}[{i}]'))
        return rows

    # --- everything -----------------------------------------------------------
    def expected(self, w, par):
        """-> rows, cost parts dict, comp residual"""
        self.par = par
        u, o, case = self.u, self.o, self.u.case
        prob = self.prob
        rows = []
        R = lambda alts, lb, ub, tag, what: rows.append(Row(list(alts), lb, ub, tag, what))
        v = self.get(w, 'ind_v_global') if case['n_v'] else np.zeros(0)
        elastic = o.mpcc_mode.name.startswith('ELASTIC')
        se = w[flat(prob.ind_elastic)][0] if elastic else None
        T = float(o.terminal_time)
        hidx = 0
        cost = dict(run=0.0, equil=0.0, term=0.0)
        res = []
        xprev = np.array(par.x0, float)
        lam_prev = self.lambda00()
        prev = None
        allh = []
        bnd = (lambda i: (u.lbg[i], u.ubg[i])) if u.lbg is not None else (lambda i: (0., 0.))
        for c in range(self.N):
            uk = self.get(w, 'ind_u', c)
            sot = 1.0
            if o.speed_of_time_variables.name == 'LOCAL': sot = w[flat(prob.ind_sot[c])][0]
            if o.speed_of_time_variables.name == 'GLOBAL': sot = w[flat(prob.ind_sot[0])][0]
            ptv = np.array(par.ptv[c]) if case['n_ptv'] else np.zeros(0)
            hs = []
            for k in range(self.Nfe[c]):
                nm = f'stage {c} element {k}'
                hnom = T / self.N / self.Nfe[c]
                if self.fesd:
                    h = w[prob.ind_h[hidx]]; hidx += 1
                else:
                    h = hnom
                hs.append(h)
                V = [self.get(w, 'ind_v', c, k, j) for j in range(self.n_s)] if self.rep != 'INTEGRAL' else None
                Z = [self.get(w, 'ind_z', c, k, j) for j in range(self.n_s)]
                xend = self.get(w, 'ind_x', c, k, -1)
                expr = [xprev + h * sum(self.A[j, r] * V[r] for r in range(self.n_s)) for j in range(self.n_s)] if V else None
                if self.rep == 'DIFFERENTIAL':
                    X = expr
                else:
                    X = [self.get(w, 'ind_x', c, k, j) for j in range(self.n_s)]
                if self.rep == 'DIFFERENTIAL_LIFT_X':
                    for j in range(self.n_s):
                        for i, a in enumerate(X[j] - expr[j]): R([a], 0., 0., 'C03', f'{nm}: lifting {j},{i}')
                for j in range(self.n_s):
                    f = sot * self.dyn(w, c, k, j, X[j], uk, Z[j], ptv, v)
                    q = sot * self.expr_ev('f_q', X[j], uk, Z[j], ptv, v)[0, 0]
                    cost['run'] += h * self.b[j] * q
                    if self.rep == 'INTEGRAL':
                        d = self.C[0, j + 1] * xprev + sum(self.C[r + 1, j + 1] * X[r] for r in range(self.n_s))
                        e = h * f - d
                    else:
                        e = f - V[j]
                    for i, a in enumerate(e): R([a], 0., 0., 'C03', f'{nm}: stage equation {j},{i}')
                    for i, a in enumerate(self.switching(w, c, k, j, X[j], uk, Z[j], ptv, v)):
                        R([a], 0., 0., 'C09', f'{nm}: switching {j},{i}')
                    if self.stewart:
                        for s in range(u.n_sys):
                            R([self.get(w, 'ind_theta', c, k, j, s).sum() - 1], 0., 0., 'C09', f'{nm}: simplex {j},{s}')
                    for i, a in enumerate(self.expr_ev('g_z', X[j], uk, Z[j], ptv, v)[:, 0] if case['n_z'] else []):
                        R([a], 0., 0., 'C09', f'{nm}: algebraic {j},{i}')
                if self.rep == 'DIFFERENTIAL' or not self.radau:
                    if self.rep == 'INTEGRAL':
                        xe = self.D[0] * xprev + sum(self.D[j + 1] * X[j] for j in range(self.n_s))
                    else:
                        xe = xprev + h * sum(self.b[j] * V[j] for j in range(self.n_s))
                    for i, a in enumerate(xe - xend): R([a], 0., 0., 'C03', f'{nm}: end state {i}')
                if self.lam_end_exists(c, k):
                    for i, a in enumerate(self.switching(w, c, k, self.n_s, xend, uk, Z[-1], ptv, v)):
                        R([a], 0., 0., 'C03', f'{nm}: boundary switching {i}')
                # path constraints
                pts = []
                if self.radau and self.rep == 'DIFFERENTIAL':
                    endalts = [X[-1], xend]
                else:
                    endalts = [xend]
                stg = o.g_path_at_stg
                if k == self.Nfe[c] - 1 or o.g_path_at_fe or (stg and self.radau):
                    pts.append((endalts, 'end'))
                if stg:
                    pts += [([X[j]], f'stage {j}') for j in range(self.n_s - (1 if self.radau else 0))]
                if case['g_path']:
                    for alts, what in pts:
                        vals = [self.expr_ev('g_path', xx, uk, Z[-1], ptv, v)[:, 0] for xx in alts]
                        for i in range(case['g_path']):
                            R([a[i] for a in vals], *bnd(i), 'C15', f'{nm}: path {what},{i}')
                # user complementarities
                cats = u.comp_cat
                if 0 in cats:
                    for j in range(self.n_s):
                        m = self.expr_ev('comp', X[j], uk, Z[j], ptv, v)
                        for i, ct in enumerate(cats):
                            if ct == 0:
                                rows += self.comp_rows([m[i:i + 1, 0]], m[i:i + 1, 1], 'C15', f'{nm}: user comp {i} stage {j}', se)
                if 1 in cats and k == self.Nfe[c] - 1:
                    m = self.expr_ev('comp', X[-1], uk, Z[-1], ptv, v)
                    for i, ct in enumerate(cats):
                        if ct == 1:
                            rows += self.comp_rows([m[i:i + 1, 0]], m[i:i + 1, 1], 'C15', f'{nm}: user comp {i}', se)
                # cross complementarity
                TH = [self.theta(w, c, k, j) for j in range(self.n_s)]
                LA = [self.lam(w, c, k, j) for j in range(self.n_lam(c, k))]
                if not self.fesd:
                    for j in range(self.n_s):
                        rows += self.comp_rows([LA[j]], TH[j], 'C05', f'{nm}: comp {j}', se)
                        res.append(LA[j] * TH[j])
                else:
                    for j in range(self.n_s):
                        for l in [lam_prev] + LA: res.append(TH[j] * l)
                        if o.cross_comp_mode.name.startswith('COMPLEMENT_ALL'):
                            for q, l in enumerate([lam_prev] + LA):
                                rows += self.comp_rows([TH[j]], l, 'C05', f'{nm}: comp weight {j} multiplier {q-1}', se)
                        else:
                            rows += self.comp_rows(LA + [lam_prev], TH[j], 'C05', f'{nm}: comp weight {j}', se)
                # step equilibration
                sL = sum(LA) + lam_prev
                sT = sum(TH)
                m = o.step_equilibration.name
                if self.fesd:
                    if m == 'HEURISTIC_MEAN':
                        cost['equil'] += o.rho_h * (h - hnom) ** 2
                    elif k > 0:
                        dh = h - prev[0]
                        nu = np.prod(prev[1] * sL + prev[2] * sT)
                        if m == 'HEURISTIC_DELTA': cost['equil'] += o.rho_h * dh ** 2
                        elif m == 'L2_RELAXED_SCALED':
                            cost['equil'] += o.rho_h * math.tanh(nu / o.step_equilibration_sigma) * dh ** 2
                        elif m == 'L2_RELAXED': cost['equil'] += o.rho_h * nu * dh ** 2
                        elif m == 'DIRECT': R([nu * dh], 0., 0., 'C08', f'{nm}: step equilibration')
                        elif m == 'DIRECT_COMPLEMENTARITY':
                            rows += self.comp_rows([np.array([nu])], np.array([dh]), 'C08', f'{nm}: step equilibration', se)
                        elif m == 'HEURISTIC_DELTA_H_COMP':
                            rows += self.comp_rows([np.zeros(1)], np.array([dh]), 'C08', f'{nm}: step equilibration', se)
                prev = (h, sL, sT)
                xprev = xend
                lam_prev = LA[-1]
            allh += hs
            if self.fesd and o.equidistant_control_grid:
                R([sum(hs) - T / self.N], 0., 0., 'C07', f'stage {c}: step sum')
            if o.time_freezing and o.equidistant_control_grid:
                t0 = float(par.x0[0])
                R([xprev[0] - (T / self.N * (c + 1) + t0)], -o.time_freezing_tolerance, o.time_freezing_tolerance,
                  'C07', f'stage {c}: clock')
        if self.fesd and not o.equidistant_control_grid:
            R([sum(allh) - T], 0., 0., 'C07', 'step sum')
        ptvN = np.array(par.ptv[-1]) if case['n_ptv'] else np.zeros(0)
        z0 = np.zeros(case['n_z']); u0 = np.zeros(case['n_u'])
        if 2 in u.comp_cat:
            m = self.expr_ev('comp', xprev, u0, z0, ptvN, v)
            for i, ct in enumerate(u.comp_cat):
                if ct == 2:
                    rows += self.comp_rows([m[i:i + 1, 0]], m[i:i + 1, 1], 'C15', f'global user comp {i}', se)
        if case['g_term'] and case['ocp']:
            for i, a in enumerate(self.expr_ev('g_term', xprev, u0, z0, ptvN, v)[:, 0]):
                R([a], 0., 0., 'C15', f'terminal {i}')
        if case['ocp']:
            cost['term'] = self.expr_ev('f_T', xprev, u0, z0, ptvN, v)[0, 0]
        else:
            cost['run'] = 0.0
        total = cost['run'] + cost['equil'] + cost['term']
        if elastic:
            total = total + se / par.sigma if o.objective_scaling_direct else par.sigma * total + se
        cost['total'] = total
        return rows, cost, (np.max(np.concatenate(res)) if res and np.concatenate(res).size else None)


def match(rows, actual, tol=1e-7):
    """rows: expected; actual: list of (value, lb, ub).  Returns (missing rows, extra actual indices)."""
    act = [(canon(*a), i) for i, a in enumerate(actual)]
    act.sort()
    keys = [a[0] for a in act]
    used = [False] * len(act)
    import bisect

    def close(a, b):
        for p, q in zip(a, b):
            if math.isinf(p) or math.isinf(q):
                if p != q: return False
            elif not abs(p - q) <= tol * (1 + abs(p)):
                return False
        return True

    def take(cv):
        lo = bisect.bisect_left(keys, (cv[0] - tol * (2 + abs(cv[0])), -INF))
        for i in range(lo, len(keys)):
            if keys[i][0] > cv[0] + tol * (2 + abs(cv[0])): break
            if not used[i] and close(keys[i], cv):
                return i
        return None
    missing = []
    bools = []
    for r in rows:
        if isinstance(r, tuple):
            bools.append(r); continue
        for a in r.alts:
            i = take(canon(a, r.lb, r.ub))
            if i is not None:
                used[i] = True
                break
        else:
            missing.append(r)
    return missing, [act[i][1] for i in range(len(act)) if not used[i]], bools, used, act, take


def compare(orc, w, par, p_val):
    """full comparison of the real problem against the oracle at one point
    -> list of (tags, message)"""
    prob = orc.prob
    fails = []
    rows, cost, res = orc.expected(w, par)
    g = np.array(prob.g_fun(w, p_val)).flatten()
    lbg, ubg = np.array(prob.lbg, float).flatten(), np.array(prob.ubg, float).flatten()
    if orc.o.constraint_handling.name == 'LEAST_SQUARES':
        if lbg.size or ubg.size:
            fails.append((['C19'], f'least squares: {lbg.size} constraint bounds remain'))
        lbg, ubg = np.zeros(g.size), np.zeros(g.size)
    if not (len(g) == len(lbg) == len(ubg)):
        return [(['C01'], f'constraint lengths differ: {len(g)}, {len(lbg)}, {len(ubg)}')]
    actual = list(zip(g.tolist(), lbg.tolist(), ubg.tolist()))
    missing, extra, bools, used, act, take = match(rows, actual)
    if bools:
        # BOOLEAN: every pair (x, y) must own one binary z with the four big-M rows
        M = 1e5
        zs = w[flat(prob.ind_bool)]
        avail = list(range(len(zs)))
        for _, sx, yi, tag, what in bools:
            ok = False
            for zi in avail:
                for zz in (zs[zi], 1 - zs[zi]):
                    four = [(M * zz - yi, 0., INF), (yi + M * zz, 0., INF), (M * (1 - zz) - sx, 0., INF), (sx + M * (1 - zz), 0., INF)]
                    got = []
                    for f in four:
                        i = take(canon(*f))
                        if i is None or i in got: break
                        got.append(i); used[i] = True
                    else:
                        ok = True; avail.remove(zi); break
                    for i in got: used[i] = False
                if ok: break
            if not ok:
                missing.append(Row([float('nan')], 0, INF, tag, what + ' (big-M rows)'))
        extra = [act[i][1] for i in range(len(act)) if not used[i]]
        if avail:
            fails.append((['C06', 'C01'], f'{len(avail)} binaries without big-M rows'))
    comp_idx = set(flat(prob.ind_comp))
    for r in missing:
        near = min((abs(a[0] - r.alts[0]) for a in actual), default=None)
        tags = [r.tag]
        if r.tag == 'C05': tags += ['C06']
        if r.tag == 'C15' and 'comp' in r.what: tags += ['C06']
        if r.tag == 'C09' : tags += ['C03']
        if r.tag == 'C08' and ('COMP' in orc.o.step_equilibration.name): tags += ['C06']
        fails.append((tags, f'expected constraint not imposed: {r.what} value {r.alts[0]!r} bounds [{r.lb},{r.ub}]'))
    if extra and not missing:
        for i in extra[:3]:
            fails.append((['C05', 'C06', 'C15', 'C08'] if i in comp_idx else ['C03', 'C07', 'C08', 'C15'],
                          f'unexpected constraint {i}: value {g[i]!r} bounds [{lbg[i]},{ubg[i]}]'))
    elif extra and len(extra) != len(missing):
        fails.append((['C15'], f'{len(extra)} unmatched constraints for {len(missing)} missing ones'))
    f = float(prob.cost_fun(w, p_val))
    if not abs(f - cost['total']) <= 1e-7 * (1 + abs(f)):
        tags = ['C15']
        if orc.o.mpcc_mode.name.startswith('ELASTIC'): tags.append('C06')
        c = orc.u.case
        if orc.fesd and max(orc.Nfe) >= 1: tags.append('C08')
        if c['f_q'] and c['ocp']: tags.append('C03')
        fails.append((tags, f'objective {f!r}, expected {cost["total"]!r} ({cost})'))
    r = float(prob.comp_res(w, p_val))
    if res is not None and not abs(r - res) <= 1e-9 * (1 + abs(res)):
        fails.append((['C05'], f'complementarity residual {r!r}, expected {res!r}'))
    # every complementarity row is listed exactly once
    tagged = [i for i in flat(prob.ind_comp)]
    if len(tagged) != len(set(tagged)) or any(i < 0 or i >= len(g) for i in tagged):
        fails.append((['C06'], 'complementarity index group names a row twice or a nonexistent row'))
    return fails
