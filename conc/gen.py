"""Concrete case generator: a case is a JSON-able dict; build(case) makes real nosnoc objects.

Used for (a) replaying failed obligations on the real code, (b) the CPython cross-check that
accompanies the proofs, (c) bounded stand-ins (labelled as such in the evidence)."""
import random
import warnings
import numpy as np
import casadi as ca
import nosnoc
from nosnoc.nosnoc_types import *

warnings.filterwarnings('ignore')

ENUMS = dict(mpcc_mode=MpccMode, irk_scheme=IrkSchemes, initialization_strategy=InitializationStrategy,
             step_equilibration=StepEquilibrationMode, cross_comp_mode=CrossComplementarityMode,
             irk_representation=IrkRepresentation, homotopy_update_rule=HomotopyUpdateRule,
             constraint_handling=ConstraintHandling, speed_of_time_variables=SpeedOfTimeVariableMode,
             pss_mode=PssMode)

DEFAULT = dict(seed=0, n_x=2, n_u=1, n_z=0, sys=[[1, 'full']], kind='S', n_ptv=0, n_pg=0, n_v=0,
               opts={}, N_stages=1, Nfe=[2], ocp=True, bounds=True, f_q=True, f_T=True,
               g_path=0, g_path_bnds='mixed', comp=[0, 0, 0], g_term=0, t_var=False, S_zero=False)


def make_opts(case):
    o = nosnoc.NosnocOpts()
    o.N_stages = case['N_stages']
    o.print_level = 0
    nfe = case['Nfe']
    if isinstance(nfe, list):
        o.Nfe_list = list(nfe)
        o.N_finite_elements = case.get('N_fe_default', 2)
    else:
        o.N_finite_elements = nfe
    for k, v in case['opts'].items():
        if k in ENUMS:
            v = ENUMS[k][v]
        setattr(o, k, v)
    return o


def nfe_list(case):
    n = case['Nfe']
    return list(n) if isinstance(n, list) else [n] * case['N_stages']


class U:
    """User level data of a case, with independent numeric evaluators."""


def _expr(rng, vs, smooth=True):
    """random generic scalar expression of the scalars vs"""
    e = ca.SX(round(rng.uniform(-1, 1), 3))
    for v in vs:
        e += round(rng.uniform(0.3, 1.5) * rng.choice([-1, 1]), 3) * v
    if vs:
        a, b = rng.choice(vs), rng.choice(vs)
        e += round(rng.uniform(.2, .8), 3) * ca.sin(a + 0.3) * b
    return e


def scal(v):
    return [v[i] for i in range(v.shape[0])]


def build_user(case):
    c = dict(DEFAULT); c.update(case)
    if not c['ocp']:
        c.update(g_path=0, comp=[0, 0, 0], g_term=0, f_q=False, f_T=False)
    rng = random.Random(c['seed'])
    u = U(); u.case = c
    nx = c['n_x']
    x = ca.SX.sym('x', nx)
    uu = ca.SX.sym('u', c['n_u']); z = ca.SX.sym('z', c['n_z'])
    ptv = ca.SX.sym('ptv', c['n_ptv']); pg = ca.SX.sym('pg', c['n_pg']); v = ca.SX.sym('v', c['n_v'])
    u.x, u.u, u.z, u.ptv, u.pg, u.v = x, uu, z, ptv, pg, v
    allv = scal(x) + scal(uu) + scal(ptv) + scal(pg) + scal(v) + scal(z)
    cvars = scal(x) + scal(ptv) + scal(pg) + (scal(z) if c['seed'] % 3 == 0 else [])
    u.c, u.S, u.F, u.gS, u.alpha = [], [], [], [], []
    kind = c['kind']
    for nc, pat in c['sys']:
        ci = ca.vertcat(*[_expr(rng, cvars) for _ in range(nc)])
        rows = []
        if pat == 'full':
            for k in range(2 ** nc):
                rows.append([1.0 if not (k >> b) & 1 else -1.0 for b in range(nc)])
            rng.shuffle(rows)
        elif pat == 'zero':   # nested pattern with don't cares: [1,0..],[-1,1,0..],..
            for b in range(nc):
                rows.append([-1.0] * b + [1.0] + [0.0] * (nc - b - 1))
            rows.append([-1.0] * nc)
        S = np.array(rows)
        if pat == 'int':
            pass
        nf = len(rows)
        Fi = ca.horzcat(*[ca.vertcat(*[_expr(rng, allv) for _ in range(nx)]) for _ in range(nf)])
        u.c.append(ci); u.S.append(S); u.F.append(Fi)
        u.gS.append(ca.vertcat(*[_expr(rng, cvars) for _ in range(nf)]))
        u.alpha.append(ca.SX.sym('al', nc))
    u.n_c = [nc for nc, _ in c['sys']]
    u.n_f = [s.shape[0] for s in u.S]
    u.n_sys = len(c['sys'])
    if kind == 'incl':
        # n_sys must equal len(f_x): split the state over the entries
        al = sum((scal(a) for a in u.alpha), [])
        f = [_expr(rng, allv + al) for _ in range(nx)]
        ns = u.n_sys
        cut = [round(i * nx / ns) for i in range(ns + 1)]
        u.f_x = [ca.vertcat(*f[cut[i]:cut[i + 1]]) for i in range(ns)]
    u.g_z = ca.vertcat(*[_expr(rng, scal(x) + scal(z) + scal(uu) + scal(ptv) + scal(pg)) for _ in range(c['n_z'])]) \
        if c['n_z'] else ca.SX.sym('gz', 0, 1)
    R = lambda n, a=-1., b=1.: np.array([round(rng.uniform(a, b), 4) for _ in range(n)])
    u.x0 = R(nx)
    u.ptv_val = R(c['N_stages'] * c['n_ptv']).reshape((c['N_stages'], c['n_ptv']))
    u.pg_val = R(c['n_pg'])
    u.z0, u.lbz, u.ubz = R(c['n_z']), R(c['n_z'], -5, -1), R(c['n_z'], 1, 5)
    if c['bounds']:
        u.lbu, u.ubu, u.ug = R(c['n_u'], -5, -1), R(c['n_u'], 1, 5), R(c['n_u'])
        u.lbx, u.ubx = R(nx, -9, -3), R(nx, 3, 9)
        if nx > 1 and rng.random() < .5:
            u.lbx[rng.randrange(nx)] = -np.inf
        u.lbv, u.ubv, u.vg = R(c['n_v'], -5, -1), R(c['n_v'], 1, 5), R(c['n_v'])
    u.f_q = _expr(rng, scal(x) + scal(uu) + scal(ptv) + scal(pg) + scal(v)) if c['f_q'] else ca.SX.zeros(1)
    u.f_T = _expr(rng, scal(x) + scal(ptv) + scal(pg) + scal(v)) if c['f_T'] else ca.SX.zeros(1)
    u.g_path = ca.vertcat(*[_expr(rng, scal(x) + scal(uu) + scal(ptv) + scal(pg) + scal(v)) for _ in range(c['g_path'])]) \
        if c['g_path'] else ca.SX.zeros(0)
    u.lbg = u.ubg = None
    if c['g_path'] and c['g_path_bnds'] == 'mixed':
        u.lbg, u.ubg = R(c['g_path'], -3, -1), R(c['g_path'], 1, 3)
        if rng.random() < .5:
            u.ubg[0] = np.inf
    u.g_term = ca.vertcat(*[_expr(rng, scal(x) + scal(ptv) + scal(pg) + scal(v)) for _ in range(c['g_term'])]) \
        if c['g_term'] else ca.SX.zeros(0)
    # path complementarities: per category numbers [stage, ctrl, global]
    comps, cats = [], []
    sv = scal(x) + scal(z); cv = scal(uu) + scal(ptv); gv = scal(pg) + scal(v)
    want = []
    for k, n in enumerate(c['comp']):
        want += [k] * n
    rng.shuffle(want)
    for k in want:
        base = gv
        if k == 0:
            a = _expr(rng, [rng.choice(sv)] + gv) ; b = _expr(rng, cv + gv)
        elif k == 1:
            if not cv: continue
            a = _expr(rng, gv); b = _expr(rng, [rng.choice(cv)] + gv)
        else:
            if not gv: continue
            a = _expr(rng, gv); b = _expr(rng, [rng.choice(gv)])
        if rng.random() < .5:
            a, b = b, a
        comps.append(ca.horzcat(a, b)); cats.append(k)
    u.comp = ca.vertcat(*comps) if comps else ca.SX.zeros(0, 2)
    u.comp_cat = cats
    u.t_var = x[0] if c['t_var'] else None
    # independent numeric evaluators
    p = ca.vertcat(ptv, pg)
    args = [x, uu, z, ptv, pg, v]
    al = ca.vertcat(*u.alpha) if u.alpha else ca.SX.zeros(0)
    u.ev = dict(
        F=[ca.Function('F', args, [Fi]) for Fi in u.F],
        c=[ca.Function('c', args, [ci]) for ci in u.c],
        gS=[ca.Function('gS', args, [g]) for g in u.gS],
        g_z=ca.Function('gz', args, [u.g_z]),
        f_q=ca.Function('fq', args, [u.f_q]), f_T=ca.Function('fT', args, [u.f_T]),
        g_path=ca.Function('gp', args, [u.g_path]), g_term=ca.Function('gt', args, [u.g_term]),
        comp=ca.Function('cp', args, [u.comp]))
    if kind == 'incl':
        u.ev['f_x'] = ca.Function('fx', args + [al], [ca.vertcat(*u.f_x)])
    return u


def make_model(u):
    c = u.case
    kw = dict(x=u.x, x0=u.x0.copy(), name='m')
    if c['n_u']: kw['u'] = u.u
    if c['n_z']: kw.update(z=u.z, g_z=u.g_z)
    if c['n_z'] and c['bounds']: kw.update(z0=u.z0, lbz=u.lbz, ubz=u.ubz)
    if c['n_ptv']: kw.update(p_time_var=u.ptv, p_time_var_val=u.ptv_val.copy())
    if c['n_pg']: kw.update(p_global=u.pg, p_global_val=u.pg_val.copy())
    if c['n_v']: kw['v_global'] = u.v
    if u.t_var is not None: kw['t_var'] = u.t_var
    k = c['kind']
    if k == 'S': kw.update(F=u.F, c=u.c, S=u.S)
    elif k == 'gS': kw.update(F=u.F, g_Stewart=u.gS)
    else: kw.update(f_x=u.f_x, alpha=u.alpha, c=u.c)
    return nosnoc.NosnocModel(**kw)


def make_ocp(u):
    c = u.case
    if not c['ocp']:
        return None
    kw = {}
    if c['bounds']:
        kw.update(lbx=u.lbx, ubx=u.ubx)
        if c['n_u']: kw.update(lbu=u.lbu, ubu=u.ubu, u_guess=u.ug)
        if c['n_v']: kw.update(lbv_global=u.lbv, ubv_global=u.ubv, v_global_guess=u.vg)
    if c['f_q']: kw['f_q'] = u.f_q
    if c['f_T']: kw['f_terminal'] = u.f_T
    if c['g_path']: kw['g_path'] = u.g_path
    if u.lbg is not None: kw.update(lbg=u.lbg, ubg=u.ubg)
    if c['g_term']: kw['g_terminal'] = u.g_term
    if u.comp.shape[0]: kw['g_path_comp'] = u.comp
    return nosnoc.NosnocOcp(**kw)


class FakeSol(dict):
    pass


class FakeNlp:
    """Stands for the ca.nlpsol object: records calls, answers from a script."""
    def __init__(self, name, plugin, nlp, opts):
        self.nlp, self.plugin, self.opts = nlp, plugin, opts
        self.calls = []
        self.script = None
        self._stats = {}

    def __call__(self, **kw):
        kw = {k: np.array(v, dtype=float, copy=True) for k, v in kw.items()}
        i = len(self.calls)
        self.calls.append(kw)
        r = self.script(i, kw) if self.script else {}
        x = np.array(r.get('x', kw['x0']), dtype=float)
        self._stats = dict(return_status=r.get('status', 'Solve_Succeeded'), iter_count=r.get('iter', 7 + i),
                           t_proc_total=r.get('time', 0.5 + i))
        return dict(x=ca.DM(x), f=ca.DM([r.get('f', 1.25 + i)]), g=ca.DM(r.get('g', np.zeros(1))))

    def stats(self):
        return self._stats


def build(case, solver=False):
    """returns (u, opts, model, ocp, problem or solver)"""
    u = build_user(case)
    opts, model, ocp = make_opts(u.case), make_model(u), make_ocp(u)
    if solver:
        real = ca.nlpsol
        ca.nlpsol = FakeNlp
        try:
            s = nosnoc.NosnocSolver(opts, model, ocp)
        finally:
            ca.nlpsol = real
        return u, opts, model, ocp, s
    from nosnoc.solver import NosnocSolverBase
    class B(NosnocSolverBase):
        def __init__(self, *a):
            super().__init__(*a)
    s = B(opts, model, ocp)
    return u, opts, model, ocp, s


# ---------------------------------------------------------------- case lists
def full_opts(rng, over=None, lsq=False):
    ch = lambda E: rng.choice([m.name for m in E])
    o = dict(use_fesd=rng.random() < .8, n_s=rng.choice([1, 2, 2, 3]), irk_scheme=ch(IrkSchemes),
             irk_representation=ch(IrkRepresentation), cross_comp_mode=ch(CrossComplementarityMode),
             mpcc_mode=rng.choice([m.name for m in MpccMode]), pss_mode=ch(PssMode),
             gamma_h=rng.choice([1.0, 0.5, 0.25]), step_equilibration=ch(StepEquilibrationMode),
             equidistant_control_grid=rng.random() < .7, terminal_time=rng.choice([1.0, 2.5, 3]),
             rho_h=rng.choice([1.0, .3]), step_equilibration_sigma=rng.choice([.1, .7]),
             g_path_at_fe=rng.random() < .4, g_path_at_stg=rng.random() < .4,
             objective_scaling_direct=rng.random() < .5, s_elastic_0=rng.choice([1.0, .5]),
             s_elastic_max=rng.choice([1e1, 4.0]), s_elastic_min=rng.choice([0.0, .1]),
             sigma_0=rng.choice([1.0, .6]), fb_ip_aug1_weight=rng.choice([1.0, .4]),
             fb_ip_aug2_weight=rng.choice([.1, .6]),
             speed_of_time_variables=rng.choice(['NONE', 'NONE', 'LOCAL', 'GLOBAL']),
             speed_of_time_min=rng.choice([1.0, .5]), speed_of_time_max=rng.choice([25., 8.]))
    if over:
        o.update(over)
    if o['mpcc_mode'] == 'FISCHER_BURMEISTER_IP_AUG' and o['use_fesd']:
        o['cross_comp_mode'] = 'COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER'
    return o


SYS = [[[1, 'full']], [[2, 'full']], [[2, 'zero']], [[1, 'full'], [1, 'full']], [[1, 'full'], [2, 'zero']],
       [[2, 'full'], [1, 'full']], [[1, 'full'], [2, 'full'], [1, 'full']]]


def random_case(rng, over=None, **force):
    o = full_opts(rng, over)
    ns = rng.choice([1, 1, 2, 3])
    nfe = rng.choice([[rng.choice([1, 2, 3]) for _ in range(ns)], rng.choice([1, 2, 3])])
    kind = rng.choice(['S', 'S', 'S', 'gS', 'incl'])
    kind = force.get('kind', kind)
    if kind == 'gS': o['pss_mode'] = 'STEWART'
    if kind == 'incl': o['pss_mode'] = 'STEP'
    nx = rng.choice([1, 2, 3])
    sysl = rng.choice(SYS)
    if kind == 'incl': nx = max(nx, len(sysl))
    c = dict(DEFAULT, seed=rng.randrange(10 ** 6), n_x=nx, n_u=rng.choice([0, 1, 2]), n_z=rng.choice([0, 0, 1, 2]),
             sys=sysl, kind=kind, n_ptv=rng.choice([0, 1, 2]), n_pg=rng.choice([0, 1, 2]), n_v=rng.choice([0, 1, 2]),
             opts=o, N_stages=ns, Nfe=nfe, ocp=rng.random() < .85, bounds=rng.random() < .8,
             g_path=rng.choice([0, 0, 1, 2]), g_path_bnds=rng.choice(['mixed', 'default']),
             comp=[rng.choice([0, 0, 1]), rng.choice([0, 0, 1]), rng.choice([0, 0, 1])], g_term=rng.choice([0, 0, 1, 2]),
             t_var=rng.random() < .3)
    if c['t_var'] and rng.random() < .6:
        o['time_freezing'] = True
        o['time_freezing_tolerance'] = .02
    c.update(force)
    return c
