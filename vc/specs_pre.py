"""Contracts of the preprocessing of the model and of the optimal control problem."""
import os, itertools
from .ctx import *
from .spec import *
from .libs import FuncSX

n_gc, w_gc = var('n_gc'), var('w_gc')
n_w_ = var('n_w_all')
solve.NONNEG |= {'n_gc', 'w_gc', 'n_gpath'}


def sym(nm, n): return S_('sym_' + nm, n)


def opt_np(I, nm, kind='np'):
    """an optional array argument: left out, or of any length"""
    n = var('len_' + nm); solve.NONNEG.add('len_' + nm)
    I.opt_join = True
    return ite(var('given_' + nm, 'B'), retag(TAG[kind], gen('L', n, lambda i: app('user_' + nm, i))), const(None))


def depends(I, expr, vs):
    """casadi.which_depends(expr, vars): per component, whether it depends on any of the variables (uninterpreted)"""
    w = retag('S', asvec(I, vs))
    def d(e): return disj(*[app('dep', e, vec('S', [s]), sort='B') for s in w.args[1:]])
    return I.seq('list', I.map_vec(retag('L', row_of(I, expr)), d))


def row_of(I, expr):
    if is_mat_(I, expr):
        c = I.cell(expr)
        return vcat('L', *[I.elem(c.rows, num(i)) for i in range(int(numval(vlen(c.rows))))])
    return asvec(I, expr)


def is_mat_(I, v): return libs.is_mat(I, v)


OCP_BOX = [('lbx', n_x, 'lo'), ('ubx', n_x, 'hi'), ('lbu', n_u, 'lo'), ('ubu', n_u, 'hi'), ('u_guess', n_u, 'zero'),
           ('lbv_global', n_v, 'lo'), ('ubv_global', n_v, 'hi'), ('v_global_guess', n_v, 'zero'), ('lbg', var('n_gpath'), 'zero'), ('ubg', var('n_gpath'), 'zero')]


def const_vec(kind, n):
    x = {'lo': neg(libs.INF), 'hi': libs.INF, 'zero': ZERO}[kind]
    return gen('L', n, lambda i: x)


def fn_is(I, f, ins, out, pc):
    """the attribute is the function that maps these inputs to this output"""
    if not isinstance(f, FuncSX) or len(f.ins) != len(ins) or len(f.outs) != 1: return False
    return all(eq_vec(retag('L', a), retag('L', b), pc) for a, b in zip(f.ins, ins)) and same_out(f.outs[0], out, pc)


def same_out(a, b, pc):
    if a.op == 'mat' and b.op == 'mat':
        return eq_vec(a.args[2], b.args[2], pc) and (equal(a.args[1], b.args[1], pc))
    if a.op == 'mat' and b.op == 'vec': return equal(a.args[1], ONE, pc) and eq_vec(a.args[2], gen_rows(b), pc)
    return a.op == 'vec' and b.op == 'vec' and eq_vec(retag('L', a), retag('L', b), pc)


def gen_rows(b): raise Unsupported('column as matrix')


def spec_ocppre(S, want):
    fields = {}
    def setup(I):
        o = Fam()
        V = lambda nm, n: I.seq('sx', sym(nm, n))
        o.V = V
        o.stewart = False
        np_ = add(n_pt, n_pg)
        o.syms = dict(x=sym('x', n_x), z=sym('z', n_z), u=sym('u', n_u), p_time_var=sym('pt', n_pt), p_global=sym('pg', n_pg), v_global=sym('v', n_v),
                      p=vcat('S', sym('pt', n_pt), sym('pg', n_pg)), z_all=sym('zall', var('n_zall')))
        solve.NONNEG.add('n_zall')
        o.model = I.new(InstC('NosnocModel', dict(dims=mk_dims(I), **{k: I.seq('sx', v) for k, v in o.syms.items()})))
        o.given = {}
        args = {}
        for nm, n, d in OCP_BOX:
            v = opt_np(I, nm); o.given[nm] = v
            args[nm] = v
        for nm, n in (('f_q', ONE), ('g_path', var('n_gpath')), ('f_terminal', ONE), ('g_terminal', var('n_gT'))):
            args[nm] = I.seq('sx', S_('e_' + nm, n))
        w_gc = num(2) if I.decide(eq(var('w_gc'), num(2))) else var('w_gc')
        args['g_path_comp'] = I.new(MatC('sx', w_gc, gen('L', n_gc, lambda i: gen('L', w_gc, lambda j: app('e_gpc', i, j)))))
        I.args_ = args
        o.args = args
        return o
    def body(I, o):
        cls = I.prog.module('ocp').ns['NosnocOcp']
        o.ocp = I.call(cls, [], dict(o.args))
        return I.call(I.getattr(o.ocp, 'preprocess_ocp'), [o.model])
    def post(S, I, o, out):
        pc = tuple(I.pcs)
        O = lambda n, ok, d='': S.oblige(f'ocp.preprocess: {n}', ok, d)
        L = lambda nm: var('len_' + nm); G_ = lambda nm: var('given_' + nm, 'B')
        wrong = disj(neg_c(eq(w_gc, num(2))), *[conj(G_(nm), neg_c(eq(L(nm), n))) for nm, n, d in OCP_BOX])
        if out[0] != 'return':
            O('C18 only inconsistent fields are refused', I.proves(wrong), (out, pc)); return
        O('C18 inconsistent fields are refused', I.proves(neg_c(wrong)), pc)
        at = I.cell(o.ocp).at
        for nm, n, d in OCP_BOX:
            v = at[nm]
            v = I.cell(v).v if isinstance(v, Ref) else v
            yes, no = (simp(v, pc + (c,)) for c in (G_(nm), neg_c(G_(nm))))
            never = lambda c: prove(FALSE, pc + (c,))
            O(f'C18 {nm} left out: {d} default of the right length', never(neg_c(G_(nm))) or no.op == 'vec' and eq_vec(retag('L', no), const_vec(d, n), pc + (neg_c(G_(nm)),)), v)
            O(f'C02/C18 {nm} is used unchanged', never(G_(nm)) or yes.op == 'vec' and eq_vec(retag('L', yes), gen('L', n, lambda i: app('user_' + nm, i)), pc + (G_(nm),)), v)
        s = o.syms
        X, U, P, G, Z = s['x'], s['u'], s['p'], s['v_global'], s['z_all']
        for nm, ins, e, n in (('g_terminal_fun', [X, P, G], 'g_terminal', var('n_gT')), ('f_q_T_fun', [X, P, G], 'f_terminal', ONE), ('f_q_fun', [X, U, P, G], 'f_q', ONE),
                              ('g_path_fun', [X, U, P, G], 'g_path', var('n_gpath'))):
            O(f'C15/C18 {nm} evaluates the user expression', fn_is(I, at.get(nm), ins, S_('e_' + e, n), pc), at.get(nm))
        row = lambda i: vec('L', [one(app('e_gpc', i, ZERO)), one(app('e_gpc', i, ONE))])
        dep = lambda i, *vs: disj(*[app('dep', app('e_gpc', i, num(j)), vec('S', [q]), sort='B') for j in (0, 1) for v in vs for q in v.args[1:]])
        st = lambda i: dep(i, s['x'], s['z'])
        ct = lambda i: conj(neg_c(st(i)), dep(i, s['u'], s['p_time_var']))
        gl = lambda i: conj(neg_c(st(i)), neg_c(dep(i, s['u'], s['p_time_var'])))
        for nm, cl, ins, w in (('g_rk_comp_fun', st, [X, U, Z, P, G], 'once per integrator stage'), ('g_ctrl_comp_fun', ct, [U, P, G], 'once per control stage'),
                               ('g_global_comp_fun', gl, [s['p_global'], G], 'once')):
            exp = cat('L', n_gc, lambda i: vec('L', [mk('opt', cl(i), vec('L', [one(row(i))]))]))
            f = at.get(nm)
            ok = isinstance(f, FuncSX) and len(f.ins) == len(ins) and all(eq_vec(retag('L', a), retag('L', b), pc) for a, b in zip(f.ins, ins)) and f.outs[0].op == 'mat' and equal(f.outs[0].args[1], num(2), pc) \
                and eq_vec(f.outs[0].args[2], exp, pc)
            O(f'C15 the complementarities imposed {w} are exactly those of their class, in order', ok, (f and f.outs, exp, pc))
    verify(S, 'ocp.NosnocOcp.preprocess_ocp', setup, body, post, libo={'casadi.which_depends': depends}, max_paths=6000)


# ------------------------------------------------------------------ the model
n_fx = lambda s: app('n_fx', s, sort='I')
rF = lambda s: app('rF', s, sort='I')
rS = lambda s: app('rS', s, sort='I')
cS = lambda s: app('cS', s, sort='I')
n_al = lambda s: app('n_al', s, sort='I')
n_gs = lambda s: app('n_gs', s, sort='I')
solve.NONNEG |= {'n_fx', 'rF', 'rS', 'cS', 'n_al', 'n_gs', 'len_c', 'len_S', 'len_alpha', 'len_gst', 'n_gzu', 'len_pgv', 'r_pt', 'c_pt'}


def model_args(I, o, desc):
    L = lambda n, f: I.seq('list', gen('L', n, f))
    M = lambda tag, nr, nc, f: mk('mat', tag, nc, gen('L', nr, lambda i: gen('L', nc, lambda j: f(i, j))))
    col = lambda nm, n: I.seq('sx', sym(nm, n))
    a = dict(x=col('x', n_x), x0=I.seq('np', gen('L', n_x, lambda i: app('x0', i))), u=col('u', n_u), z=col('z', n_z), p_time_var=col('pt', n_pt), p_global=col('pg', n_pg),
             v_global=col('v', n_v), g_z=I.seq('sx', S_('e_gz', var('n_gzu'))), p_global_val=I.seq('np', gen('L', var('len_pgv'), lambda i: app('pgv', i))))
    for nm in ('z0', 'lbz', 'ubz'): a[nm] = opt_np(I, nm)
    a['p_time_var_val'] = ite(var('given_ptv', 'B'), mk('mat', 'N', var('c_pt'), gen('L', var('r_pt'), lambda i: gen('L', var('c_pt'), lambda j: app('ptv', i, j)))), const(None))
    o.tvar = I.decide(var('given_tvar', 'B'))
    if o.tvar: a['t_var'] = I.seq('sx', vec('S', [one(app('e_tvar', ZERO))]))
    if desc != 'gen': a['F'] = L(n_sys, lambda s: M('S', rF(s), n_f(s), lambda i, j: app('F', s, i, j)))
    if desc == 'cS':
        a['c'] = L(var('len_c'), lambda s: S_('e_c', n_c(s), s))
        a['S'] = L(var('len_S'), lambda s: M('N', rS(s), cS(s), lambda i, j: app('S', s, i, j)))
    if desc == 'g': a['g_Stewart'] = L(var('len_gst'), lambda s: S_('e_g', n_gs(s), s))
    if desc == 'gen':
        a['f_x'] = L(n_sys, lambda s: S_('e_fx', n_fx(s), s))
        a['c'] = L(var('len_c'), lambda s: S_('e_c', n_c(s), s))
        a['alpha'] = L(var('len_alpha'), lambda s: S_('sym_alpha', n_al(s), s))
    return a


def syms_of(v):
    """the blocks of a vector of symbols, as functions"""
    return list(v.args[1:])


def spec_modelpre(S, want):
    for stewart in (True, False):
        for desc in ('cS', 'g', 'gen'): _modelpre(S, stewart, desc)
    for desc, fields in (('cS', ('F', 'c', 'S')), ('g', ('F', 'g_Stewart')), ('gen', ('c',))):
        for f in fields: _modelbad(S, desc, f)


def _modelbad(S, desc, field):
    """a field that is a tuple where a list is documented: refused on every path"""
    nm = f'model.preprocess ({field} a tuple, {desc})'
    def setup(I):
        o = Fam()
        I.loopvar_syms = True
        o.opts = mk_opts(I, dict(pss_mode=const(EnumM('PssMode', 'STEP' if desc == 'gen' else 'STEWART')).args[0]))
        o.args = model_args(I, o, desc)
        o.args[field] = I.new(Seq('tuple', I.cell(o.args[field]).v))
        return o
    def body(I, o):
        cls = I.prog.module('model').ns['NosnocModel']
        return I.call(I.getattr(I.call(cls, [], dict(o.args)), 'preprocess_model'), [o.opts])
    def post(S, I, o, out): S.oblige(f'{nm}: C18 a region description that is not a list is refused', out[0] != 'return', (out, I.pcs))
    verify(S, 'model.NosnocModel.preprocess_model', setup, body, post, libo={'casadi.rootfinder': lambda I, nm, alg, f, *a: RootF(f)}, max_paths=3000)


def spec_modelnew(S, want):
    """NosnocModel.__init__: every combination of given and missing region descriptions"""
    names = ('F', 'f_x', 'alpha', 'c', 'S', 'g_Stewart')
    others = ('x', 'x0', 'u', 'z', 'z0', 'lbz', 'ubz', 'g_z', 'p_time_var', 'p_global', 'p_time_var_val', 'p_global_val', 'v_global', 't_var', 'name', 'theta')
    def setup(I):
        o = Fam()
        o.given = {n: I.decide(var('given_' + n, 'B')) for n in names}
        o.args = {n: I.seq('list', gen('L', var('len_' + n), lambda i, n=n: app('e_' + n, i))) if o.given[n] else None for n in names}
        for n in others: o.args[n] = app('arg_' + n, sort='O:any')
        return o
    def body(I, o):
        o.model = I.new(InstC(I.prog.module('model').ns['NosnocModel'], {}))
        return I.call(I.cell(o.model).cls.lookup('__init__'), [o.model], dict(o.args))
    def post(S, I, o, out):
        O = lambda n, ok, d='': S.oblige(f'NosnocModel: {n}', ok, d)
        g = o.given
        incl = g['f_x'] and g['alpha']
        regions = g['c'] and g['S']
        bad = g['F'] == incl or g['F'] and regions == g['g_Stewart']
        plain = {n for n in names if g[n]} in ({'F', 'c', 'S'}, {'F', 'g_Stewart'}, {'f_x', 'alpha', 'c'})
        if bad: O('C18 both or neither region descriptions are refused', out[0] != 'return', (g, out))
        elif plain: O('C18 a model with one complete description is accepted', out[0] == 'return', (g, out))
        if out[0] == 'return':
            at = I.cell(o.model).at
            same = lambda a, b: a is b or isinstance(a, Ref) and isinstance(b, Ref) and a.a == b.a
            wrong = [n for n in o.args if n != 'theta' and not same(at.get(n), o.args[n])]
            O('C02/C09/C10/C18 the model keeps what it is given, under its own name', not wrong, wrong)
    verify(S, 'model.NosnocModel.__init__', setup, body, post)


def _modelpre(S, stewart, desc):
    nm = f'model.preprocess ({"Stewart" if stewart else "Step"}, {dict(cS="c and S", g="discriminants", gen="general inclusion")[desc]})'
    def setup(I):
        o = Fam(); o.stewart = stewart
        I.loopvar_syms = True
        o.opts = mk_opts(I, dict(pss_mode=const(EnumM('PssMode', 'STEWART' if stewart else 'STEP')).args[0]))
        o.args = model_args(I, o, desc)
        return o
    def body(I, o):
        cls = I.prog.module('model').ns['NosnocModel']
        o.model = I.call(cls, [], dict(o.args))
        return I.call(I.getattr(o.model, 'preprocess_model'), [o.opts])
    def legal(pts):
        """consistency of the fields; quantified parts at the given points"""
        G = lambda q, c: disj(neg_c(var('given_' + q, 'B')), c)
        f = [G('z0', eq(var('len_z0'), n_z)), G('lbz', eq(var('len_lbz'), n_z)), G('ubz', eq(var('len_ubz'), n_z)), eq(var('len_pgv'), n_pg),
             G('ptv', eq(var('r_pt'), N_stages)), G('ptv', eq(var('c_pt'), n_pt)), disj(neg_c(var('opt_time_freezing', 'B')), var('given_tvar', 'B'))]
        q = lambda s, n, c: disj(lt(s, ZERO), le(n, s), c)
        if desc == 'cS':
            f += [eq(var('len_c'), n_sys), eq(var('len_S'), n_sys)]
            for s in pts: f += [q(s, n_sys, c) for c in (neg_c(eq(n_f(s), ONE)), eq(rF(s), n_x), eq(rS(s), n_f(s)), eq(cS(s), n_c(s)))]
        if desc == 'g':
            f += [TRUE if stewart else FALSE, eq(var('len_gst'), n_sys)]
            for s in pts: f += [q(s, n_sys, c) for c in (neg_c(eq(n_f(s), ONE)), eq(rF(s), n_x), eq(n_gs(s), n_f(s)))]
        if desc == 'gen':
            f += [FALSE if stewart else TRUE, eq(var('len_c'), n_sys), eq(var('len_alpha'), n_sys), eq(summ(n_sys, n_fx), n_x)]
            for s in pts: f += [q(s, n_sys, eq(n_al(s), n_c(s)))]
        return [c for c in f if c is not TRUE]
    def post(S, I, o, out):
        pc = tuple(I.pcs)
        O = lambda n, ok, d='': S.oblige(f'{nm}: {n}', ok, d)
        if out[0] != 'return':
            pc = tuple(skolem(c) for c in pc)
            pts = {v for c in pc for v in c.fv if v.args[1] == 'I' and '!' in v.args[0]}
            pts |= {sub(v, ONE) for v in pts}
            O('C18 only inconsistent fields are refused', prove(FALSE, pc + tuple(legal(pts))), (out, pc)); return
        s = fresh('s')
        ends = {sub(c.args[0], ONE) for c in pc if c.op == 'all'}
        hs = pc + (le(ZERO, s), lt(s, n_sys)) + inst(pc, s) + tuple(x for e in ends for x in inst(pc, e))
        if os.environ.get('VC_SHOW'):
            for k, v in I.cell(o.model).at.items(): print('  ', k, v if not isinstance(v, Ref) or isinstance(I.cell(v), InstC) else I.freeze(v), getattr(v, 'ins', ''), getattr(v, 'outs', ''))
        for c in legal([s]): O('C18 inconsistent fields are refused', prove(c, hs), (c, pc))
        hp = pc + tuple(x for e in ends for x in inst(pc, e))
        _modelpost(S, I, o, O, hp, stewart, desc)
    verify(S, 'model.NosnocModel.preprocess_model', setup, body, post, libo={'casadi.rootfinder': lambda I, nm, alg, f, *a: RootF(f)}, max_paths=3000)


class RootF:
    """casadi.rootfinder of a function"""
    def __init__(self, f): self.f = f


def spec_lam00(S, want):
    """compute_lambda00: the multipliers of the initial state and of the parameters of the first stage, all in force at the call"""
    from .specs_solver import mk_solver, X0, frame
    nm = 'compute_lambda00'
    def setup(I):
        o = mk_solver(I)
        I.cell(o.model).at.update(z0_rootfinder=fun('model.z0_rootfinder'), lambda00_fun=fun('model.lambda00_fun'))
        tab = {'model.z0_rootfinder': ('z0_root', (n_z, add(n_x, n_pt, n_pg)), n_z), 'model.lambda00_fun': ('lam00_of', (n_x, n_z, add(n_pt, n_pg)), var('n_lam00'))}
        def call(I, f, args, kw):
            r, dims, n = tab[f.args[0]]
            if kw or len(args) != len(dims): raise PyRaise('TypeError', 'number of arguments')
            av = [retag('L', asvec(I, x)) for x in args]
            if not all(equal(vlen(v), d, I.pcs) for v, d in zip(av, dims)): raise PyRaise('RuntimeError', 'argument dimension')
            return I.seq('sx', gen('S', n, lambda i: app(r, *av, i)))
        I.obj_call['O:fun'] = call
        o.before[o.model.a] = dict(I.cell(o.model).at)
        return o
    def body(I, o): return I.call(I.getattr(o.model, 'compute_lambda00'), [o.opts])
    def post(S, I, o, out):
        pc = tuple(I.pcs)
        O = lambda n, ok, d='': S.oblige(f'{nm}: {n}', ok, d)
        if not O('C09/C10/C13 returns', out[0] == 'return', out): return
        I.decide(var('opt_rootfinder_for_initial_z', 'B')); pc = tuple(I.pcs)
        p = open_(o.pv.args[1], ZERO)
        root = gen('L', n_z, lambda i: app('z0_root', gen('L', n_z, lambda i: app('z0', i)), vcat('L', X0, p), i))
        z = root if I.proves(var('opt_rootfinder_for_initial_z', 'B')) else gen('L', n_z, lambda i: app('z0', i))
        O('C09/C10/C13 evaluated at the initial state, the initial algebraic variables and the parameters of the first stage in force', eq_vec(retag('L', asvec(I, out[1])), gen('L', var('n_lam00'), lambda i: app('lam00_of', X0, z, p, i)), pc), out)
        frame(S, I, o, nm, 'C10/C13')
    verify(S, 'model.NosnocModel.compute_lambda00', setup, body, post)


def spec_construct(S, want):
    """construct_problem: options, then the model, are preprocessed before the problem is built from exactly these"""
    nm = 'construct_problem'
    def setup(I):
        o = Fam()
        o.opts = mk_opts(I)
        o.model = I.new(InstC(I.prog.module('model').ns['NosnocModel'], {})); o.ocp = I.new(InstC(I.prog.module('ocp').ns['NosnocOcp'], {}))
        def ev(k): return lambda I, *a, **kw: I.emit(k, args=const((tuple(const(x.a) if isinstance(x, Ref) else lift(x) for x in a), tuple((q, lift(x)) for q, x in sorted(kw.items())))))
        def new(I, *a, **kw):
            ev('problem')(I, *a, **kw); o.res = I.new(InstC('NosnocProblem', {})); return o.res
        I.contracts.update({'nosnoc_opts.NosnocOpts.preprocess': ev('opts'), 'model.NosnocModel.preprocess_model': ev('model'),
                            'model.NosnocModel.add_smooth_step_representation': ev('smooth'), 'problem.NosnocProblem': new})
        o.none = var('no_ocp', 'B')
        o.args = [o.opts, o.model, None if I.decide(o.none) else o.ocp]
        o.rk = I.decide(eq(var('opt_initialization_strategy', 'E:InitializationStrategy'), const(EnumM('InitializationStrategy', 'RK4_SMOOTHENED'))))
        return o
    def body(I, o): return I.call(I.prog.module('solver').ns['construct_problem'], o.args)
    def post(S, I, o, out):
        O = lambda n, ok, d='': S.oblige(f'{nm}: {n}', ok, d)
        if not O('C18 returns', out[0] == 'return', out): return
        ev = [(e.kind, e.d['args'].args[0][0], dict(e.d['args'].args[0][1])) for e in I.events if e.kind in ('opts', 'model', 'smooth', 'problem')]
        rk = o.rk
        A, M = const(o.opts.a), const(o.model.a)
        kinds = [e[0] for e in ev]
        O('C17/C18 the options are preprocessed before the model, the model before the problem', kinds == ['opts', 'model'] + ['smooth'] * rk + ['problem'] and ev[0][1] == (A,) and ev[1][1] == (M, A), ev)
        c = const(None) if o.args[2] is None else const(o.ocp.a)
        O('C02/C09/C18 the problem is built from the given options, model and optimal control problem', isinstance(out[1], Ref) and out[1].a == getattr(getattr(o, 'res', None), 'a', -1) and ev[-1][0] == 'problem' and ev[-1][1] == (A, M, c) and not ev[-1][2], ev)
        if rk:
            e = [e for e in ev if e[0] == 'smooth']; sp = var('opt_smoothing_parameter', 'R')
            O('C21 the smoothed model uses the smoothing parameter', len(e) == 1 and (e[0][1] == (M, sp) or e[0][1] == (M,) and e[0][2] == dict(smoothing_parameter=sp)), e)
    verify(S, 'solver.construct_problem', setup, body, post)


def spec_ctor(S, want):
    """NosnocSolver.__init__: exactly the constructed problem goes to the NLP solver, with the options as preprocessed"""
    nm = 'NosnocSolver'
    def setup(I):
        o = Fam()
        d0, d1 = app('dict_before', sort='O:dict'), app('dict_after', sort='O:dict')
        o.d1 = d1
        o.opts = mk_opts(I, dict(opts_casadi_nlp=d0))
        o.model = I.new(InstC(I.prog.module('model').ns['NosnocModel'], dict(name=app('model_name', sort='O:name'))))
        o.prob = I.new(InstC(I.prog.module('problem').ns['NosnocProblem'], dict(cost=app('prob_cost'), w=S_('w', n_w_), g=S_('g', var('n_g_all')), p=S_('p_all', var('n_p_all')))))
        o.cons = []
        def cp(I, opts, model, ocp=None):
            I.emit('construct', args=const((opts.a, model.a, None if ocp is None else ocp.a)))
            I.cell(opts).at['opts_casadi_nlp'] = d1
            return o.prob
        I.contracts['solver.construct_problem'] = cp
        o.ocp = None if I.decide(var('no_ocp', 'B')) else I.new(InstC(I.prog.module('ocp').ns['NosnocOcp'], {}))
        return o
    def nlpsol(I, name, plugin, nlp, opts=None):
        d = I.cell(nlp).d
        I.emit('nlpsol', name=name, plugin=lift(plugin), keys=const(tuple(sorted(d))), f=d.get('f'), x=d.get('x'), g=d.get('g'), p=d.get('p'), opts=opts)
        return app('nlp', sort='O:nlp')
    def body(I, o):
        cls = I.prog.module('solver').ns['NosnocSolver']
        o.ref = I.new(InstC(cls, {}))
        return I.call(cls.lookup('__init__'), [o.ref, o.opts, o.model] + ([] if o.ocp is None else [o.ocp]))
    def post(S, I, o, out):
        O = lambda n, ok, d='': S.oblige(f'{nm}: {n}', ok, d)
        if not O('C18 returns', out[0] == 'return', out): return
        at = I.cell(o.ref).at
        c = [e.d['args'].args[0] for e in I.events if e.kind == 'construct']
        O('C02/C18 one problem, built from the given options, model and optimal control problem', c == [(o.opts.a, o.model.a, None if o.ocp is None else o.ocp.a)], c)
        is_ = lambda a, r: a is r if r is None else isinstance(a, Ref) and a.a == r.a
        O('C10/C11/C12 the solver keeps the given objects', all(is_(at.get(k), r) for k, r in (('opts', o.opts), ('model', o.model), ('ocp', o.ocp), ('problem', o.prob))), at)
        e = [e for e in I.events if e.kind == 'nlpsol']; pa = I.cell(o.prob).at
        if not O('C11 one NLP solver', len(e) == 1 and not e[0].binders and at.get('solver') is app('nlp', sort='O:nlp'), (e, at.get('solver'))): return
        d = e[0].d
        O('C02/C19 objective, variables, constraints and parameters of the problem are those of the NLP', d['keys'].args[0] == ('f', 'g', 'p', 'x') and d['f'] is pa['cost'] and all(d[k] is pa[a] for k, a in (('x', 'w'), ('g', 'g'), ('p', 'p'))), d)
        O('C17 the preprocessed NLP solver options reach the NLP solver', d['opts'] is o.d1 and I.cell(o.opts).at['opts_casadi_nlp'] is o.d1, d)
        O('C02/C11 IPOPT solves the NLP', d['plugin'] is const('ipopt'), d)
    verify(S, 'solver.NosnocSolver.__init__', setup, body, post, libo={'casadi.nlpsol': nlpsol})


def block(v, n_of):
    """a block of stage variables of z: (subsystem, component) -> symbol"""
    if v.op == 'cat':
        def acc(s, i):
            b = open_(v, s)
            if len(b.args) != 2: raise Unsupported('stage variables')
            return b.args[1].args[0] if b.args[1].op == 'one' else open_(b.args[1], i)
        return acc
    if v.op == 'gen': return lambda s, i: open_(v, s)
    raise Unsupported('stage variables')


def _modelpost(S, I, o, O, pc, stewart, desc):
    I.decide(var('given_ptv', 'B')); I.decide(var('opt_rootfinder_for_initial_z', 'B')); pc = tuple(pc) + tuple(c for c in I.pcs if c not in pc)
    at = I.cell(o.model).at
    T_ = lambda v: I.freeze(v) if isinstance(v, Ref) else lift(v)
    same = lambda nm, a: O(f'C18 {nm} is used unchanged', at.get(nm) is a[nm] or eq_vec(retag('L', T_(at.get(nm))), retag('L', T_(a[nm])), pc), at.get(nm))
    a = o.args
    for nm in ('x', 'x0', 'u', 'z', 'p_time_var', 'p_global', 'v_global', 'g_z', 'p_global_val'): same(nm, a)
    never = lambda c: prove(FALSE, pc + (c,))
    for nm, d in (('z0', 'zero'), ('lbz', 'lo'), ('ubz', 'hi')):
        v, g = T_(at[nm]), var('given_' + nm, 'B')
        yes, no = (simp(v, pc + (c,)) for c in (g, neg_c(g)))
        O(f'C18 {nm} left out: {d} default of the right length', never(neg_c(g)) or no.op == 'vec' and eq_vec(retag('L', no), const_vec(d, n_z), pc + (neg_c(g),)), v)
        O(f'C02/C18 {nm} is used unchanged', never(g) or yes.op == 'vec' and eq_vec(retag('L', yes), gen('L', n_z, lambda i: app('user_' + nm, i)), pc + (g,)), v)
    # dimensions
    dm = I.cell(at['dims']).at
    for nm, n in (('n_x', n_x), ('n_u', n_u), ('n_z', n_z), ('n_sys', n_sys), ('n_p_time_var', n_pt), ('n_p_glob', n_pg)):
        O(f'C18 detected dimension {nm}', equal(lift(dm[nm]), n, pc), dm[nm])
    if desc != 'gen': O('C18 detected dimension n_f_sys', eq_vec(retag('L', T_(dm['n_f_sys'])), gen('L', n_sys, n_f), pc), T_(dm['n_f_sys']))
    if desc != 'g': O('C18 detected dimension n_c_sys', eq_vec(retag('L', T_(dm['n_c_sys'])), gen('L', n_sys, n_c), pc), T_(dm['n_c_sys']))
    # parameters
    P = vcat('S', sym('pt', n_pt), sym('pg', n_pg))
    np_ = add(n_pt, n_pg)
    O('C09/C10 parameters: time-varying, then global', eq_vec(T_(at['p']), P, pc), at['p'])
    g = var('given_ptv', 'B')
    G = lambda *c: prove(conj(*c), pc)
    ptv = (lambda k, i: app('ptv', k, i)) if G(g) else (lambda k, i: ZERO) if G(neg_c(g)) else (lambda k, i: ite(g, app('ptv', k, i), ZERO))
    pv = T_(at['p_val_ctrl_stages'])
    want = gen('L', N_stages, lambda k: vcat('L', gen('L', n_pt, lambda i: ptv(k, i)), gen('L', n_pg, lambda i: app('pgv', i))))
    k = fresh('k'); pk = pc + (le(ZERO, k), lt(k, N_stages))
    F = FakeI(pk)
    ok = pv.op == 'mat' and equal(vlen(pv.args[2]), N_stages, pc) and equal(pv.args[1], np_, pc)
    O('C10/C18 parameter values: every stage has its own time-varying values (zero when left out), then the global values', ok and eq_pieces(F.elem(pv.args[2], k), open_(want.args[1], k), pk), pv)
    given = simp(T_(at['p_time_var_val']), pc)
    if G(g): O('C18 the given time-varying values are kept', given.op == 'mat' and eq_vec(given.args[2], gen('L', N_stages, lambda k: gen('L', n_pt, lambda i: app('ptv', k, i))), pc), given)
    pcs_ = T_(at['p_ctrl_stages'])
    ok = pcs_.op == 'vec' and equal(vlen(pcs_), N_stages, pc)
    row = F.elem(pcs_, k) if ok else None
    i, s = fresh('i'), fresh('s')
    uid = None
    if ok and row.op == 'vec' and len(row.args) == 2 and row.args[1].op == 'gen':
        t = open_(row.args[1], i); uid = fresh_sym(t, [k, i])
    O('C10 every stage has its own parameter symbols', ok and uid is not None and equal(vlen(row), np_, pk), pcs_)
    # stage variables
    za = T_(at['z_all'])
    dims = [n_f, n_f, lambda s: ONE] if stewart else [n_c, n_c, n_c]
    zn = list(za.args[1:])
    if len(zn) < 3: raise Unsupported('stage variables')
    th, la, mu = (block(zn[q], dims[q]) for q in range(3))
    if desc == 'gen': th = lambda s, i: app('sym_alpha', s, i)
    fam_ = lambda f, n: cat('S', n_sys, lambda s: gen('S', n(s), lambda i: f(s, i)))
    ZA = vcat('S', *[fam_(f, n) for f, n in zip((th, la, mu), dims)], sym('z', n_z))
    O('C09 stage variables: multipliers and weights per subsystem, then the user algebraic variables, in the order the elements use', eq_vec(za, ZA, pc), (za, ZA))
    ids = [fresh_sym(f(s, i), [s, i] if n(s) is not ONE else [s]) for f, n in zip((th, la, mu), dims)] + [uid]
    O('C09 the stage variables are different symbols', None not in ids and len(set(ids)) == 4, ids)
    X, U, Z, V = sym('x', n_x), sym('u', n_u), sym('z', n_z), sym('v', n_v)
    E_ = lambda s, i: app('e_c', s, i)
    gS = (lambda s, i: app('e_g', s, i)) if desc == 'g' else (lambda s, i: neg(summ(n_c(s), lambda j: mul(app('S', s, i, j), E_(s, j)))))
    if stewart:
        fx = gen('S', n_x, lambda r: summ(n_sys, lambda s: summ(n_f(s), lambda i: mul(app('F', s, r, i), th(s, i)))))
        sw = fam_(lambda s, i: add(gS(s, i), neg(la(s, i)), mu(s, i)), n_f)
        cv = gen('S', n_sys, lambda s: sub(summ(n_f(s), lambda i: th(s, i)), ONE))
        low = lambda s: app('minof', gen('S', n_f(s), lambda i: gS(s, i)))
        l0 = fam_(lambda s, i: sub(gS(s, i), low(s)), n_f)
    else:
        if desc == 'cS':
            pr = lambda s, i: prod(n_c(s), lambda j: ite(eq(app('S', s, i, j), ZERO), ONE, add(mul(num(Fraction(1, 2)), sub(ONE, app('S', s, i, j))), mul(app('S', s, i, j), th(s, j)))))
            fx = gen('S', n_x, lambda r: summ(n_sys, lambda s: summ(n_f(s), lambda i: mul(app('F', s, r, i), pr(s, i)))))
        else: fx = cat('S', n_sys, lambda s: S_('e_fx', n_fx(s), s))
        sw = fam_(lambda s, i: add(E_(s, i), neg(mu(s, i)), la(s, i)), n_c)
        cv = vec('S', [])
        l0 = vcat('S', fam_(lambda s, i: ite(lt(E_(s, i), ZERO), neg(E_(s, i)), ZERO), n_c), fam_(lambda s, i: ite(lt(ZERO, E_(s, i)), E_(s, i), ZERO), n_c))
    fn = lambda what, nm, ins, out: O(f'C09 {what}', fn_is(I, at.get(nm), ins, out, pc), (at.get(nm) and (at[nm].ins, at[nm].outs), out, pc))
    fn('right-hand side: sum over subsystems of the region fields weighted by the convex multipliers or region indicators', 'f_x_fun', [X, ZA, U, P, V], fx)
    fn('switching equations', 'g_z_switching_fun', [X, ZA, U, P], sw)
    parts = itertools.permutations((sw, cv, S_('e_gz', var('n_gzu'))))
    O('C09 algebraic equations: switching, convexity and user equations, each once', any(fn_is(I, at.get('g_z_all_fun'), [X, ZA, U, P], vcat('S', *q), pc) for q in parts), (at.get('g_z_all_fun') and at['g_z_all_fun'].outs, sw, cv, pc))
    fn('initial multipliers solve the switching equations with minimal support, in the order the problem consumes them', 'lambda00_fun', [X, Z, P], l0)
    if stewart:
        fn('initial simplex duals', 'mu00_stewart_fun', [X, Z, P], gen('S', n_sys, low))
        fn('discriminants', 'g_Stewart_fun', [X, Z, P], fam_(gS, n_f))
        std = summ(n_sys, lambda s: absval(summ(n_f(s), lambda i: mul(la(s, i), th(s, i)))))
    else: std = summ(n_sys, lambda s: summ(n_c(s), lambda i: add(mul(la(s, i), th(s, i)), mul(mu(s, i), sub(ONE, th(s, i))))))
    fn('complementarity residual of a stage', 'std_compl_res_fun', [ZA, P], vec('S', [one(std)]))
    rt = var('opt_rootfinder_for_initial_z', 'B')
    if G(rt): O('C09/C13 the initial algebraic variables solve the user equations at the initial state and parameters', isinstance(at.get('z0_rootfinder'), RootF) and fn_is(I, at['z0_rootfinder'].f, [Z, vcat('S', X, P)], S_('e_gz', var('n_gzu')), pc), at.get('z0_rootfinder'))
    if o.tvar: O('C07/C18 the clock function reads the given time variable', fn_is(I, at.get('t_fun'), [X], vec('S', [one(app('e_tvar', ZERO))]), pc), at.get('t_fun'))
    # the initial multipliers really solve the equations
    if not stewart:
        c = app('e_c', fresh('s'), fresh('i'))
        n_, p_ = ite(lt(c, ZERO), neg(c), ZERO), ite(lt(ZERO, c), c, ZERO)
        O('C09 lemma: negative and positive part are nonnegative, complementary and solve the switching equation', prove(conj(le(ZERO, n_), le(ZERO, p_)), pc) and prove(eq(add(c, neg(p_), n_), ZERO), pc) and prove(disj(eq(n_, ZERO), eq(p_, ZERO)), pc), c)


def absval(x): return ite(le(ZERO, x), x, neg(x))


def eq_pieces(a, b, pc):
    """two vectors of the same length are equal at every position"""
    if eq_vec(a, b, pc): return True
    if not equal(vlen(a), vlen(b), pc): return False
    F = FakeI(pc); off = ZERO
    for q in b.args[1:]:
        n = seg_len(q); i = fresh('i'); h = pc + (le(ZERO, i), lt(i, n))
        if not equal(FakeI(h).elem(a, add(off, i)), open_(q, i) if q.op == 'gen' else q.args[0], h): return False
        off = add(off, n)
    return True


def fresh_sym(t, ix):
    """which symbol family t belongs to, when distinct positions are distinct symbols"""
    if t.op != 'app' or t.args[0] not in ('sym', 'sym_alpha') or any(x not in t.args[2:] for x in ix): return None
    return t.args[2] if t.args[0] == 'sym' else 'alpha'


def skolem(c):
    """a fact that some position violates a condition names that position"""
    if c.op in ('and', 'or'): return (conj if c.op == 'and' else disj)(*[skolem(x) for x in c.args])
    if c.op == 'not' and c.args[0].op == 'all':
        a = c.args[0]; m = fresh('m')
        return conj(le(ZERO, m), lt(m, a.args[0]), neg_c(open_(a, m)))
    return c


def inst(pc, k):
    from .specs_solver import inst as f
    return f(pc, k)
