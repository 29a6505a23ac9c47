"""Symbolic inputs: options, dimensions, model, control problem, finite elements."""
import ast
from .terms import *
from . import terms as tm, solve
from .interp import *
from . import libs
from .libs import asvec, num_of

solve.POS |= {'n_s', 'N_stages', 'n_sys', 'Nfe', 'n_f', 'n_prev', 'n_prevx', 'n_x', 'n_xfe'}
solve.NONNEG |= {'n_u', 'n_z', 'n_c', 'n_p_time_var', 'n_p_glob', 'n_v_global', 'n_lift', 'n_gpath', 'n_rkc', 'n_ctc', 'n_glc', 'n_gT', 'n_vfe', 'n_zswitch'}
solve.POS |= {'gamma'} if False else set()

n_s, N_stages, n_sys = var('n_s'), var('N_stages'), var('n_sys')
n_x, n_u, n_z, n_v = var('n_x'), var('n_u'), var('n_z'), var('n_v_global')
n_pt, n_pg = var('n_p_time_var'), var('n_p_glob')


def Nfe(k): return app('Nfe', k, sort='I')
def n_f(s): return app('n_f', s, sort='I')
def n_c(s): return app('n_c', s, sort='I')


def E(I, cls, name): return const(EnumM(cls, name))


def opt_value(I, prog, name):
    """symbolic value of an option field, from its annotation in the source"""
    cls = prog.module('nosnoc_opts').ns['NosnocOpts']
    for s in cls.node.body:
        if isinstance(s, ast.AnnAssign) and s.target.id == name:
            an = ast.unparse(s.annotation)
            if an == 'bool': return var('opt_' + name, 'B')
            if an == 'int': return var('opt_' + name, 'I')
            if an in ('float', 'Union[float, int]'): return var('opt_' + name, 'R')
            if an in prog.module('nosnoc_opts').ns: return var('opt_' + name, 'E:' + an)
    return NotImplemented


def mk_opts(I, over=None):
    prog = I.prog
    cls = prog.module('nosnoc_opts').ns['NosnocOpts']
    at = {}
    for s in cls.node.body:
        if isinstance(s, ast.AnnAssign):
            v = opt_value(I, prog, s.target.id)
            if v is not NotImplemented: at[s.target.id] = v
    at['n_s'] = n_s; at['N_stages'] = N_stages
    at['Nfe_list'] = I.seq('list', gen('L', N_stages, Nfe))
    at['right_boundary_point_explicit'] = var('opt_rbp', 'B')
    M = lambda f, n, m: I.new(MatC('np', m, gen('L', n, lambda i: gen('L', m, lambda j: app(f, i, j)))))
    V = lambda f, n: I.seq('np', gen('L', n, lambda i: app(f, i)))
    ns1 = add(n_s, ONE)
    at['A_irk'] = M('A', n_s, n_s); at['b_irk'] = V('b', n_s)
    at['B_irk'] = V('B', ns1); at['C_irk'] = M('C', ns1, ns1); at['D_irk'] = V('D', ns1)
    at['irk_time_points'] = V('tau', n_s)
    at.update(over or {})
    return I.new(InstC(cls, at))


def mk_dims(I, over=None):
    at = dict(n_x=n_x, n_u=n_u, n_z=n_z, n_sys=n_sys, n_p_time_var=n_pt, n_p_glob=n_pg, n_v_global=n_v,
              n_f_sys=I.seq('list', gen('L', n_sys, n_f)), n_c_sys=I.seq('list', gen('L', n_sys, n_c)))
    at.update(over or {})
    return I.new(InstC('NosnocDims', at))


def S_(f, n, *a): return gen('S', n, lambda i: app(f, *a, i))


class Fam(object): pass


def n_zall(I, stewart):
    """length of the algebraic variables of one stage"""
    if stewart: return add(summ(n_sys, lambda s: add(scale(2, n_f(s)), ONE)), n_z)
    return add(summ(n_sys, lambda s: scale(3, n_c(s))), n_z)


# callable CasADi functions: name -> (argument dimensions, result builders)
def fun_table(stewart):
    nz = n_zall(None, stewart)
    np_ = add(n_pt, n_pg)
    vecr = lambda nm, n: (lambda a: S_(nm, n, *a))
    nrow = {}
    t = {
        'model.f_x_fun': ([n_x, nz, n_u, np_, n_v], ('v', n_x)),
        'ocp.f_q_fun': ([n_x, n_u, np_, n_v], ('v', ONE)),
        'model.g_z_all_fun': ([n_x, nz, n_u, np_], ('v', add(n_zswitch(stewart), var('n_convex'), var('n_gz')))),
        'model.g_z_switching_fun': ([n_x, nz, n_u, np_], ('v', n_zswitch(stewart))),
        'ocp.g_path_fun': ([n_x, n_u, np_, n_v], ('v', var('n_gpath'))),
        'ocp.g_rk_comp_fun': ([n_x, n_u, nz, np_, n_v], ('m2', var('n_rkc'))),
        'ocp.g_ctrl_comp_fun': ([n_u, np_, n_v], ('m2', var('n_ctc'))),
        'ocp.g_global_comp_fun': ([n_pg, n_v], ('m2', var('n_glc'))),
        'ocp.g_terminal_fun': ([n_x, np_, n_v], ('v', var('n_gT'))),
        'ocp.f_q_T_fun': ([n_x, np_, n_v], ('v', ONE)),
        'model.t_fun': ([n_x], ('v', ONE)),
    }
    return t


solve.NONNEG |= {'n_convex', 'n_gz'}


def n_zswitch(stewart):
    return summ(n_sys, n_f) if stewart else summ(n_sys, n_c)


def install_funs(I, stewart):
    tab = fun_table(stewart)
    def call(I, f, args, kw):
        name = f.args[0]
        dims, res = tab[name]
        if kw or len(args) != len(dims): raise PyRaise('TypeError', f'{name}: number of arguments')
        av = []
        for x, n in zip(args, dims):
            v = retag('S', asvec(I, x))
            if not equal(vlen(v), n, I.pcs):
                if I.proves(neg_c(eq(vlen(v), n))) or not I.decide(eq(vlen(v), n)): raise PyRaise('RuntimeError', f'{name}: argument dimension')
            av.append(v)
        if res[0] == 'v': return I.seq('sx', S_(name, res[1], *av))
        return I.new(MatC('sx', num(2), gen('L', res[1], lambda i: vec('L', [one(app(name, *av, i, ZERO)), one(app(name, *av, i, ONE))]))))
    I.obj_call['O:fun'] = call


def fun(name): return app(name, sort='O:fun')


def app_fun(name, args, n): return S_(name, n, *[retag('S', a) for a in args])


def mk_model(I, stewart, over=None):
    np_ = add(n_pt, n_pg)
    at = dict(dims=mk_dims(I), x0=I.seq('np', gen('L', n_x, lambda i: app('x0', i))),
              v_global=I.seq('sx', S_('v_global', n_v)),
              p_ctrl_stages=I.seq('list', gen('L', N_stages, lambda k: S_('p_ctrl', np_, k))),
              lbz=I.seq('np', gen('L', n_z, lambda i: app('lbz', i))), ubz=I.seq('np', gen('L', n_z, lambda i: app('ubz', i))),
              z0=I.seq('np', gen('L', n_z, lambda i: app('z0', i))),
              f_x_fun=fun('model.f_x_fun'), g_z_all_fun=fun('model.g_z_all_fun'), g_z_switching_fun=fun('model.g_z_switching_fun'),
              t_fun=fun('model.t_fun'))
    at.update(over or {})
    return I.new(InstC('NosnocModel', at))


def mk_ocp(I, over=None):
    at = {k: fun('ocp.' + k) for k in ('f_q_fun', 'g_path_fun', 'g_rk_comp_fun', 'g_ctrl_comp_fun', 'g_global_comp_fun', 'g_terminal_fun', 'f_q_T_fun')}
    V = lambda f, n: I.seq('np', gen('L', n, lambda i: app(f, i)))
    at.update(lbg=V('lbg_path', var('n_gpath')), ubg=V('ubg_path', var('n_gpath')), lbx=V('lbx', n_x), ubx=V('ubx', n_x),
              lbu=V('lbu', n_u), ubu=V('ubu', n_u), u_guess=V('u_guess', n_u), lbv_global=V('lbv', n_v), ubv_global=V('ubv', n_v),
              v_global_guess=V('v_guess', n_v))
    at.update(over or {})
    return I.new(InstC('NosnocOcp', at))


class W:
    """the decision vector of an element: read by position"""
    kind = 'sx'
    def __init__(self, tag): self.tag = tag
    def getitem(self, I, o, i):
        i = libs.un(I, i) if not isinstance(i, (slice, tuple)) else i
        if libs.isscalar(I, i): return app('w', const(self.tag), num_of(I, i))
        if isinstance(i, slice): raise Unsupported('slice of the decision vector')
        v = asvec(I, i)
        return I.seq('sx', I.map_vec(retag('S', v), lambda t: app('w', const(self.tag), t)))
    def getattr(self, I, o, a):
        if a == 'shape': return (app('len_w', const(self.tag), sort='I'), 1)
        raise Unsupported('w.' + a)


def idx(group, fe, *ix): return app('IDX_' + group, const(fe), *ix, sort='I')


def lists(I, fe, nst, stewart, ea, theta_n, xn, rep_v):
    """index lists of a finite element with nst integrator stages and ea boundary points"""
    L = lambda v: I.seq('list', v)
    st3 = lambda g, n, m: L(gen('L', n, lambda a: gen('L', n_sys, lambda s: gen('L', m(s), lambda i: idx(g, fe, a, s, i)))))
    none = lambda s: ZERO
    ne = add(nst, num(ea)) if isinstance(ea, int) else add(nst, ea)
    d = dict(
        ind_theta=st3('theta', nst, n_f if stewart else none), ind_lam=st3('lam', ne, n_f if stewart else none),
        ind_mu=st3('mu', ne, (lambda s: ONE) if stewart else none),
        ind_alpha=st3('alpha', nst, none if stewart else n_c), ind_lambda_n=st3('lambda_n', ne, none if stewart else n_c),
        ind_lambda_p=st3('lambda_p', ne, none if stewart else n_c),
        ind_z=L(gen('L', nst, lambda a: gen('L', n_z, lambda i: idx('z', fe, a, i)))),
        ind_x=L(gen('L', xn, lambda a: gen('L', n_x, lambda i: idx('x', fe, a, i)))),
        ind_v=L(gen('L', nst, lambda a: gen('L', n_x if rep_v else ZERO, lambda i: idx('v', fe, a, i)))))
    return d


def mk_prev(I, stewart, fe='prev'):
    """the preceding element or the initial element: at least one stored state and one multiplier stage"""
    cls = I.prog.module('problem').ns['FiniteElementBase']
    npv, npx = var('n_' + fe), var('n_' + fe + 'x')
    d = lists(I, fe, npv, stewart, 0, None, npx, True)
    at = {k: d[k] for k in ('ind_x', 'ind_lam', 'ind_lambda_n', 'ind_lambda_p')}
    at['w'] = I.new(OpaqueC(W(fe), None))
    return I.new(InstC(cls, at))


def wv(fe, group, n, *ix):
    """spec: vector of variables of one slot"""
    return gen('S', n, lambda i: app('w', const(fe), idx(group, fe, *ix, i)))


class FE:
    """symbolic finite element; attributes used by the specifications"""
    def __init__(self, I, fe='self', rep=None, prev=None, decide_all=True, opts=None, model=None, ocp=None, modes=None, full=None, **over):
        self.I = I; prog = I.prog
        self.tag = fe
        m = dict(modes or {})
        B = lambda name: var(name, 'B')
        if 'stewart' not in m: m['stewart'] = I.decide(eq(var('opt_pss_mode', 'E:PssMode'), const(EnumM('PssMode', 'STEWART'))))
        if 'rep' not in m:
            r = var('opt_irk_representation', 'E:IrkRepresentation')
            m['rep'] = next(x for x in ('INTEGRAL', 'DIFFERENTIAL', 'DIFFERENTIAL_LIFT_X') if x == 'DIFFERENTIAL_LIFT_X' or I.decide(eq(r, const(EnumM('IrkRepresentation', x)))))
        if 'fesd' not in m: m['fesd'] = I.decide(B('opt_use_fesd'))
        if 'rbp' not in m: m['rbp'] = I.decide(B('opt_rbp'))
        self.c, self.e = var('c'), var('e')
        I.assume(le(ZERO, self.c)); I.assume(lt(self.c, N_stages)); I.assume(le(ZERO, self.e)); I.assume(lt(self.e, Nfe(self.c)))
        if 'last' not in m: m['last'] = I.decide(eq(self.e, sub(Nfe(self.c), ONE)))
        self.m = m
        self.stewart = m['stewart']
        ea = 1 if (m['fesd'] and not m['rbp'] and not m['last']) else 0
        self.ea = ea
        self.nl = add(n_s, num(ea))
        if m['rep'] is None: xn = var('n_xfe')
        elif m['rep'] == 'DIFFERENTIAL': xn = ONE
        elif m['rbp']: xn = n_s
        else: xn = add(n_s, ONE)
        self.xn = xn
        at = lists(I, fe, n_s, self.stewart, ea, None, xn, m['rep'] != 'INTEGRAL')
        if m['rep'] is None: at['ind_v'] = I.seq('list', gen('L', n_s, lambda a: gen('L', var('n_vfe'), lambda i: idx('v', fe, a, i))))
        self.opts = opts or mk_opts(I); self.model = model or mk_model(I, self.stewart); self.ocp = ocp or mk_ocp(I)
        install_funs(I, self.stewart)
        self.prev = prev if prev is not None else mk_prev(I, self.stewart)
        self.T = var('opt_terminal_time', 'R')
        hn = div(self.T, mul(N_stages, Nfe(self.c)))
        self.hn = hn
        self.h = app('h', const(fe)) if m['fesd'] else hn
        at.update(opts=self.opts, model=self.model, ocp=self.ocp, prev_fe=self.prev, ctrl_idx=self.c, fe_idx=self.e, n_rkstages=n_s,
                  w=I.new(OpaqueC(W(fe), None)), ind_comp=I.pylist([]), ind_bool=I.pylist([]), ind_h=I.pylist([]),
                  h=I.seq('sx', vec('S', [one(self.h)])) if m['fesd'] else I.seq('np', vec('N', [one(self.h)])),
                  p=I.seq('sx', S_('p_ctrl', add(n_pt, n_pg), self.c)), cost=I.seq('sx', vec('S', [one(app('cost0', const(fe)))])))
        at.update(over)
        self.ref = I.new(InstC(prog.module('problem').ns['FiniteElement'], at))
        self.p = S_('p_ctrl', add(n_pt, n_pg), self.c)
        self.v = S_('v_global', n_v)

    # ---- specification vocabulary
    def call(self, name, *args):
        f = self.I.prog.module('problem').ns['FiniteElement'].lookup(name)
        return self.I.call(f, [self.ref] + list(args))

    def cost(self): return num_of(self.I, self.I.getattr(self.ref, 'cost'))

    def x_prev(self):
        return wv('prev', 'x', n_x, sub(var('n_prevx'), ONE))

    def vs(self, r): return wv(self.tag, 'v', n_x, r)

    def X(self, j):
        """state at integrator stage j"""
        if self.m['rep'] == 'DIFFERENTIAL':
            xp = self.x_prev()
            return gen('S', n_x, lambda i: add(el(xp, i), summ(n_s, lambda r: mul(self.h, app('A', j, r), el(self.vs(r), i)))))
        return wv(self.tag, 'x', n_x, j)

    def X_end(self): return wv(self.tag, 'x', n_x, sub(self.xn, ONE))

    def Z(self, j):
        if self.stewart:
            c = lambda g, m: cat('S', n_sys, lambda s: wv(self.tag, g, m(s), j, s))
            return vcat('S', c('theta', n_f), c('lam', n_f), cat('S', n_sys, lambda s: wv(self.tag, 'mu', ONE, j, s)), wv(self.tag, 'z', n_z, j))
        c = lambda g: cat('S', n_sys, lambda s: wv(self.tag, g, n_c(s), j, s))
        return vcat('S', c('alpha'), c('lambda_n'), c('lambda_p'), wv(self.tag, 'z', n_z, j))

    def Lam(self, j, fe=None):
        t = fe or self.tag
        if self.stewart: return cat('S', n_sys, lambda s: wv(t, 'lam', n_f(s), j, s))
        return vcat('S', cat('S', n_sys, lambda s: wv(t, 'lambda_n', n_c(s), j, s)), cat('S', n_sys, lambda s: wv(t, 'lambda_p', n_c(s), j, s)))

    def LamPrev(self): return self.Lam(sub(var('n_prev'), ONE), 'prev')

    def Th(self, j, fe=None):
        t = fe or self.tag
        if self.stewart: return cat('S', n_sys, lambda s: wv(t, 'theta', n_f(s), j, s))
        return vcat('S', cat('S', n_sys, lambda s: wv(t, 'alpha', n_c(s), j, s)),
                    cat('S', n_sys, lambda s: gen('S', n_c(s), lambda i: sub(ONE, el(wv(t, 'alpha', n_c(s), j, s), i)))))


def el(v, i):
    """element of a single-family vector"""
    s = v.args[1:]
    if len(s) == 1 and s[0].op == 'gen': return open_(s[0], i)
    if len(s) == 1 and s[0].op == 'one': return s[0].args[0]
    raise Unsupported('el')


def c_add_constraint(I, s, sym, lb=None, ub=None, index=None):
    v = asvec(I, sym)
    if I.proves(le(vlen(v), ZERO)): return None
    z = lambda b: gen('L', vlen(v), lambda k: ZERO) if b is None else asvec(I, b)
    lb, ub = z(lb), z(ub)
    for b in (lb, ub):
        if not equal(vlen(b), vlen(v), I.pcs) and not I.decide(eq(vlen(b), vlen(v))): raise PyRaise('Exception', 'inconsistent dimension')
    I.emit('con', sym=retag('L', v), lb=retag('L', lb), ub=retag('L', ub), index=const(None) if index is None else group_of(I, s, index))


def group_of(I, s, index):
    """name of the index group an argument denotes"""
    c = I.cell(s)
    for a, v in c.at.items():
        if isinstance(v, Ref) and isinstance(index, Ref) and v.a == index.a: return const(a)
    return const('?')


def c_create_comp(I, s, x, y, sigma, tau, s_elastic):
    y = asvec(I, y); xs = I.vecof(x)
    f = lambda v: const(None) if v is None else num_of(I, v)
    I.emit('comp', x=retag('L', xs), y=retag('L', y), sigma=f(sigma), tau=f(tau), se=f(s_elastic))


FO = 'problem.NosnocFormulationObject.'
C_CON = {FO + 'add_constraint': c_add_constraint}
C_COMP = {FO + 'create_complementarity': c_create_comp}


def con_rows(I, tag=None):
    out = []
    for e in I.events:
        if e.kind != 'con': continue
        out += split_rows(e, I.pcs)
    return out


def split_rows(e, pcs):
    from .spec import split
    return split([e.d['sym'], e.d['lb'], e.d['ub']], e.binders, e.guard, ['e', 'lb', 'ub'], None, pcs)


def exp_rows(v, lb=None, ub=None, binders=(), guard=TRUE, tag=None, pcs=()):
    from .spec import split
    z = gen('L', vlen(v), lambda k: ZERO)
    return split([v, z if lb is None else lb, z if ub is None else ub], binders, guard, ['e', 'lb', 'ub'], tag, pcs)
