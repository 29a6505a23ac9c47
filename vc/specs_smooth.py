"""Contracts of the smoothed initialization (C21): Runge-Kutta steps, smoothed representation, initialization."""
from .ctx import *
from .spec import *
from .libs import FuncSX
from fractions import Fraction
from .specs_pre import fn_is, eq_pieces, FakeI
from . import specs_solver as ss

n_t = var('n_tgrid')
solve.NONNEG |= {'n_tgrid'}


XF = lambda r, i: ite(le(r, ZERO), app('x0', i), app('X', r, i))     # state after r steps


def rk_step(tg, r):
    """one step of the classical fourth-order Runge-Kutta method from state r"""
    v = lambda f: gen('S', n_x, f)
    at = lambda w: (lambda i: app('f', w, i))
    h = tg(r); x = lambda i: XF(r, i)
    k1 = at(v(x))
    k2 = at(v(lambda i: add(x(i), mul(h, num(Fraction(1, 2)), k1(i)))))
    k3 = at(v(lambda i: add(x(i), mul(h, num(Fraction(1, 2)), k2(i)))))
    k4 = at(v(lambda i: add(x(i), mul(h, k3(i)))))
    return lambda i: add(x(i), mul(h, num(Fraction(1, 6)), add(k1(i), mul(num(2), k2(i)), mul(num(2), k3(i)), k4(i))))


def spec_rk4(S, want):
    nm = 'rk4_on_timegrid'
    def setup(I):
        o = Fam()
        def call(I, f, args, kw):
            v = retag('S', asvec(I, args[0]))
            return I.seq('sx', gen('S', n_x, lambda i: app('f', v, i)))
        I.obj_call['O:fun'] = call
        o.x0 = I.seq('np', gen('N', n_x, lambda i: app('x0', i)))
        o.tg = I.seq('np', gen('N', n_t, lambda i: app('tg', i)))
        def inv(I, fn, key, old, n):
            """rows up to k are the Runge-Kutta states, later rows are still zero"""
            if old.op != 'mat' or not equal(vlen(old.args[2]), add(n_t, ONE), I.pcs) or not equal(n, n_t, I.pcs): return None
            def at(k, nxt=False):
                st = rk_step(lambda r: app('tg', r), k)
                row = lambda r: gen('L', n_x, lambda i: ite(le(r, k), XF(r, i), ite(eq(r, add(k, ONE)), st(i), ZERO) if nxt else ZERO))
                return mk('mat', old.args[0], n_x, gen('L', add(n_t, ONE), row))
            return at
        I.invariants = inv
        return o
    def body(I, o): return I.call(I.prog.module('rk_utils').ns['rk4_on_timegrid'], [fun('f'), o.x0, o.tg])
    def post(S, I, o, out):
        pc = tuple(I.pcs)
        O = lambda n, ok, d='': S.oblige(f'{nm}: {n}', ok, d)
        if not O('C21 returns', out[0] == 'return', out): return
        for w, ok, d in I.inv_obls: O(f'C21 loop invariant (rows so far are the Runge-Kutta states of order four) {w}', ok, d)
        v = I.freeze(out[1])
        r, i = fresh('r'), fresh('i')
        ok = v.op == 'vec' and equal(vlen(v), add(n_t, ONE), pc)
        F = FakeI(pc + (le(ZERO, r), le(r, n_t)))
        row = F.elem(v, r) if ok else None
        ok = ok and row.op == 'vec' and equal(vlen(row), n_x, pc)
        pi = pc + (le(ZERO, r), le(r, n_t), le(ZERO, i), lt(i, n_x))
        O('C21 the result lists the initial state and the state after every step', ok and equal(FakeI(pi).elem(row, i), XF(r, i), pi), v)
    verify(S, 'rk_utils.rk4_on_timegrid', setup, body, post)


def smooth_theta(sp):
    h = num(Fraction(1, 2))
    f = lambda s, i, j: add(h, mul(h, app('S', s, i, j), app('tanh', div(app('e_c', s, j), sp))))
    ab = lambda x: ite(le(ZERO, x), x, neg(x))
    return [lambda s, i: mul(power2(sub(n_c(s), summ(n_c(s), lambda j: ab(app('S', s, i, j))))), prod(n_c(s), lambda j: f(s, i, j))),
            lambda s, i: prod(n_c(s), lambda j: ite(eq(app('S', s, i, j), ZERO), ONE, f(s, i, j)))]


def power2(e): return app('pow', num(2), e)


def spec_smooth(S, want):
    """add_smooth_step_representation: theta = products of smoothed Heaviside functions, f = sum F theta"""
    nm = 'add_smooth_step_representation'
    def setup(I):
        o = Fam()
        I.loopvar_syms = True
        L = lambda n, f: I.seq('list', gen('L', n, f))
        M = lambda tag, nr, nc, f: mk('mat', tag, nc, gen('L', nr, lambda i: gen('L', nc, lambda j: f(i, j))))
        at = dict(dims=mk_dims(I), x=I.seq('sx', S_('sym_x', n_x)), p=I.seq('sx', S_('sym_p', add(n_pt, n_pg))),
                  F=L(n_sys, lambda s: M('S', n_x, n_f(s), lambda i, j: app('F', s, i, j))), c=L(n_sys, lambda s: S_('e_c', n_c(s), s)),
                  S=L(n_sys, lambda s: M('N', n_f(s), n_c(s), lambda i, j: app('S', s, i, j))))
        o.g = I.decide(var('given_g', 'B'))
        at['g_Stewart'] = L(n_sys, lambda s: S_('e_g', n_f(s), s)) if o.g else None
        o.model = I.new(InstC(I.prog.module('model').ns['NosnocModel'], at))
        o.sp = var('smoothing', 'R')
        return o
    def body(I, o): return I.call(I.getattr(o.model, 'add_smooth_step_representation'), [], dict(smoothing_parameter=o.sp))
    def post(S, I, o, out):
        at = I.cell(o.model).at; pc = tuple(I.pcs)
        O = lambda n, ok, d='': S.oblige(f'{nm}: {n}', ok, d)
        if out[0] != 'return':
            return O('C21 only discriminant models and nonpositive smoothing parameters are refused', prove(disj(TRUE if o.g else FALSE, le(o.sp, ZERO)), pc), (out, pc))
        O('C21 discriminant models and nonpositive smoothing parameters are refused', not o.g and prove(lt(ZERO, o.sp), pc), pc)
        if o.g: return
        th, g = smooth_theta(o.sp), lambda s, i: neg(summ(n_c(s), lambda j: mul(app('S', s, i, j), app('e_c', s, j))))
        ex = lambda s, i: app('exp', neg(div(g(s, i), o.sp)))
        smin = lambda s: div(summ(n_f(s), lambda i: mul(g(s, i), ex(s, i))), summ(n_f(s), lambda i: ex(s, i)))
        fam = lambda f: cat('S', n_sys, lambda s: gen('S', n_f(s), lambda i: f(s, i)))
        X, P = S_('sym_x', n_x), S_('sym_p', add(n_pt, n_pg))
        fn = lambda what, a, ins, *outs: O(f'C21 {what}', any(fn_is(I, at.get(a), ins, q, pc) for q in outs), (at.get(a) and at[a].outs, outs))
        fn('weights: products of the smoothed Heaviside functions of the switching functions', 'theta_smooth_fun', [X, P], *[fam(t) for t in th])
        fn('right-hand side: sum over the subsystems of the weighted region vector fields', 'f_x_smooth_fun', [X],
           *[gen('S', n_x, lambda r: summ(n_sys, lambda s: summ(n_f(s), lambda i: mul(app('F', s, r, i), t(s, i))))) for t in th])
        fn('multipliers of the simplex constraints: minus the smoothed minimum of the discriminants', 'mu_smooth_fun', [X, P], gen('S', n_sys, lambda s: neg(smin(s))))
        fn('discriminants above their smoothed minimum', 'lambda_smooth_fun', [X, P], fam(lambda s, i: sub(g(s, i), smin(s))))
        t, n = app('tanh', app('e_c', fresh('s'), fresh('j'))), fresh('n', 'R')
        f = lambda S_: add(num(Fraction(1, 2)), mul(num(Fraction(1, 2)), S_, t))
        tb = (le(num(-1), t), le(t, ONE))
        O('C21 lemma: the factors are nonnegative', prove(conj(le(ZERO, f(num(-1))), le(ZERO, f(ONE))), tb), f(ONE))
        O('C21 lemma: one more switching function keeps the sum of the weights over all sign patterns (and the sum over no switching function is one)',
          prove(eq(add(mul(n, f(num(-1))), mul(n, f(ONE))), n), ()), n)
        S.assumptions.append('values of tanh lie between -1 and 1')
    verify(S, 'model.NosnocModel.add_smooth_step_representation', setup, body, post)


RK = EnumM('InitializationStrategy', 'RK4_SMOOTHENED')
XC = lambda i: gen('S', n_x, lambda q: app('xc', i, q))           # state at the start of element i
X0S = gen('S', n_x, lambda q: app('x0', q))


def c_rk4(I, f, x0, t_grid):
    """contract of rk4_on_timegrid (spec_rk4): the initial state, then the state after every step"""
    if not (isinstance(f, T) and f.op == 'app' and f.args[1] == 'O:fun'): raise Unsupported('right-hand side of the integrator')
    v, tg = retag('S', asvec(I, x0)), retag('L', asvec(I, t_grid)); n = vlen(tg)
    return I.seq('list', gen('L', add(n, ONE), lambda r: gen('L', vlen(v), lambda q: rk4_state(f, v, tg, r, q))))


def rk4_state(f, v, tg, r, q):
    return ite(le(r, ZERO), open_(v.args[1], q), app('rk4', f, v, tg, r, q))


def spec_initrk4(S, want):
    nm = 'initialize (RK4_SMOOTHENED)'
    iS = const(EnumM('PssMode', 'STEWART'))
    def setup(I):
        p_ = add(n_pt, n_pg)
        I.assume(eq(ss.STRAT, const(RK)))
        o = ss.mk_solver(I)
        integ = I.decide(var('integral', 'B'))
        n_it = add(n_s, ONE) if integ else n_s
        o.c = (lambda j: app('c_irk', add(j, ONE))) if integ else (lambda j: app('c_irk', j))     # time of stage j
        I.assume(eq(app('c_irk', sub(n_it, ONE)), ONE))
        o.pv0 = retag('S', open_(o.pv.args[1], ZERO))
        rep = 'INTEGRAL' if integ else 'DIFFERENTIAL_LIFT_X'
        I.cell(o.opts).at.update(irk_time_points=I.seq('np', gen('N', n_it, lambda j: app('c_irk', j))), irk_representation=const(EnumM('IrkRepresentation', rep)), pss_mode=iS)
        I.cell(o.model).at.update({k: fun(k) for k in ('f_x_smooth_fun', 'theta_smooth_fun', 'mu_smooth_fun', 'lambda_smooth_fun', 'lambda00_fun')})
        L = lambda t: I.seq('list', t)
        st3 = lambda g, m: L(ss.N_(N_stages, lambda k: ss.N_(Nfe(k), lambda i: ss.N_(n_s, lambda j: ss.N_(n_sys, lambda s: ss.N_(m(s), lambda q: ss.IX(g, k, i, j, s, q)))))))
        I.cell(o.prob).at.update(ind_x=L(ss.N_(N_stages, lambda k: ss.N_(Nfe(k), lambda i: ss.N_(n_s, lambda j: ss.N_(n_x, lambda q: ss.IX('x', k, i, j, q)))))),
                                 ind_theta=st3('theta', n_f), ind_lam=st3('lam', n_f), ind_mu=st3('mu', lambda s: ONE), ind_h=L(ss.N_(var('n_h'), lambda i: ss.IX('h', i))))
        for r in (o.opts, o.model, o.prob): o.before[r.a] = dict(I.cell(r).at)
        def call(I, f, args, kw):
            nme = f.args[0]; vs = [retag('S', asvec(I, a)) for a in args]
            dims = dict(f_x_smooth_fun=[n_x], theta_smooth_fun=[n_x, p_], mu_smooth_fun=[n_x, p_], lambda_smooth_fun=[n_x, p_], lambda00_fun=[n_x, None, p_])[nme]
            if kw or len(vs) != len(dims) or any(d is not None and not equal(vlen(v), d, I.pcs) for v, d in zip(vs, dims)): raise PyRaise('RuntimeError', nme)
            if nme == 'f_x_smooth_fun': return I.seq('sx', S_(nme, n_x, *vs))
            if nme == 'mu_smooth_fun': return I.seq('sx', S_(nme, n_sys, *vs))
            return I.seq('sx', cat('S', n_sys, lambda s: gen('S', n_f(s), lambda q: app(nme, *vs, s, q))))
        I.obj_call['O:fun'] = call
        tg0 = div(var('opt_terminal_time', 'R'), mul(N_stages, Nfe(ZERO)))
        o.tg = gen('L', n_s, lambda j: mul(tg0, ite(le(j, ZERO), o.c(ZERO), sub(o.c(j), o.c(sub(j, ONE))))))
        o.xr = lambda i, r: gen('S', n_x, lambda q: rk4_state(fun('f_x_smooth_fun'), XC(i), o.tg, r, q))
        def inv(I, fn, key, old, n):
            """the current state is the initial state, then the last Runge-Kutta state of the element before"""
            if old.op != 'vec' or not eq_vec(retag('S', old), X0S, I.pcs) or not equal(n, Nfe(ZERO), I.pcs): return None
            cur = lambda k, q: ite(le(k, ZERO), app('x0', q), app('xc', k, q))
            def at(k, nxt=False):
                if not nxt: return mk('vec', old.args[0], gen('L', n_x, lambda q: cur(k, q)).args[1])
                v = gen('S', n_x, lambda q: cur(k, q))
                return mk('vec', old.args[0], gen('L', n_x, lambda q: rk4_state(fun('f_x_smooth_fun'), v, o.tg, n_s, q)).args[1])
            return at
        I.invariants = inv
        return o
    def body(I, o): return ss.call_m(I, o, 'initialize')
    def post(S, I, o, out):
        pc = tuple(I.pcs)
        O = lambda n, ok, d='': S.oblige(f'{nm}: {n}', ok, d)
        if not O('C21 returns', out[0] == 'return', out): return
        for w, ok, d in I.inv_obls: O(f'C21 loop invariant (state carried from element to element) {w}', ok, d)
        i, k, s, q = (fresh('q') for _ in range(4))
        f = fun('f_x_smooth_fun')
        xs = gen('S', n_x, lambda q: ite(le(i, ZERO), app('x0', q), app('xc', i, q)))
        X = lambda r: gen('S', n_x, lambda q: rk4_state(f, xs, o.tg, r, q))
        xk = X(add(k, ONE))
        B, Bs = [(i, Nfe(ZERO)), (k, n_s)], [(i, Nfe(ZERO)), (k, n_s), (s, n_sys), (q, n_f(s))]
        iq = fresh('q'); Z = vec('S', [])
        exp = [Row(B + [(iq, n_x)], TRUE, dict(idx=ss.IX('x', ZERO, i, k, iq), val=open_(xk.args[1], iq)), 'C21 every stage state: the Runge-Kutta state at the time of the stage'),
               Row([(i, Nfe(ZERO)), (iq, n_x)], TRUE, dict(idx=ss.IX('x', ZERO, i, sub(n_s, ONE), iq), val=open_(X(n_s).args[1], iq)), 'C21 the state at the end of the element: the last Runge-Kutta state'),
               Row(Bs, TRUE, dict(idx=ss.IX('theta', ZERO, i, k, s, q), val=app('theta_smooth_fun', xk, o.pv0, s, q)), 'C21 weights: smoothed weights at the stage state, each subsystem its own'),
               Row(Bs, TRUE, dict(idx=ss.IX('lam', ZERO, i, k, s, q), val=app('lambda00_fun', xk, Z, o.pv0, s, q)), 'C21 multipliers at the stage state, each subsystem its own'),
               Row(B + [(s, n_sys)], TRUE, dict(idx=ss.IX('mu', ZERO, i, k, s, ZERO), val=app('mu_smooth_fun', xk, o.pv0, s)), 'C21 simplex multipliers at the stage state, each subsystem its own')]
        match(S, nm, ss.write_rows(I), exp, pc, ss.cmp_write)
        ss.frame(S, I, o, nm, 'C21', {'solver.lambda00', 'write w0'})
    verify(S, ss.SB + 'initialize', setup, body, post, contracts={'model.NosnocModel.compute_lambda00': ss.c_lam00, 'rk_utils.rk4_on_timegrid': c_rk4})
