"""Contracts of the simulation loop."""
from .ctx import *
from .spec import *
from .specs_solver import mk_solver, call_m

NS = var('Nsim')
solve.NONNEG |= {'Nsim', 'n_sw', 'n_rows_p', 'n_cols_p', 'n_cpu'}
solve.POS |= {'n_fe_all'}
NF = var('n_fe_all')
RES = dict(theta_list='theta_sim', lambda_list='lambda_sim', alpha_list='alpha_sim', z_list='z_sim', sot='sot', w_sol='w_sim', w_all='w_all', cost_val='cost_vals', status='status')
INF = const(EnumM('Status', 'INFEASIBLE'))


def N_(n, f): return gen('L', n, f)


def res_val(f, t):
    if f == 'status': return app('res_status', t, sort='E:Status')
    if f == 'cost_val': return app('res_cost', t)
    return app('res_' + f, t, sort='O:any')


def spec_issim(S, want):
    def setup(I):
        o = mk_solver(I)
        c = I.cell(o.prob); I.setcell(o.prob, InstC(c.cls, dict(c.at, ocp_trivial=var('ocp_trivial', 'B'))))
        return o
    def body(I, o): return I.call(I.getattr(o.prob, 'is_sim_problem'), [])
    def post(S, I, o, out):
        nu = n_u
        good = conj(eq(nu, ZERO), eq(N_stages, ONE), var('ocp_trivial', 'B'))
        r = lift(I.truth(out[1])) if out[0] == 'return' else None
        S.oblige('is_sim_problem: C14 exactly: no controls, one stage, no optimal control problem', r is not None and prove(conj(disj(neg_c(r), good), disj(neg_c(good), r)), I.pcs), (out, I.pcs))
    verify(S, 'problem.NosnocProblem.is_sim_problem', setup, body, post)


def spec_looper(S, want):
    for pv in (False, True):
        for wi in (False, True): _looper(S, pv, wi)


def _looper(S, pv, wi):
    nm = 'simulation loop'
    def setup(I):
        o = mk_solver(I)
        o.ghost = I.new(InstC('Ghost', {'cnt': ZERO}))
        o.x0 = I.seq('np', gen('N', n_x, lambda q: app('x_init', q)))
        o.p = I.new(MatC('np', var('n_cols_p'), N_(var('n_rows_p'), lambda t: N_(var('n_cols_p'), lambda q: app('p_step', t, q))))) if pv else None
        o.w = I.seq('list', N_(NS, lambda t: gen('N', var('n_w'), lambda q: app('w_init', t, q)))) if wi else None
        o.stop = var('stop_on_failure', 'B')
        return o
    def c_set(I, s, field, value):
        I.emit('set', solver=const(s.a), field=const(field), val=retag('L', asvec(I, value)))
    def mk_solve(o):
        def c_solve(I, s):
            t = lift(I.getattr(o.ghost, 'cnt'))
            I.emit('solve', solver=const(s.a), at=t)
            I.setattr(o.ghost, 'cnt', add(t, ONE))
            d = {f: res_val(f, t) for f in RES}
            d['x_list'] = I.seq('list', N_(NF, lambda i: gen('N', n_x, lambda q: app('res_x', t, i, q))))
            d['switch_times'] = I.seq('np', gen('N', app('n_sw', t, sort='I'), lambda i: app('res_sw', t, i)))
            d['time_steps'] = I.seq('np', gen('N', app('n_ts', t, sort='I'), lambda i: app('res_h', t, i)))
            m = add(var('opt_max_iter_homotopy', 'I'), ONE if I.decide(var('opt_do_polishing_step', 'B')) else ZERO)
            d['cpu_time_nlp'] = I.seq('list', gen('L', m, lambda i: app('res_cpu', t, i)))
            return I.new(DictC(d))
        return c_solve
    solve.NONNEG.add('n_ts')
    def body(I, o):
        I.contracts['solver.NosnocSolver.solve'] = mk_solve(o)
        cls = I.prog.module('helpers').ns['NosnocSimLooper']
        L = I.call(cls, [o.ref, o.x0, NS], dict(p_values=o.p, w_init=o.w))
        I.call(I.getattr(L, 'run'), [], dict(stop_on_failure=o.stop))
        return I.call(I.getattr(L, 'get_results'), [])
    def post(S, I, o, out):
        pc = tuple(I.pcs)
        O = lambda n, ok, d='': S.oblige(f'{nm}: {n}', ok, d)
        sim = var('is_sim', 'B')
        shape = conj(eq(var('n_rows_p'), NS), eq(var('n_cols_p'), n_pg)) if pv else TRUE
        legal = conj(sim, shape)
        if out[0] != 'return':
            O('C14 only problems that are no simulations, and wrong shapes, are refused', I.proves(neg_c(legal)), (out, pc))
            O('C14 nothing is solved when refused', not I.events, I.events); return
        O('C14 other problems and wrong shapes are refused', I.proves(legal), pc)
        sv = [e for e in I.events if e.kind == 'solve']; st = [e for e in I.events if e.kind == 'set']
        if any(len(e.binders) > 1 for e in I.events): raise Unsupported('shape of the sequence of steps')
        K = lift(I.cell(o.ghost).at['cnt'])
        # ---- per step: the settings, in order, then one solve
        def steps(t, hyp, evs, where):
            h = pc + hyp
            want = [('x0', None)] + ([('w', 'w_init')] if wi else []) + ([('p_global', 'p_step')] if pv else [])
            if not O(f'C14 every step sets the values and solves once ({where})', [(e.kind, e.d.get('field')) for e in evs] == [('set', const(f)) for f, _ in want] + [('solve', None)]
                     and all(prove(e.guard, h) for e in evs), evs): return
            for e in evs: O('C14 one solver', e.d['solver'] is const(o.ref.a), e)
            O('C14 steps are made in order', equal(evs[-1].d['at'], t, h), evs[-1])
            v = evs[0].d['val']; j = fresh('j')
            hj = h + (le(ZERO, j), lt(j, n_x))
            x = FakeI(hj).elem(v, j)
            first, nxt = app('x_init', j), app('res_x', sub(t, ONE), sub(NF, ONE), j)
            O('C14 the first step starts from the given state, every other from the final state of the step before', equal(vlen(v), n_x, h) and equal(simp(x, hj + (eq(t, ZERO),)), first, hj + (eq(t, ZERO),))
              and equal(simp(x, hj + (lt(ZERO, t),)), nxt, hj + (lt(ZERO, t),)), (v, t))
            for e, (f, g) in list(zip(evs, want))[1:]:
                n = var('n_w') if f == 'w' else n_pg
                O(f'C14 {f} of this step', eq_vec(e.d['val'], N_(n, lambda q: app(g, t, q)), h), e)
        fam = [e for e in I.events if e.binders]; sing = [e for e in I.events if not e.binders]
        cnt = ZERO
        if fam:
            k = fresh('k'); n = fam[0].binders[0][1]
            for e in fam: O('C14 one pass over the steps', equal(e.binders[0][1], n, pc), e)
            evs = [e.map(lambda t, e=e: subst(t, {e.binders[0][0]: k})) for e in fam]
            steps(k, (le(ZERO, k), lt(k, n)) + inst(pc, k), evs, 'passed'); cnt = n
        if sing:
            steps(cnt, (), sing, 'last'); cnt = add(cnt, ONE)
        O('C14 the number of steps is the number of solves', equal(K, cnt, pc), (K, cnt))
        fail = lambda t: eq(app('res_status', t, sort='E:Status'), INF)
        k = fresh('k')
        hk = pc + (le(ZERO, k), lt(add(k, ONE), cnt)) + inst(pc, k)
        O('C14 without a failure to stop at all steps are made, otherwise the loop ends right after the first failure',
          prove(disj(neg_c(o.stop), neg_c(fail(k))), hk) and (equal(cnt, NS, pc) or prove(conj(o.stop, fail(sub(cnt, ONE))), pc)), (cnt, pc))
        # ---- results
        r = I.cell(out[1]).d
        def got(v):
            if isinstance(v, Ref):
                c = I.cell(v)
                if isinstance(c, MatC): return retag('L', c.rows)
                if isinstance(c, OpaqueC): return retag('L', c.st)
                if isinstance(c, Seq): return retag('L', c.v)
            raise Unsupported(f'result {v!r}')
        exp = {g: N_(cnt, lambda t, f=f: res_val(f, t)) for f, g in RES.items()}
        if I.decide(eq(var('opt_speed_of_time_variables', 'E:SpeedOfTimeVariableMode'), const(EnumM('SpeedOfTimeVariableMode', 'NONE')))): exp['sot'] = vec('L', [])
        exp['X_sim'] = vcat('L', vec('L', [one(N_(n_x, lambda q: app('x_init', q)))]), cat('L', cnt, lambda t: N_(NF, lambda i: N_(n_x, lambda q: app('res_x', t, i, q)))))
        hs = vcat('L', cat('L', cnt, lambda t: N_(app('n_ts', t, sort='I'), lambda i: app('res_h', t, i))))
        exp['time_steps'] = hs
        el = lambda t: summ(t, lambda u: summ(app('n_ts', u, sort='I'), lambda i: app('res_h', u, i)))
        exp['switch_times'] = vcat('L', cat('L', cnt, lambda t: N_(app('n_sw', t, sort='I'), lambda i: add(app('res_sw', t, i), el(t)))))
        exp['t_grid'] = vcat('L', vec('L', [one(ZERO)]), retag('L', asvec(I, libs.np_cumsum(I, I.seq('np', retag('N', hs))))))
        for key, e in exp.items(): O(f'C14 {key}: the results of all steps in order', key in r and eq_vec(got(r[key]), e, pc), (r.get(key) and got(r[key]), e))
        c = got(r['cpu_nlp']) if 'cpu_nlp' in r else None
        t, j = fresh('t'), fresh('j')
        m = add(var('opt_max_iter_homotopy', 'I'), ONE if I.decide(var('opt_do_polishing_step', 'B')) else ZERO)
        h = pc + (le(ZERO, t), lt(t, cnt), le(ZERO, j), lt(j, m))
        F = FakeI(h)
        ok = c is not None and equal(vlen(c), NS, pc)
        O('C14 cpu_nlp: one row per step', ok and equal(simp(F.elem(F.elem(c, t), j), h), app('nan_to_num', app('res_cpu', t, j)), h), c)
    verify(S, 'helpers.NosnocSimLooper', setup, body, post,
           contracts={'solver.NosnocSolverBase.set': c_set, 'problem.NosnocProblem.is_sim_problem': lambda I, p: var('is_sim', 'B')})


def inst(pc, k):
    from .specs_solver import inst as f
    return f(pc, k)
