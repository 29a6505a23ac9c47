"""Contracts of the solver classes: parameters, setting, initialisation, homotopy, polishing, results."""
from .ctx import *
from .spec import *

SB = 'solver.NosnocSolverBase.'
n_w, n_lam0 = var('n_w'), var('n_lam0')
solve.POS |= {'n_w', 'n_xslots'}
solve.NONNEG |= {'n_lam0', 'n_g_all', 'n_rows'}
XS = var('n_xslots')
STRAT = var('opt_initialization_strategy', 'E:InitializationStrategy')


def strat(n): return eq(STRAT, const(EnumM('InitializationStrategy', n)))


def IX(g, *a):
    solve.RANGES['PIX_' + g] = n_w          # published positions are positions (C01)
    return app('PIX_' + g, *a, sort='I')


def W0I_(): return gen('N', n_w, lambda i: app('w0i', i))


class WArr:
    """the initial guess of the problem: stores are recorded as events (position, value)"""
    kind = 'np'; mutable = True
    def __init__(self, name='w0'): self.name = name
    def asvec(self, I, o): return self.now(I, o)
    def term(self): return gen('N', n_w, lambda i: app(self.name, i))
    def length(self, I, o): return n_w
    def getattr(self, I, o, a):
        if a == 'copy': return lambda II: II.seq('np', self.now(II, o))
        if a == 'shape': return (n_w,)
        raise Unsupported(f'attribute {a} of the initial guess')
    def now(self, I, o):
        if any(e.kind == 'write' and e.d['into'] is const(self.name) for e in I.events): raise Unsupported('initial guess read after a store')
        return W0I_() if any(e.kind == 'init' for e in I.events) else self.term()
    def getitem(self, I, o, i): raise Unsupported('initial guess read')
    def setitem(self, I, o, i, v):
        v = libs.un(I, v)
        if isinstance(i, slice):
            if not libs.is_full(i): raise Unsupported('slice of the initial guess')
            w = asvec(I, v) if not libs.isscalar(I, v) else gen('N', n_w, lambda q: num_of(I, v))
            return I.emit('write', into=const(self.name), idx=gen('L', n_w, lambda q: q), val=retag('L', w))
        i = libs.un(I, i)
        if libs.isscalar(I, i):
            return I.emit('write', into=const(self.name), idx=vec('L', [one(num_of(I, i))]), val=vec('L', [one(num_of(I, v))]))
        c = I.cell(i)
        st = c.st if isinstance(c, OpaqueC) and isinstance(c.h, libs.NDIdx) else c.v if isinstance(c, Seq) else None
        if st is None: raise Unsupported('index of the initial guess')
        idx, val = pair(I, st, v, depth(st))
        I.emit('write', into=const(self.name), idx=idx, val=val)


def depth(v):
    for s in v.args[1:]:
        if s.op == 'cat': return 1
        b = s.args[0] if s.op == 'one' else s.args[1]
        return 1 + (depth(b) if b.op == 'vec' else 0)
    return 1


def pair(I, st, v, d):
    """index structure and values, broadcast as numpy does; both flat and segmented alike"""
    if libs.isscalar(I, v):
        x = num_of(I, v); f = libs.deep_flat(st) if d > 1 else st
        return retag('L', f), const_like(f, x)
    if libs.is_mat(I, v):
        c = I.cell(v)
        if d != 2: raise Unsupported('matrix stored through a deeper index array')
        n, m = vlen(st), vlen(c.rows)
        if not equal(n, m, I.pcs) and not I.decide(eq(n, m)): raise PyRaise('ValueError', 'shape mismatch')
        out = []
        def inner(row, w):
            a, b = vlen(row), vlen(w)
            if not equal(a, b, I.pcs) and not I.decide(eq(a, b)): raise PyRaise('ValueError', 'shape mismatch')
            return row, w
        segs_i, segs_v = [], []; off = ZERO
        for s in st.args[1:]:
            if s.op == 'one':
                a, b = inner(s.args[0], I.elem(c.rows, off)); segs_i += list(a.args[1:]); segs_v += list(b.args[1:])
            else:
                k = fresh('k')
                with I.fam(k, s.args[0]): a, b = inner(open_(s, k), I.elem(c.rows, add(off, k)))
                segs_i.append(bind('cat', k, s.args[0], a)); segs_v.append(bind('cat', k, s.args[0], b))
            off = add(off, seg_len(s))
        return vec('L', segs_i), vec('L', segs_v)
    w = asvec(I, v)
    if d == 1:
        n, m = vlen(st), vlen(w)
        if not equal(n, m, I.pcs):
            if I.proves(eq(m, ONE)): return retag('L', st), const_like(st, I.elem(w, ZERO))
            if not I.decide(eq(n, m)): raise PyRaise('ValueError', 'shape mismatch')
        return retag('L', st), retag('L', w)
    si, sv = [], []
    for s in st.args[1:]:
        if s.op == 'one': a, b = pair(I, s.args[0], v, d - 1); si += list(a.args[1:]); sv += list(b.args[1:])
        elif s.op == 'gen':
            k = fresh('k')
            with I.fam(k, s.args[0]): a, b = pair(I, open_(s, k), v, d - 1)
            si.append(bind('cat', k, s.args[0], a)); sv.append(bind('cat', k, s.args[0], b))
        else: raise Unsupported('index array')
    return vec('L', si), vec('L', sv)


def const_like(v, x):
    out = []
    for s in v.args[1:]:
        if s.op == 'one': out.append(one(x))
        elif s.op == 'gen': out.append(bind('gen', fresh('k'), s.args[0], x))
        else:
            k = fresh('k'); out.append(bind('cat', k, s.args[0], const_like(open_(s, k), x)))
    return vec('L', out)


def write_rows(I, into='w0'):
    out = []
    for e in I.events:
        if e.kind == 'write' and e.d['into'] is const(into): out += split([e.d['idx'], e.d['val']], e.binders, e.guard, ['idx', 'val'], None, I.pcs)
    return out


def cmp_write(x, y, pc): return equal(x['idx'], y['idx'], pc) and equal(x['val'], y['val'], pc)


def N_(n, f): return gen('L', n, f)


def mk_problem(I, model, opts, **over):
    """a built problem: index groups as published (C01), bounds, functions"""
    L = lambda t: I.seq('list', t)
    st3 = lambda g, m: L(N_(N_stages, lambda k: N_(Nfe(k), lambda i: N_(var('n_slots_' + g), lambda j: N_(n_sys, lambda s: N_(m(s), lambda q: IX(g, k, i, j, s, q)))))))
    V = lambda f, n: I.seq('np', gen('N', n, lambda i: app(f, i)))
    at = dict(model=model, opts=opts, w0=I.new(OpaqueC(WArr(), None)), lbw=V('lbw', n_w), ubw=V('ubw', n_w), lbg=V('lbg_all', var('n_g_all')), ubg=V('ubg_all', var('n_g_all')),
              ind_x=L(N_(N_stages, lambda k: N_(Nfe(k), lambda i: N_(XS, lambda j: N_(n_x, lambda q: IX('x', k, i, j, q)))))),
              ind_u=L(N_(N_stages, lambda k: N_(n_u, lambda q: IX('u', k, q)))), ind_v_global=L(N_(n_v, lambda q: IX('v_global', q))),
              ind_theta=st3('theta', n_f))
    at.update(over)
    return I.new(InstC(I.prog.module('problem').ns['NosnocProblem'], at))


solve.NONNEG |= {'n_slots_theta'}


def mk_solver(I, **over):
    o = type('O', (), {})()
    o.opts = mk_opts(I)
    o.pv = gen('L', N_stages, lambda k: vcat('L', gen('L', n_pt, lambda q: app('pv_time', k, q)), gen('L', n_pg, lambda q: app('pv_glob', k, q))))
    o.pvm = I.new(MatC('np', add(n_pt, n_pg), o.pv))
    o.model = mk_model(I, True, dict(p_val_ctrl_stages=o.pvm))
    I.setcell(o.model, InstC(I.prog.module('model').ns['NosnocModel'], I.cell(o.model).at))
    install_funs(I, True)
    o.prob = mk_problem(I, o.model, o.opts)
    at = dict(opts=o.opts, model=o.model, problem=o.prob, ocp=None)
    at.update(over)
    o.ref = I.new(InstC(I.prog.module('solver').ns['NosnocSolver'], at))
    o.before = {r.a: dict(I.cell(r).at) for r in (o.ref, o.model, o.prob, o.opts)}
    I.history |= set(o.before)
    o.names = {o.ref.a: 'solver', o.model.a: 'model', o.prob.a: 'problem', o.opts.a: 'options'}
    return o


def frame(S, I, o, what, tags, allowed=()):
    """nothing but the named attributes of solver, problem, model and options is replaced"""
    bad = []
    for a, at0 in o.before.items():
        at1 = I.heap[a].at
        for k in set(at0) | set(at1):
            nm = f'{o.names[a]}.{k}'
            if nm in allowed or k not in at0: continue      # reads of attributes no contract mentions are arbitrary (I.history)
            x, y = at0.get(k), at1.get(k)
            if k not in at1 or k not in at0 or not (x is y or isinstance(x, Ref) and isinstance(y, Ref) and x.a == y.a or type(x) is type(y) and not isinstance(x, T) and x == y): bad.append(nm)
            elif isinstance(x, Ref) and 'entries of ' + nm not in allowed:          # the same object: its entries are the same too
                u, v = I.heap0.get(x.a), I.heap[x.a]
                if u is not v and isinstance(u, (Seq, MatC)):
                    if type(u) is not type(v): bad.append('entries of ' + nm)
                    else:
                        u, v = I.freeze_cell(u), I.freeze_cell(v)
                        if u is not v and not (u.op == v.op == 'vec' and eq_vec(u, v, tuple(I.pcs))) and not (u.op == v.op == 'mat' and equal(u.args[1], v.args[1], I.pcs) and eq_vec(u.args[2], v.args[2], tuple(I.pcs))): bad.append('entries of ' + nm)
    for e in I.events:
        if e.kind == 'write' and ('write ' + e.d['into'].args[0]) not in allowed: bad.append('entries of ' + e.d['into'].args[0])
    S.oblige(f'{what}: {tags} nothing else is changed', not bad, bad)


def call_m(I, o, name, *a, **kw): return I.call(I.prog.module('solver').ns['NosnocSolver'].lookup(name), [o.ref] + list(a), kw)


# ------------------------------------------------------------------ homotopy parameter
def sigma_next(s):
    lin = eq(var('opt_homotopy_update_rule', 'E:HomotopyUpdateRule'), const(EnumM('HomotopyUpdateRule', 'LINEAR')))
    a = mul(var('opt_homotopy_update_slope', 'R'), s)
    b = libs.tmax(var('opt_sigma_N', 'R'), libs.tmin(a, power(s, var('opt_homotopy_update_exponent', 'R'))))
    return lin, a, b


def spec_sigma(S, want):
    s = app('sigma')
    def body(I, o): return call_m(I, o, 'homotopy_sigma_update', s)
    def post(S, I, o, out):
        lin, a, b = sigma_next(s); pc = I.pcs
        ok = out[0] == 'return' and out[1] is not None
        v = lift(out[1]) if ok else None
        S.oblige('homotopy_sigma_update: C11 next value of the selected rule', ok and (prove(eq(v, a), pc) if I.proves(lin) else prove(eq(v, b), pc) if I.proves(neg_c(lin)) else prove(eq(v, ite(lin, a, b)), pc)), out)
        frame(S, I, o, 'homotopy_sigma_update', 'C11')
    verify(S, SB + 'homotopy_sigma_update', mk_solver, body, post)


# ------------------------------------------------------------------ parameter vector
def p_vec(sig, tau, lam0, x0, pv): return vcat('L', cat('L', N_stages, lambda k: I_elem(pv, k)), vec('L', [one(sig), one(tau)]), lam0, x0)


def I_elem(pv, k): return open_(pv.args[1], k)


LAM0 = gen('L', n_lam0, lambda i: app('lambda00', i))
X0 = gen('L', n_x, lambda i: app('x0', i))


def spec_pval(S, want):
    sig, tau = app('sigma'), app('tau')
    def setup(I): return mk_solver(I, lambda00=I.seq('np', retag('N', LAM0)))
    def body(I, o): return call_m(I, o, 'setup_p_val', sig, tau)
    def post(S, I, o, out):
        v = I.cell(o.ref).at.get('p_val')
        ok = out[0] == 'return' and isinstance(v, Ref)
        S.oblige('setup_p_val: C10/C11/C20 stage parameters, relaxation parameters, initial multipliers and initial state in the order of the problem',
                 ok and eq_vec(retag('L', asvec(I, v)), p_vec(sig, tau, LAM0, X0, o.pv), I.pcs), v and asvec(I, v))
        frame(S, I, o, 'setup_p_val', 'C10/C11/C20', {'solver.p_val'})
    verify(S, SB + 'setup_p_val', setup, body, post)


# ------------------------------------------------------------------ set
def spec_set(S, want):
    K = lambda: fresh('k')
    def run(field, mkval, rows, refused=None, allowed=(), after=None):
        allowed = set(allowed)
        nm = f'set({field})'
        def setup(I):
            o = mk_solver(I); o.val = mkval(I); I.assume(le(ONE, var('n_rows'))); return o
        def body(I, o): return call_m(I, o, 'set', field, o.val)
        def post(S, I, o, out):
            exp = rows(I) if rows else []
            pc = I.pcs
            if exp is None:
                S.oblige(f'{nm}: C13 wrong leading dimension is refused', out[0] == 'raise', (out, pc))
                S.oblige(f'{nm}: C13 nothing is written when refused', not [e for e in I.events if e.kind == 'write'], I.events)
            else:
                okx = out[0] == 'return' or (field in ('x', 'w') and out[1].startswith('Warning') and I.proves(neg_c(strat('EXTERNAL'))))
                S.oblige(f'{nm}: C10/C13 accepted', okx, (out, pc))
                if rows: match(S, nm, write_rows(I), exp, pc, cmp_write)
            if after: after(S, I, o, nm, pc)
            frame(S, I, o, nm, 'C10/C13', allowed)
        verify(S, SB + 'set', setup, body, post, contracts={'utils.flatten': c_flatten})
    VM = lambda n, m: (lambda I: I.new(MatC('np', m, gen('L', n, lambda i: gen('N', m, lambda j: app('value', i, j))))))
    VV = lambda n: (lambda I: I.seq('np', gen('N', n, lambda j: app('value', j))))
    nr = var('n_rows')
    tot = summ(N_stages, Nfe)
    def per_fe(k, i): return add(summ(k, Nfe), i)
    def rows_x(I):
        k, i, j, q = (fresh('q') for _ in range(4))
        B = [(k, N_stages), (i, Nfe(k)), (j, XS), (q, n_x)]
        if I.decide(eq(nr, N_stages)): row = k
        elif I.decide(eq(nr, tot)): row = per_fe(k, i)
        else: return None
        return [Row(B, TRUE, dict(idx=IX('x', k, i, j, q), val=app('value', row, q)), 'C13 state guesses of the addressed rows')]
    run('x', VM(nr, n_x), rows_x, allowed={'write w0'})
    def rows_th(I):
        if not I.decide(eq(nr, tot)): return None
        k, i, j, s, q = (fresh('q') for _ in range(5))
        B = [(k, N_stages), (i, Nfe(k)), (j, var('n_slots_theta')), (s, n_sys), (q, n_f(s))]
        return [Row(B, TRUE, dict(idx=IX('theta', k, i, j, s, q), val=app('value', per_fe(k, i), add(summ(s, n_f), q))), 'C13 weight guesses of the addressed element')]
    run('theta', VM(nr, summ(n_sys, n_f)), rows_th, allowed={'write w0'})
    def rows_u(I):
        if not I.decide(eq(nr, N_stages)): return None
        k, q = fresh('q'), fresh('q')
        return [Row([(k, N_stages), (q, n_u)], TRUE, dict(idx=IX('u', k, q), val=app('value', k, q)), 'C13 control guesses of the addressed stage')]
    run('u', VM(nr, n_u), rows_u, allowed={'write w0'})
    def rows_v(I):
        q = fresh('q')
        return [Row([(q, n_v)], TRUE, dict(idx=IX('v_global', q), val=app('value', q)), 'C13 global variable guesses')]
    run('v_global', VV(n_v), rows_v, allowed={'write w0'})
    def after_x0(S, I, o, nm, pc):
        v = I.cell(o.model).at.get('x0')
        S.oblige(f'{nm}: C10/C13 the initial state is the given one', isinstance(v, Ref) and isinstance(o.val, Ref) and v.a == o.val.a and eq_vec(retag('L', asvec(I, v)), gen('L', n_x, lambda j: app('value', j)), pc), v)
    run('x0', VV(n_x), None, allowed={'model.x0'}, after=after_x0)
    def after_w(S, I, o, nm, pc):
        v = I.cell(o.prob).at.get('w0')
        S.oblige(f'{nm}: C13 the guess is the given vector', isinstance(v, Ref) and eq_vec(retag('L', asvec(I, v)), gen('L', n_w, lambda j: app('value', j)), pc), v)
    run('w', VV(n_w), None, allowed={'problem.w0'}, after=after_w)
    def after_p(exp):
        def f(S, I, o, nm, pc):
            v = I.cell(o.model).at.get('p_val_ctrl_stages')
            c = I.cell(v) if isinstance(v, Ref) else None
            S.oblige(f'{nm}: C10 exactly the addressed parameters of every stage are replaced', isinstance(c, MatC) and equal(c.nc, add(n_pt, n_pg), pc) and eq_vec(retag('L', c.rows), exp, pc), c and c.rows)
        return f
    run('p_global', VV(n_pg), None, allowed={'entries of model.p_val_ctrl_stages'}, after=after_p(gen('L', N_stages, lambda k: vcat('L', gen('L', n_pt, lambda q: app('pv_time', k, q)), gen('L', n_pg, lambda q: app('value', q))))))
    run('p_time_var', VM(N_stages, n_pt), None, allowed={'entries of model.p_val_ctrl_stages'}, after=after_p(gen('L', N_stages, lambda k: vcat('L', gen('L', n_pt, lambda q: app('value', k, q)), gen('L', n_pg, lambda q: app('pv_glob', k, q))))))
    # unknown fields
    def setup(I): return mk_solver(I)
    def body(I, o): return call_m(I, o, 'set', var('unknown_field', 'E:str'), VV(n_x)(I))
    def post(S, I, o, out):
        S.oblige('set(unknown): C13 unknown fields are refused', out[0] == 'raise' and not I.events, out)
        frame(S, I, o, 'set(unknown)', 'C13')
    for f in ('y', 'lambda', '', 'x00'):
        def body(I, o, f=f): return call_m(I, o, 'set', f, VV(n_x)(I))
        verify(S, SB + 'set', setup, body, post)


def c_flatten(I, L):
    """contract of utils.flatten: all integers of a nested list, in order"""
    L = libs.un(I, L)
    if libs.isscalar(I, L): return I.pylist([L])
    return I.seq('list', libs.deep_flat(I.resolve_opts(I.vecof(L))))


# ------------------------------------------------------------------ initialise
def c_lam00(I, m, opts):
    """contract of compute_lambda00: computed from the values in force at the call"""
    at = I.cell(m).at
    p = at.get('p_val_ctrl_stages')
    I.emit('lam00', model=const(m.a), opts=const(opts.a), x0=retag('L', asvec(I, at['x0'])), p=I.freeze_cell(I.cell(p)))
    return I.seq('np', retag('N', LAM0))


def spec_init(S, want):
    nm = 'initialize'
    def setup(I):
        o = mk_solver(I)
        I.assume(neg_c(strat('RK4_SMOOTHENED')))
        return o
    def body(I, o): return call_m(I, o, 'initialize')
    def post(S, I, o, out):
        pc = I.pcs
        O = lambda n, ok, d='': S.oblige(f'{nm}: {n}', ok, d)
        if not O('C11/C13 returns', out[0] == 'return', out): return
        le_ = [e for e in I.events if e.kind == 'lam00']
        at = I.cell(o.ref).at
        O('C09/C10/C13 initial multipliers are computed from the initial state and parameters in force', len(le_) == 1 and not le_[0].binders and le_[0].d['model'] is const(o.model.a)
          and le_[0].d['opts'] is const(o.opts.a) and eq_vec(le_[0].d['x0'], X0, pc) and isinstance(at.get('lambda00'), Ref) and eq_vec(retag('L', asvec(I, at['lambda00'])), LAM0, pc), le_)
        cur = disj(strat('ALL_XCURRENT_W0_START'), strat('ALL_XCURRENT_WOPT_PREV'))
        k, i, j, q = (fresh('q') for _ in range(4))
        exp = [Row([(k, N_stages), (i, Nfe(k)), (j, XS), (q, n_x)], cur, dict(idx=IX('x', k, i, j, q), val=app('x0', q)), 'C13 every state guess is the current initial state')]
        match(S, nm, write_rows(I), exp, pc, cmp_write)
        frame(S, I, o, nm, 'C10/C13', {'solver.lambda00', 'write w0'})
    verify(S, SB + 'initialize', setup, body, post, contracts={'model.NosnocModel.compute_lambda00': c_lam00})


# ------------------------------------------------------------------ homotopy loop
NLPT = app('nlp', sort='O:nlp')
n_g = var('n_g_all')
GF = lambda f, n, *a: gen('L', n, lambda i: app(f, *a, i))
W0I = GF('w0i', n_w)


def sol_x(t): return gen('L', n_w, lambda i: app('sol_x', t, i))


def install_nlp(I, o):
    """CasADi's IPOPT interface: the t-th call solves the t-th NLP; nothing is assumed about the numbers it returns"""
    o.ghost = I.new(InstC('Ghost', {'cnt': ZERO}))
    def call(I, f, args, kw):
        if args or set(kw) != {'x0', 'lbg', 'ubg', 'lbx', 'ubx', 'p'}: raise Unsupported('call of the NLP solver')
        t = lift(I.getattr(o.ghost, 'cnt'))
        I.emit('solve', at=t, **{k: retag('L', asvec(I, v)) for k, v in kw.items()})
        I.setattr(o.ghost, 'cnt', add(t, ONE))
        V = lambda nm, n: I.seq('sx', gen('S', n, lambda i: app(nm, t, i)))
        return I.new(DictC({'x': V('sol_x', n_w), 'g': V('sol_g', n_g), 'f': I.seq('sx', vec('S', [one(app('sol_f', t))])), 'lam_x': V('sol_lx', n_w), 'lam_g': V('sol_lg', n_g)}))
    def attr(I, f, a):
        if a == 'stats':
            def stats(I):
                t = sub(lift(I.getattr(o.ghost, 'cnt')), ONE)
                return I.new(DictC({'t_proc_total': app('st_cpu', t), 't_wall_total': app('st_wall', t), 'return_status': app('st_status', t, sort='E:str'), 'iter_count': app('st_iter', t, sort='I'), 'success': app('st_success', t, sort='B')}))
            return stats
        raise Unsupported('NLP solver attribute ' + a)
    I.obj_call['O:nlp'] = call; I.obj_attr['O:nlp'] = attr
    def cres(I, f, args, kw):
        if kw or len(args) != 2: raise PyRaise('TypeError')
        return I.seq('sx', vec('S', [one(app('comp_res', retag('L', asvec(I, args[0])), retag('L', asvec(I, args[1]))))]))
    I.obj_call['O:cres'] = cres
    c = I.cell(o.prob); I.setcell(o.prob, InstC(c.cls, dict(c.at, comp_res=app('comp_res_fun', sort='O:cres'))))
    o.before[o.prob.a] = dict(I.cell(o.prob).at)


def c_init(I, s):
    I.emit('init', n=ZERO)
    I.setattr(s, 'lambda00', I.seq('np', retag('N', LAM0)))


def c_sigma(I, s, sig):
    lin, a, b = sigma_next(num_of(I, sig))
    return unlift(a if I.decide(lin) else b)


def c_accept(I, status): return app('accepted', lift(status), sort='B')


def c_polish(I, s, solver, w):
    I.emit('polish', w=retag('L', asvec(I, w)), solver=lift(solver))
    return (I.seq('np', gen('N', n_w, lambda i: app('pol_w', i))), app('pol_cpu'), app('pol_iter', sort='I'), app('pol_status', sort='E:str'), app('pol_cost'))


def c_results(I, prob, w):
    I.emit('results', prob=const(prob.a), w=retag('L', asvec(I, w)))
    return I.new(DictC({'x_out': app('res_x_out', sort='O:any')}))


def unrec(I, t, k):
    """unfolds recurrences at k + 1 once"""
    def go(x):
        if not isinstance(x, T): return x
        if x.op == 'app' and x.args[0] == 'rec':
            r = I.recs[int(x.args[2].args[0])]
            if equal(x.args[3], add(k, ONE), ()): return r['step'](k)
            if x.args[3] is ZERO: return r['init']
            return x
        return tm.rebuild(x.op, [go(y) if isinstance(y, T) else y for y in x.args]) if x.op not in ('num', 'var', 'bnd', 'poly') and x.op not in tm.BINDERS else go_poly(x)
    def go_poly(x):
        if x.op != 'poly': return x
        return add(*[mul(num(c), *[power(go(a), p) for a, p in m]) for c, m in x.args[0]])
    return go(t)


def peel(t, pc):
    """products up to e + c (c > 0 a number, e >= 0) as the product up to e times the last factors"""
    if not isinstance(t, T): return t
    if t.op == 'prod':
        n = t.args[0]; c = sum(q for q, m in tm._mono(n) if not m)
        if c.denominator == 1 and c >= 1 and not is_num(n) and prove(le(ZERO, sub(n, num(c))), pc):
            e = sub(n, num(c))
            return mul(tm.prod(e, lambda q: open_(t, q)), *[peel(open_(t, add(e, num(i))), pc) for i in range(int(c))])
        return t
    if t.op == 'poly': return add(*[mul(num(c), *[power(peel(a, pc), p) for a, p in m]) for c, m in t.args[0]])
    if t.op in tm.BINDERS or t.op in ('num', 'var', 'bnd'): return t
    return tm.rebuild(t.op, [peel(x, pc) if isinstance(x, T) else x for x in t.args])


def spec_solve(S, want):
    nm = 'solve'
    tol, sN, s0 = var('opt_comp_tol', 'R'), var('opt_sigma_N', 'R'), var('opt_sigma_0', 'R')
    it = var('opt_max_iter_homotopy', 'I')
    pol = var('opt_do_polishing_step', 'B')
    def setup(I):
        o = mk_solver(I, solver=NLPT)
        install_nlp(I, o)
        I.assume(le(ONE, it))
        o.fix = I.decide(conj(var('opt_fix_active_set_fe0', 'B'), eq(var('opt_pss_mode', 'E:PssMode'), const(EnumM('PssMode', 'STEWART')))))
        if o.fix:       # sizes as established by the contracts of FiniteElement.__init__ and preprocess_model
            I.assume(eq(var('n_slots_theta'), var('n_s'))); I.assume(eq(vlen(LAM0), summ(n_sys, n_f)))
        return o
    def body(I, o): return call_m(I, o, 'solve')
    def post(S, I, o, out):
        pc = tuple(I.pcs)
        O = lambda n, ok, d='': S.oblige(f'{nm}: {n}', ok, d)
        if not O('C11 returns', out[0] == 'return', (out, pc)): return
        sv = [e for e in I.events if e.kind == 'solve']
        K = lift(I.cell(o.ghost).at['cnt'])
        fam = [e for e in sv if len(e.binders) == 1]; sing = [e for e in sv if not e.binders]
        if len(fam) + len(sing) != len(sv) or len(fam) > 1 or len(sing) > 1 or any(e.guard is not TRUE and not I.proves(e.guard) for e in sing): raise Unsupported('shape of the sequence of solves')
        ini = [e for e in I.events if e.kind == 'init']
        O('C10/C11/C13 initialisation comes first, once', len(ini) == 1 and not ini[0].binders and I.events.index(ini[0]) < min([I.events.index(e) for e in sv] or [99]), ini)
        cases = []                       # (ordinal, event, hypotheses)
        k = fresh('k')
        if fam:
            (b, nb), = fam[0].binders
            fe = fam[0].map(lambda t: subst(t, {b: k}))
            hyp = (le(ZERO, k), lt(k, nb)); cases.append((k, fe, hyp))
            O('C11 every pass solves', prove(fam[0].guard, pc + (le(ZERO, b), lt(b, nb)) + inst(pc, b)), fam[0].guard)
            cnt = nb
        else: cnt = ZERO
        if sing: cases.append((cnt, sing[0], ())); cnt = add(cnt, ONE)
        O('C11 the passes counted are the NLPs solved', equal(K, cnt, pc), f'{K!r} {cnt!r}')
        at = {}
        sig = {}
        if o.fix:       # weights of the first element whose initial multiplier is active
            F = FakeI(pc)
            th = lambda a: vec('L', [bind('cat', s_, n_sys, vec('L', [bind('gen', q_, n_f(s_), IX('theta', ZERO, ZERO, a, s_, q_))]))])
            s_, q_, l_, a_ = (fresh('f') for _ in range(4))
            with I.fam(a_, var('n_s')), I.fam(l_, vlen(LAM0)): el = I.elem(th(a_), l_); act = lt(mul(num(10), tol), I.elem(LAM0, l_))
            Z = vec('L', [bind('cat', a_, var('n_s'), vec('L', [bind('cat', l_, vlen(LAM0), vec('L', [mk('opt', act, vec('L', [one(el)]))]))]))])
            fixed = lambda x, y: ite(libs.memb(I, x, Z), ZERO, y)
        else: fixed = lambda x, y: y
        for t, e, hyp in cases:
            p2 = pc + hyp; d = e.d
            O('C11 solves are made in order', equal(d['at'], t, p2), d['at'])
            j = fresh('j')
            F = FakeI(p2 + (le(ZERO, j), lt(j, n_w)))
            x0 = d['x0']
            O('C11/C13 the first NLP starts from the initial guess, every other from the preceding solution',
              equal(vlen(x0), n_w, p2) and equal(elem_(F, x0, j), ite(eq(t, ZERO), fixed(j, app('w0i', j)), app('sol_x', sub(t, ONE), j)), F.pcs), x0)
            for q, f, n in (('lbx', 'lbw', n_w), ('ubx', 'ubw', n_w), ('lbg', 'lbg_all', n_g), ('ubg', 'ubg_all', n_g)):
                want_ = GF(f, n) if n is n_g else gen('L', n, lambda x, f=f: fixed(x, app(f, x)))
                O('C02/C11 every NLP has the bounds of the problem (with the active set of the first element fixed if that is selected)', eq_vec(d[q], want_, p2), (d[q], want_))
            ones = [x.args[0] for x in d['p'].args[1:] if x.op == 'one']
            ok = len(ones) == 2 and eq_vec(d['p'], p_vec(ones[0], ones[1], LAM0, X0, o.pv), p2)
            O('C10/C11 every NLP sees the stage parameters, initial multipliers and initial state in force', ok, d['p'])
            if not ok: return
            sig[id(e)] = ones[0]; at[id(e)] = d['p']
        lin, _, _ = sigma_next(ZERO)
        def nxt(s):
            l, a, b2 = sigma_next(s); return ite(l, a, b2)
        def exit_(t, s, p): return disj(lt(app('comp_res', sol_x(t), p), tol), le(s, sN))
        if fam:
            e = cases[0][1]; s = sig[id(e)]; p = at[id(e)]; hyp = cases[0][2]
            O('C11 the relaxation starts at its initial value', equal(simp(unrec(I, subst(s, {k: ZERO}), k), pc + (lt(ZERO, nb),)), s0, pc + (lt(ZERO, nb),)), s)
            h1 = pc + (le(ZERO, k), lt(add(k, ONE), nb))
            s1 = peel(unrec(I, subst(s, {k: add(k, ONE)}), k), h1)
            O('C11 the relaxation follows the update rule', prove(eq(s1, nxt(s)), h1) or equal(s1, simp(nxt(s), h1), h1), f'{s1!r}\n{nxt(s)!r}')
            h2 = pc + hyp + inst(pc, k) + ((lt(add(k, ONE), nb),) if not sing else ())
            ex = exit_(k, s, p)
            O('C11 no stopping criterion was met before the last NLP', prove(neg_c(ex), h2), (ex, h2))
        if sing:
            e = cases[-1][1]; s = sig[id(e)]; p = at[id(e)]; t = cases[-1][0]
            h0 = pc + (eq(t, ZERO),)
            O('C11 the relaxation starts at its initial value', equal(simp(unrec(I, subst(s, {t: ZERO}), t) if t.op == 'var' else s, h0), s0, h0) or prove(eq(s, s0), h0), s)
            if fam:
                q = fresh('q'); q1 = {t: add(q, ONE)}
                h1 = tuple(subst(c, q1) for c in pc) + (le(ZERO, q),)
                sp = subst(sig[id(cases[0][1])], {k: q})
                s1 = peel(unrec(I, subst(s, q1), q), h1)
                O('C11 the relaxation follows the update rule', prove(eq(s1, nxt(sp)), h1) or equal(s1, simp(nxt(sp), h1), h1), f'{s1!r}\n{nxt(sp)!r}')
            ex = exit_(t, s, p)
            O('C11 the loop stops when the residual is below the tolerance or the relaxation has reached its final value', prove(ex, pc) or equal(cnt, it, pc), (ex, pc))
            O('C11 the iteration limit is respected', prove(le(cnt, it), pc), pc)
        else: O('C11 without a stopping criterion the iteration limit is used up', equal(cnt, it, pc), (cnt, pc))
        # ---- results
        ispol = I.decide(pol); pc = tuple(I.pcs)
        last = sub(cnt, ONE)
        pe = [e for e in I.events if e.kind == 'polish']
        O('C11/C20 polishing runs exactly when selected, from the last solution', (len(pe) == 1 and not pe[0].binders and pe[0].d['solver'] is NLPT and eq_vec(pe[0].d['w'], sol_x(last), pc)) if ispol else not pe, pe)
        wsol = GF('pol_w', n_w) if ispol else sol_x(last)
        st = app('pol_status', sort='E:str') if ispol else app('st_status', last, sort='E:str')
        cost = app('pol_cost') if ispol else app('sol_f', last)
        r = I.cell(out[1]).d if isinstance(out[1], Ref) and isinstance(I.cell(out[1]), DictC) else {}
        need = {'cpu_time_nlp', 'nlp_iter', 'w_all', 'w_sol', 'cost_val', 'status', 'x_out'}
        if not O('C11 the statistics, iterates, solution, objective and status are reported', need <= set(r), set(r)): return
        re_ = [e for e in I.events if e.kind == 'results']
        O('C11/C12/C20 the trajectories are read from the reported solution', len(re_) == 1 and not re_[0].binders and re_[0].d['prob'] is const(o.prob.a) and eq_vec(re_[0].d['w'], wsol, pc), re_)
        O('C11/C20 reported solution', eq_vec(retag('L', asvec(I, r['w_sol'])), wsol, pc), r['w_sol'])
        O('C11/C20 reported objective', equal(lift(num_of(I, r['cost_val'])), cost, pc), r['cost_val'])
        ok = I.decide(app('accepted', st, sort='B')); bad = not ok; pc = tuple(I.pcs)
        stv = r['status'] if not isinstance(r['status'], T) else r['status']
        good = (stv is EnumM('Status', 'SUCCESS') or stv is const(EnumM('Status', 'SUCCESS'))) if ok else (stv is EnumM('Status', 'INFEASIBLE') or stv is const(EnumM('Status', 'INFEASIBLE'))) if bad else False
        O('C11/C20 success is reported exactly when the last NLP ended with an accepted status', good, (r['status'], st, pc))
        tot = add(it, ONE) if ispol else it
        for key, f, pf in (('cpu_time_nlp', 'st_cpu', 'pol_cpu'), ('nlp_iter', 'st_iter', 'pol_iter')):
            v = I.cell(r[key]).v if isinstance(r[key], Ref) and isinstance(I.cell(r[key]), Seq) else None
            if not O(f'C11/C20 {key} has one entry per possible NLP', v is not None and equal(vlen(v), tot, pc), v): continue
            j = fresh('j')
            F = FakeI(pc + (le(ZERO, j), lt(j, cnt)))
            x = elem_(F, v, j)
            srt = 'I' if f == 'st_iter' else 'R'
            O(f'C11 {key} of every NLP solved, in order', equal(simp(x, F.pcs), app(f, j, sort=srt) if srt == 'I' else app(f, j), F.pcs), x)
            F = FakeI(pc + (le(cnt, j), lt(j, it)))
            x = simp(elem_(F, v, j), F.pcs)
            O(f'C11 {key} is empty for NLPs that were not solved', x is const(None) or F.proves(FALSE), x)
            if ispol:
                F = FakeI(pc)
                x = simp(elem_(F, v, it), pc)
                O(f'C11/C20 {key} of the polishing step comes last', equal(x, app(pf, sort=srt) if srt == 'I' else app(pf), pc), x)
        v = I.cell(r['w_all']).v if isinstance(r['w_all'], Ref) else None
        O('C11 the iterates are the initial guess and every solution, in order', v is not None and eq_vec(retag('L', v), vcat('L', vec('L', [one(W0I)]), gen('L', cnt, lambda q: sol_x(q))), pc), v)
        wr = write_rows(I)
        q = fresh('q')
        wel = app('pol_w', q) if ispol else app('sol_x', last, q)
        match(S, nm, wr, [Row([(q, n_w)], strat('ALL_XCURRENT_WOPT_PREV'), dict(idx=q, val=wel), 'C11/C13 the warm start continues from the reported solution')], pc, cmp_write)
        frame(S, I, o, nm, 'C10/C11/C13', {'solver.lambda00', 'solver.p_val', 'write w0'})
    con = {SB + 'initialize': c_init, SB + 'homotopy_sigma_update': c_sigma, 'utils.check_ipopt_success': c_accept, SB + 'polish_solution': c_polish, 'solver.get_results_from_primal_vector': c_results}
    verify(S, 'solver.NosnocSolver.solve', setup, body, post, contracts=con)


def elem_(F, v, j):
    v = F.resolve_opts(v) if hasattr(F, 'resolve_opts') else v
    return F.elem(v, j)


def inst(pc, k):
    """quantified facts at k"""
    out = []
    for c in pc:
        if c.op == 'all':
            n = c.args[0]
            out.append(disj(le(n, k), lt(k, ZERO), tm.open_(c, k)))
    return tuple(out)


# ------------------------------------------------------------------ polishing
FIX_GROUPS = ('lam', 'lambda_n', 'lambda_p', 'alpha', 'theta', 'mu')
KEEP_GROUPS = ('h', 'u', 'x', 'v_global', 'v', 'z', 'elastic', 'sot', 'bool')


def group_shape(g):
    """published index structure of a group of variables (C01), every count arbitrary"""
    n = lambda *a: app('cnt_' + g, *a, sort='I') if g != 'h' else summ(N_stages, Nfe)
    ix = lambda *a: IX(g, *a)
    if g in FIX_GROUPS: return N_(N_stages, lambda k: N_(Nfe(k), lambda i: N_(app('slots_' + g, sort='I'), lambda j: N_(n_sys, lambda s: N_(n(s), lambda q: ix(k, i, j, s, q))))))
    if g in ('x', 'v', 'z'): return N_(N_stages, lambda k: N_(Nfe(k), lambda i: N_(app('slots_' + g, sort='I'), lambda j: N_(n(), lambda q: ix(k, i, j, q)))))
    if g == 'bool': return N_(N_stages, lambda k: N_(Nfe(k), lambda i: N_(n(), lambda q: ix(k, i, q))))
    if g == 'u': return N_(N_stages, lambda k: N_(n(), lambda q: ix(k, q)))
    return N_(n(), lambda q: ix(q))


solve.NONNEG |= {'cnt_' + g for g in FIX_GROUPS + KEEP_GROUPS} | {'slots_' + g for g in FIX_GROUPS + KEEP_GROUPS}


def spec_polish(S, want):
    nm = 'polish_solution'
    tol = mul(num(10), var('opt_comp_tol', 'R'))
    def setup(I):
        o = mk_solver(I, lambda00=I.seq('np', retag('N', LAM0)))
        install_nlp(I, o)
        c = I.cell(o.prob)
        at = dict(c.at)
        o.shape = {g: group_shape(g) for g in FIX_GROUPS + KEEP_GROUPS}
        for g, v in o.shape.items(): at['ind_' + g] = I.seq('list', v)
        at['w'] = I.seq('sx', gen('S', n_w, lambda i: app('w_sym', i)))
        I.setcell(o.prob, InstC(c.cls, at)); o.before[o.prob.a] = dict(at)
        k = fresh('k')
        o.memb = {g: (lambda x, v=libs.deep_flat(I.resolve_opts(o.shape[g])): libs.memb(I, x, v)) for g in o.shape}
        infix = lambda x: disj(*[o.memb[g](x) for g in FIX_GROUPS]); inkeep = lambda x: disj(*[o.memb[g](x) for g in KEEP_GROUPS])
        # C01: every entry belongs to exactly one group
        I.assume_all(k, n_w, disj(infix(k), inkeep(k)))
        I.assume_all(k, n_w, disj(neg_c(infix(k)), neg_c(inkeep(k))))
        o.infix = infix
        return o
    def body(I, o): return call_m(I, o, 'polish_solution', NLPT, I.seq('np', gen('N', n_w, lambda i: app('wg', i))))
    def post(S, I, o, out):
        pc = tuple(I.pcs)
        O = lambda n, ok, d='': S.oblige(f'{nm}: {n}', ok, d)
        if not O('C20 every layout is handled', out[0] == 'return', (out, pc)): return
        sv = [e for e in I.events if e.kind == 'solve']
        if not O('C20 an NLP is solved', bool(sv), sv): return
        for e in sv:
            d = e.d
            p2 = pc + tuple(x for v, n in e.binders for x in (le(ZERO, v), lt(v, n)))
            O('C20 polishing starts from the given iterate', eq_vec(d['x0'], GF('wg', n_w), p2), d['x0'])
            O('C20 the NLP is the unrelaxed one with the parameters in force', eq_vec(d['p'], p_vec(ZERO, ZERO, LAM0, X0, o.pv), p2), d['p'])
            for q, f in (('lbg', 'lbg_all'), ('ubg', 'ubg_all')): O('C20 constraint bounds are those of the problem', eq_vec(d[q], GF(f, n_g), p2), d[q])
            j = fresh('j')
            w = app('wg', j)
            near = lambda c: conj(lt(sub(w, c), tol), lt(sub(c, w), tol))
            for q, f in (('lbx', 'lbw'), ('ubx', 'ubw')):
                v = d[q]
                if not O('C20 one bound per variable', equal(vlen(v), n_w, p2), v): continue
                base = p2 + (le(ZERO, j), lt(j, n_w)) + inst(pc, j)
                F = FakeI(base); x = elem_(F, v, j)
                fx = o.infix(j)
                z_, o_ = conj(fx, near(ZERO)), conj(fx, near(ONE))
                for h, val, what in ((conj(z_, neg_c(o_)), ZERO, 'decided to be zero are fixed to zero'), (conj(o_, neg_c(z_)), ONE, 'decided to be one are fixed to one'),
                                     (conj(neg_c(z_), neg_c(o_)), app(f, j), 'not decided, and all other variables, keep their bounds')):
                    h = base + tuple(h.args if h.op == 'and' else [h])
                    O(f'C20 weights and multipliers {what} ({q})', prove(FALSE, h) or equal(x, val, h), (x, h))
        r = out[1]
        if not O('C20 results of the step', isinstance(r, tuple) and len(r) == 5, r): return
        t = sub(lift(I.cell(o.ghost).at['cnt']), ONE)
        O('C20 polished solution', eq_vec(retag('L', asvec(I, r[0])), sol_x(t), pc), r[0])
        O('C20 polished status', equal(lift(r[3]), app('st_status', t, sort='E:str'), pc) or lift(r[3]) is app('st_status', t, sort='E:str'), r[3])
        O('C20 polished iterations', equal(lift(r[2]), app('st_iter', t, sort='I'), pc), r[2])
        O('C20 polished objective', equal(lift(num_of(I, r[4])), app('sol_f', t), pc), r[4])
        frame(S, I, o, nm, 'C20', {'solver.p_val'})
        for q, f, n in (('lbw', 'lbw', n_w), ('ubw', 'ubw', n_w), ('lbg', 'lbg_all', n_g), ('ubg', 'ubg_all', n_g)):
            O("C20 the problem's own bounds are not modified", eq_vec(retag('L', asvec(I, I.cell(o.prob).at[q])), GF(f, n), pc), q)
        for g, v in o.shape.items(): O('C20 the index lists are not modified', retag('L', I.cell(I.cell(o.prob).at['ind_' + g]).v) is retag('L', v), g)
    verify(S, SB + 'polish_solution', setup, body, post, contracts={'utils.flatten': c_flatten})


# ------------------------------------------------------------------ results
def c_valsys(I, w, ind):
    """contract of get_values_per_sys: the entries of every subsystem, kept apart"""
    v, wv = I.vecof(ind), asvec(I, w)
    return I.seq('list', I.map_vec(v, lambda r: I.map_vec(r, lambda t: I.elem(wv, t))))


def spec_valsys(S, want):
    n = var('n_parts')
    solve.POS.add('n_parts')
    cn = lambda s: app('cnt_any', s, sort='I')
    solve.NONNEG.add('cnt_any')
    def setup(I):
        o = type('O', (), {})()
        k, q = fresh('k'), fresh('q')
        ix = app('IDX_any', k, q, sort='I')
        o.ind = I.seq('list', N_(n, lambda k: N_(cn(k), lambda q: IX('any', k, q))))
        return o
    def body(I, o): return I.call(I.prog.module('solver').ns['get_values_per_sys'], [I.seq('np', gen('N', n_w, lambda i: app('wo', i))), o.ind], {})
    def post(S, I, o, out):
        ok = out[0] == 'return' and isinstance(out[1], Ref)
        S.oblige('get_values_per_sys: C12 the entries of every subsystem, kept apart, for equal and different sizes', ok and eq_vec(retag('L', I.vecof(out[1])), N_(n, lambda k: N_(cn(k), lambda q: app('wo', IX('any', k, q)))), I.pcs), out)
    verify(S, 'solver.get_values_per_sys', setup, body, post)


def spec_results(S, want):
    nm = 'results'
    wo = lambda i: app('wo', i)
    def setup(I):
        o = mk_solver(I)
        c = I.cell(o.prob); at = dict(c.at)
        for g in FIX_GROUPS + KEEP_GROUPS: at['ind_' + g] = I.seq('list', group_shape(g))
        at['ind_x_cont'] = I.seq('list', N_(N_stages, lambda k: N_(Nfe(k), lambda i: N_(n_x, lambda q: IX('x_cont', k, i, q)))))
        I.setcell(o.prob, InstC(c.cls, at)); o.before[o.prob.a] = dict(at)
        for g in FIX_GROUPS + ('x', 'z'): I.assume(le(ONE, app('slots_' + g, sort='I')))
        I.assume(le(ONE, summ(N_stages, Nfe)))          # at least one stage with at least one element each
        return o
    def body(I, o): return I.call(I.prog.module('solver').ns['get_results_from_primal_vector'], [o.prob, I.seq('np', gen('N', n_w, wo))], {})
    def post(S, I, o, out):
        pc = tuple(I.pcs)
        O = lambda n, ok, d='': S.oblige(f'{nm}: {n}', ok, d)
        if not O('C12 returns', out[0] == 'return' and isinstance(out[1], Ref) and isinstance(I.cell(out[1]), DictC), (out, pc)): return
        r = I.cell(out[1]).d
        last = lambda g: sub(app('slots_' + g, sort='I'), ONE)
        fes = lambda f: cat('L', N_stages, lambda k: N_(Nfe(k), lambda i: f(k, i)))
        cn = lambda g, *a: app('cnt_' + g, *a, sort='I') if g != 'h' else summ(N_stages, Nfe)
        persys = lambda g: fes(lambda k, i: N_(n_sys, lambda s: N_(cn(g, s), lambda q: wo(IX(g, k, i, last(g), s, q)))))
        flat = lambda g: fes(lambda k, i: vcat('L', cat('L', n_sys, lambda s: N_(cn(g, s), lambda q: wo(IX(g, k, i, last(g), s, q))))))
        lk = sub(N_stages, ONE); li = sub(Nfe(lk), ONE)
        xl = fes(lambda k, i: N_(n_x, lambda q: wo(IX('x_cont', k, i, q))))
        x0 = one(X0)
        fesd = I.decide(var('opt_use_fesd', 'B')); I.decide(eq(var('opt_speed_of_time_variables', 'E:SpeedOfTimeVariableMode'), const(EnumM('SpeedOfTimeVariableMode', 'NONE'))))
        step = I.decide(eq(var('opt_pss_mode', 'E:PssMode'), const(EnumM('PssMode', 'STEP')))); pc = tuple(I.pcs)
        ts = N_(cn('h'), lambda q: wo(IX('h', q))) if fesd else vcat('L', cat('L', N_stages, lambda k: N_(Nfe(k), lambda i: div(div(var('opt_terminal_time', 'R'), N_stages), Nfe(k)))))
        exp = {'x_out': N_(cn('x'), lambda q: wo(IX('x', lk, li, last('x'), q))), 'x_list': vcat('L', xl), 'x_traj': vcat('L', vec('L', [x0]), xl),
               'x_all_list': vcat('L', vec('L', [x0]), cat('L', N_stages, lambda k: vcat('L', cat('L', Nfe(k), lambda i: N_(app('slots_x', sort='I'), lambda j: N_(cn('x'), lambda q: wo(IX('x', k, i, j, q)))))))),
               'u_list': N_(N_stages, lambda k: N_(cn('u'), lambda q: wo(IX('u', k, q)))), 'theta_list': vcat('L', persys('theta')), 'lambda_list': vcat('L', persys('lam')),
               'alpha_list': vcat('L', flat('alpha')), 'lambda_n_list': vcat('L', flat('lambda_n')), 'lambda_p_list': vcat('L', flat('lambda_p')),
               'z_list': vcat('L', fes(lambda k, i: N_(cn('z'), lambda q: wo(IX('z', k, i, last('z'), q))))), 'v_global': N_(cn('v_global'), lambda q: wo(IX('v_global', q))),
               'time_steps': ts}
        exp['u_traj'] = exp['u_list']
        def got(v):
            if isinstance(v, T): return v
            if isinstance(v, Ref):
                c = I.cell(v)
                if isinstance(c, (Seq, MatC)): return retag('L', c.rows) if isinstance(c, MatC) else retag('L', c.v)
            raise Unsupported(f'value of a result: {v!r}')
        for key, e in exp.items():
            O(f'C12 {key}', key in r and eq_deep(got(r[key]), e, pc), (r.get(key) and got(r[key]), e))
        sot = var('opt_speed_of_time_variables', 'E:SpeedOfTimeVariableMode')
        none = eq(sot, const(EnumM('SpeedOfTimeVariableMode', 'NONE')))
        if I.proves(none): O('C12 no speed of time', 'sot' not in r, r.get('sot'))
        elif I.proves(neg_c(none)): O('C12 sot', 'sot' in r and eq_deep(got(r['sot']), N_(cn('sot'), lambda q: wo(IX('sot', q))), pc), r.get('sot'))
        else: raise Unsupported('speed of time undetermined')
        # time grid: partial sums of the steps
        tgv = vcat('L', vec('L', [one(ZERO)]), asvec(I, libs.np_cumsum(I, I.seq('np', retag('N', ts)))))
        tg = lambda i: I.elem(tgv, i)
        O('C12 t_grid', 't_grid' in r and eq_deep(got(r['t_grid']), tgv, pc), r.get('t_grid') and got(r['t_grid']))
        O('C12 t_grid_u', 't_grid_u' in r and eq_deep(got(r['t_grid_u']), vec('L', [one(ZERO)] + list(fam_(I, N_stages, lambda k: tg(summ(add(k, ONE), Nfe))).args[1:])), pc), r.get('t_grid_u') and got(r['t_grid_u']))
        # switches: boundaries across which some weight changes
        sw = got(r['switch_times']) if 'switch_times' in r else None
        wl = exp['alpha_list'] if step else exp['theta_list']
        n1 = vlen(wl)
        F = I
        def jump(i):
            a, b = I.elem(wl, add(i, ONE)), I.elem(wl, i)
            A = libs.deep_flat(a); B = libs.deep_flat(b)
            d = I.zip_vec(A, B, lambda x, y: lt(num(Fraction(1, 10)), libs.tabs(sub(x, y))))
            return libs.exists(I, d)
        q = fresh('q')
        with I.fam(q, sub(n1, ONE)): j = jump(q); tq = tg(add(q, ONE))
        want = vec('L', [bind('cat', q, sub(n1, ONE), vec('L', [mk('opt', j, vec('L', [one(tq)]))]))])
        O('C12 switch_times', sw is not None and eq_deep(sw, want, pc), (sw, want))
        frame(S, I, o, nm, 'C12')
    verify(S, 'solver.get_results_from_primal_vector', setup, body, post, contracts={'solver.get_values_per_sys': c_valsys})


def fam_(I, n, f):
    k = fresh('k')
    with I.fam(k, n): b = f(k)
    return vec('L', [bind('gen', k, n, b)])


def eq_deep(a, b, pc): return eq_vec(a, b, pc)


def spec_accept(S, want):
    names = ['Solve_Succeeded', 'Solved_To_Acceptable_Level', 'Feasible_Point_Found', 'Search_Direction_Becomes_Too_Small']
    s = var('status', 'E:str')
    def body(I, o): return I.call(I.prog.module('utils').ns['check_ipopt_success'], [s])
    def post(S, I, o, out):
        ok = out[0] == 'return'
        good = disj(*[eq(s, const(n)) for n in names])
        r = lift(I.truth(out[1])) if ok else None
        S.oblige('check_ipopt_success: C11/C20 exactly the accepted IPOPT statuses', ok and prove(eqb(r, good), I.pcs), out)
    verify(S, 'utils.check_ipopt_success', lambda I: None, body, post)


def eqb(a, b): return conj(disj(neg_c(a), b), disj(neg_c(b), a))
