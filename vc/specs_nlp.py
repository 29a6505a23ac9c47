"""Contract of NosnocProblem.__init__ (with its helpers), over the contracts of the element class."""
from .ctx import *
from .spec import *
from .specs_prob import check_len, fresh_symbols, const_vec

solve.POS |= {'n_xs'}
solve.NONNEG |= {'n_fe_w', 'n_fe_g', 'n_slot_v', 'n_slot_s', 'n_blk', 'n_blkb', 'n_compv', 'n_gcc', 'n_zglob', 'n_ls'}
GROUPS2 = dict(ind_theta='theta', ind_lam='lam', ind_mu='mu', ind_alpha='alpha', ind_lambda_n='lambda_n', ind_lambda_p='lambda_p')


def F_(k, i): return app('FE', k, i, sort='O:FE')
FE0 = app('FE0', sort='O:FE')


def nslots(t, g): return app('n_ls', const(g), t, sort='I')
def nxs(t): return ONE if t is FE0 else app('n_xs', t, sort='I')
def slot_n(t, g, a, s): return app('n_slot_s', const(g), t, a, s, sort='I')
def IX(g, t, *ix): return app('IDX', const(g), t, *ix, sort='I')


def fe_lists(t):
    """index lists of an element (shapes by the contract of its constructor)"""
    d = {}
    for a, g in GROUPS2.items():
        d[a] = gen('L', nslots(t, g), lambda x, g=g: gen('L', n_sys, lambda s: gen('L', slot_n(t, g, x, s), lambda j: IX(g, t, x, s, j))))
    d['ind_x'] = gen('L', nxs(t), lambda x: gen('L', n_x, lambda j: IX('x', t, x, j)))
    for a, g in (('ind_v', 'v'), ('ind_z', 'z')):
        d[a] = gen('L', nslots(t, g), lambda x, g=g: gen('L', app('n_slot_v', const(g), t, x, sort='I'), lambda j: IX(g, t, x, j)))
    for a, g in (('ind_comp', 'comp'), ('ind_bool', 'bool')):
        d[a] = gen('L', app('n_blkb', const(g), t, sort='I'), lambda x, g=g: gen('L', app('n_blk', const(g), t, x, sort='I'), lambda j: IX(g, t, x, j)))
    return d


def called(I, t):
    """methods of an element that have been run when an attribute is read"""
    out = set()
    for e in I.events:
        if e.kind in ('fwd', 'ccc', 'steq'):
            f = e.d['fe']
            if f is t or (e.binders and f.op == 'app' and f.args[0] == 'FE'): out.add(e.kind)
    return out


class WT:
    """decision vector of an element: read by position; grows while complementarities are added"""
    kind = 'sx'
    def __init__(self, t, late): self.t, self.late = t, late
    def n(self): return app('n_fe_w' if self.late else 'n_fe_w_early', self.t, sort='I')
    def getitem(self, I, o, i):
        i = libs.un(I, i) if not isinstance(i, (slice, tuple)) else i
        if libs.isscalar(I, i): return app('w', self.t, num_of(I, i))
        if isinstance(i, slice): raise Unsupported('slice of an element vector')
        return I.seq('sx', I.map_vec(retag('S', asvec(I, i)), lambda x: app('w', self.t, x)))
    def getattr(self, I, o, a):
        if a == 'shape': return (self.n(), 1)
        raise Unsupported('w.' + a)
    def asvec(self, I, o): return gen('S', self.n(), lambda j: app('w', self.t, j))


def install_fe(I, fesd, hn):
    prog = I.prog.module('problem').ns
    def attr(I, t, a):
        z = t is FE0
        cls = prog['FiniteElementZero' if z else 'FiniteElement']
        m = cls.lookup(a)
        if isinstance(m, FuncVal): return BoundM(t, m)
        have = called(I, t)
        sfx = lambda need: '' if need <= have else '_early'
        if a == 'w': return I.new(OpaqueC(WT(t, z or {'ccc', 'steq'} <= have), None))
        if a in ('lbw', 'ubw', 'w0'):
            s = sfx({'ccc', 'steq'})
            return I.seq('np', gen('L', app('n_fe_w' + s, t, sort='I'), lambda j: app('fe_' + a + s, t, j)))
        L = fe_lists(t)
        if a in L:
            if a == 'ind_bool' and not {'ccc', 'steq'} <= have or a == 'ind_comp' and not {'ccc', 'steq'} <= have: raise Unsupported('index list read before it is complete')
            return I.seq('list', L[a])
        if z: raise PyRaise('AttributeError', a)
        k, i = t.args[2], t.args[3]
        if a == 'ind_h': return I.seq('list', vec('L', [one(IX('h', t))] if fesd else []))
        if a == 'h': return I.seq('sx', vec('S', [one(app('h', t))])) if fesd else I.seq('np', vec('N', [one(hn(k))]))
        if a == 'cost': return I.seq('sx', vec('S', [one(app('fe_cost' + sfx({'fwd', 'steq'}), t))]))
        if a in ('g', 'lbg', 'ubg'):
            s = sfx({'fwd', 'ccc', 'steq'})
            return I.seq('sx' if a == 'g' else 'np', gen('L', app('n_fe_g' + s, t, sort='I'), lambda j: app('fe_' + a + s, t, j)))
        if a == 'ctrl_idx': return k
        if a == 'fe_idx': return i
        if a == 'p': return I.seq('sx', S_('p_ctrl', add(n_pt, n_pg), k))
        if a == 'n_rkstages': return n_s
        raise Unsupported(f'attribute {a} of a finite element')
    I.obj_attr['O:FE'] = attr


def sc(I, v): return const(None) if v is None else num_of(I, v)


def c_fe(I, opts, model, ocp, ctrl_idx, fe_idx, prev_fe=None):
    k, i = num_of(I, ctrl_idx), num_of(I, fe_idx)
    I.emit('fe', k=k, i=i, prev=prev_fe, ok=const(repr([x.a for x in (opts, model, ocp)])))
    return F_(k, i)


def c_fe0(I, opts, model): return FE0


def c_fwd(I, s, ocp, Uk, sot): I.emit('fwd', fe=s, U=retag('L', asvec(I, Uk)), sot=sc(I, sot), ocp=const(ocp.a))
def c_ccc(I, s, sigma_p, tau, Uk, s_elastic): I.emit('ccc', fe=s, U=retag('L', asvec(I, Uk)), sigma=sc(I, sigma_p), tau=sc(I, tau), se=sc(I, s_elastic))
def c_steq(I, s, sigma_p, tau, s_elastic): I.emit('steq', fe=s, sigma=sc(I, sigma_p), tau=sc(I, tau), se=sc(I, s_elastic))
def c_compv(I, s): return I.seq('sx', gen('S', app('n_compv', s, sort='I'), lambda j: app('compv', s, j)))


def grow(I, s, **parts):
    for k, v in parts.items():
        c = I.cell(s)
        old = asvec(I, c.at[k])
        I.setattr(s, k, I.seq('sx' if k in ('w', 'g') else 'np', vcat('L', old, v)))


def c_pvar(I, s, symbolic, index, lb, ub, initial, stage=None, sys=None):
    """contract of add_variable on the problem"""
    if stage is not None: raise Unsupported('problem variable with a stage slot')
    sym, l, u, i0 = (asvec(I, x) for x in (symbolic, lb, ub, initial))
    n = vlen(sym); check_len(I, n, l, u, i0)
    nw = vlen(asvec(I, I.getattr(s, 'w')))
    g = group_of(I, s, index)
    grow(I, s, w=sym, lbw=l, ubw=u, w0=i0)
    I.list_append(index, I.seq('list', gen('L', n, lambda j: add(nw, j))))
    I.emit('pvar', g=g, start=nw, n=n, sym=retag('L', sym), lb=retag('L', l), ub=retag('L', u), init=retag('L', i0))


def c_prim(I, s, symbolic, lb, ub, initial):
    """contract of _add_primal_vector"""
    sym, l, u, i0 = (asvec(I, x) for x in (symbolic, lb, ub, initial))
    n = vlen(sym); check_len(I, n, l, u, i0)
    nw = vlen(asvec(I, I.getattr(s, 'w')))
    grow(I, s, w=sym, lbw=l, ubw=u, w0=i0)
    I.emit('prim', start=nw, n=n, sym=retag('L', sym), lb=retag('L', l), ub=retag('L', u), init=retag('L', i0))


def c_pcon(I, s, sym, lb=None, ub=None, index=None):
    v = asvec(I, sym)
    if index is not None: raise Unsupported('problem constraint with an index')
    z = lambda b: gen('L', vlen(v), lambda k: ZERO) if b is None else asvec(I, b)
    l, u = z(lb), z(ub)
    if not I.proves(le(vlen(v), ZERO)): check_len(I, vlen(v), l, u)
    ng = vlen(asvec(I, I.getattr(s, 'g')))
    grow(I, s, g=v, lbg=l, ubg=u)
    I.emit('con', sym=retag('L', v), lb=retag('L', l), ub=retag('L', u), start=ng)


N_GCC, N_ZG = app('n_gcc', sort='I'), app('n_zglob', sort='I')


def c_pcomp(I, s, x, y, sigma, tau, s_elastic):
    """contract of create_complementarity on the problem: adds rows (listed in ind_comp) and, in the boolean mode, binaries (listed in ind_bool)"""
    I.emit('gcomp', x=retag('L', I.vecof(x)), y=retag('L', asvec(I, y)), sigma=sc(I, sigma), tau=sc(I, tau), se=sc(I, s_elastic),
           ng=vlen(asvec(I, I.getattr(s, 'g'))))
    nw, ng = vlen(asvec(I, I.getattr(s, 'w'))), vlen(asvec(I, I.getattr(s, 'g')))
    G = lambda f, n: gen('L', n, lambda j: app(f, j))
    if I.decide(eq(var('opt_mpcc_mode', 'E:MpccMode'), const(EnumM('MpccMode', 'BOOLEAN')))):
        grow(I, s, w=G('zglob', N_ZG), lbw=G('zglob_lb', N_ZG), ubw=G('zglob_ub', N_ZG), w0=G('zglob_0', N_ZG))
        append_to(I, I.getattr(s, 'ind_bool'), I.seq('list', gen('L', N_ZG, lambda j: add(nw, j))))
    if isinstance(I.cell(I.getattr(s, 'ind_comp')), OpaqueC):
        grow(I, s, g=G('gcc', N_GCC), lbg=G('gcc_lb', N_GCC), ubg=G('gcc_ub', N_GCC))
        n0 = len(I.events)
        append_to(I, I.getattr(s, 'ind_comp'), I.seq('list', gen('L', N_GCC, lambda j: add(ng, j))))
        for e in I.events[n0:]: e.guard = conj(e.guard, lt(ZERO, N_GCC))
    elif I.decide(lt(ZERO, N_GCC)):
        grow(I, s, g=G('gcc', N_GCC), lbg=G('gcc_lb', N_GCC), ubg=G('gcc_ub', N_GCC))
        append_to(I, I.getattr(s, 'ind_comp'), I.seq('list', gen('L', N_GCC, lambda j: add(ng, j))))


def inc_tree(I, t, c):
    """every integer of a nested list raised by c"""
    if t.op != 'vec': return add(t, c)
    out = []
    for s in t.args[1:]:
        if s.op == 'one': out.append(one(inc_tree(I, s.args[0], c)))
        elif s.op == 'gen':
            k = fresh('i'); out.append(bind('gen', k, s.args[0], inc_tree(I, open_(s, k), c)))
        elif s.op == 'cat':
            k = fresh('i'); out.append(bind('cat', k, s.args[0], inc_tree(I, open_(s, k), c)))
        else: raise Unsupported('increment_indices')
    return vec('L', out)


def c_increment(I, L, inc): return I.seq('list', inc_tree(I, I.vecof(L), num_of(I, inc)))


class GroupList:
    """a list with one (initially empty) list per control stage; appends are recorded in order"""
    kind = 'list'
    def __init__(self, token, n): self.token, self.n = token, n
    def getitem(self, I, o, i):
        if isinstance(i, (slice, tuple)): raise Unsupported('slice of an index group')
        return I.new(OpaqueC(GroupRow(self, I.index(self.n, num_of(I, i))), None))
    def getattr(self, I, o, a):
        if a == 'append': return lambda II, v: II.emit('gtop', tok=const(self.token), val=v)
        raise Unsupported('index group.' + a)
    def length(self, I, o): return unlift(self.n)


class GroupRow:
    kind = 'list'
    def __init__(self, g, k): self.g, self.k = g, k
    def getattr(self, I, o, a):
        if a == 'append': return lambda II, v: II.emit('gapp', tok=const(self.g.token), row=self.k, val=v)
        raise Unsupported('index group row.' + a)
    def getitem(self, I, o, i): raise Unsupported('index group row read')


def c_empty(I, dims):
    d = dims if isinstance(dims, tuple) else None
    if d is None or len(d) != 1: return NotImplemented
    return I.new(OpaqueC(GroupList(f'group{next(I.uid)}', num_of(I, d[0])), None))


def append_to(I, index, v):
    c = I.cell(index)
    if isinstance(c, OpaqueC): I.call(c.h.getattr(I, index, 'append'), [v])
    else: I.list_append(index, v)


P_ = 'problem.NosnocProblem.'
CON = {'problem.FiniteElement': c_fe, 'problem.FiniteElementZero': c_fe0, 'problem.FiniteElement.forward_simulation': c_fwd,
       'problem.FiniteElement.create_complementarity_constraints': c_ccc, 'problem.FiniteElement.step_equilibration': c_steq,
       'problem.FiniteElement.get_complementarity_vector': c_compv, FO + 'add_variable': c_pvar, FO + 'add_constraint': c_pcon,
       FO + 'create_complementarity': c_pcomp, P_ + '_add_primal_vector': c_prim, 'utils.increment_indices': c_increment, 'utils.create_empty_list_matrix': c_empty}


def ew(x): return vec('L', [one(x)])


def spec_problem(S, want, fix=None):
    nm = 'NosnocProblem.__init__'
    def setup(I):
        o = type('O', (), {})()
        o.opts, o.model, o.ocp = mk_opts(I), mk_model(I, True), mk_ocp(I)
        for r, m, c in ((o.model, 'model', 'NosnocModel'), (o.ocp, 'ocp', 'NosnocOcp')):
            I.setcell(r, InstC(I.prog.module(m).ns[c], I.cell(r).at))
        install_funs(I, True)
        o.fesd = I.decide(var('opt_use_fesd', 'B'))
        o.T = var('opt_terminal_time', 'R')
        o.hn = lambda k: div(o.T, mul(N_stages, Nfe(k)))
        install_fe(I, o.fesd, o.hn)
        o.lam0 = lam0(I)
        o.trivial = var('no_ocp', 'B')
        def c_ocp(I, *a, **k): return o.ocp
        def c_pre(I, s, model): I.emit('preocp', ocp=const(s.a), model=const(model.a))
        I.contracts['ocp.NosnocOcp'] = c_ocp
        I.contracts['ocp.NosnocOcp.preprocess_ocp'] = c_pre
        return o
    def body(I, o):
        cls = I.prog.module('problem').ns['NosnocProblem']
        o.ref = I.new(InstC(cls, {}))
        return I.call(cls.lookup('__init__'), [o.ref, o.opts, o.model, ite(o.trivial, const(None), I.freeze(o.ocp))])
    def post(S, I, o, out): post_problem(S, I, o, out, nm)
    verify(S, 'problem.NosnocProblem.__init__', setup, body, post, contracts=CON)


def post_problem(S, I, o, out, nm):
    mode = var('opt_mpcc_mode', 'E:MpccMode')
    is_ = lambda *ns: disj(*[eq(mode, const(EnumM('MpccMode', m))) for m in ns])
    sots = lambda n: eq(var('opt_speed_of_time_variables', 'E:SpeedOfTimeVariableMode'), const(EnumM('SpeedOfTimeVariableMode', n)))
    if out[0] == 'return':      # a code that does not distinguish these has to be right in either case
        for c in (eq(var('opt_constraint_handling', 'E:ConstraintHandling'), const(EnumM('ConstraintHandling', 'LEAST_SQUARES'))), is_('ELASTIC_TWO_SIDED', 'ELASTIC_EQ', 'ELASTIC_INEQ'), is_('BOOLEAN'), sots('NONE'), sots('LOCAL'), var('opt_equidistant_control_grid', 'B'), var('opt_time_freezing', 'B')): I.decide(c)
    pc = I.pcs
    O = lambda name, ok, d='': S.oblige(f'{nm}: {name}', ok, d)
    at = I.cell(o.ref).at
    lsq = eq(var('opt_constraint_handling', 'E:ConstraintHandling'), const(EnumM('ConstraintHandling', 'LEAST_SQUARES')))
    if out[0] != 'return':
        ok = I.proves(lsq) and 'lbg' in at
        wit = False
        if ok:
            ms = {v for c in pc for v in c.fv if v.args[0].startswith('m!')}
            L, U = asvec(I, at['lbg']), asvec(I, at['ubg'])
            for m in ms:
                F = FakeI(pc)
                try: extra = (eq(F.elem(L, m), ZERO), eq(F.elem(U, m), ZERO))
                except (Unsupported, PyRaise): continue
                if prove(FALSE, tuple(simp(c, pc) if False else c for c in pc) + extra): wit = True
        if ok and not wit:
            wit = refuted(conj(*[c for c in pc if c.op in ('or', 'exi')]), tuple(pc) + tuple(row_zero(r) for r in bound_rows(I)))
        O('C01/C02/C15/C18/C19 refuses only least-squares handling of a constraint that is not an equality to zero', ok and wit, f'{out} {pc}')
        return
    evs = lambda k: [e for e in I.events if e.kind == k]
    rows = lambda k: [Row(e.binders, e.guard, e.d) for e in evs(k)]
    known = {'fe', 'fwd', 'ccc', 'steq', 'con', 'gcomp', 'pvar', 'prim', 'gapp', 'gtop', 'preocp'}
    O('effects of known kind', all(e.kind in known for e in I.events), [e.kind for e in I.events])
    elastic = I.proves(is_('ELASTIC_TWO_SIDED', 'ELASTIC_EQ', 'ELASTIC_INEQ'))
    boolean = I.proves(is_('BOOLEAN'))
    sotm = lambda n: I.proves(eq(var('opt_speed_of_time_variables', 'E:SpeedOfTimeVariableMode'), const(EnumM('SpeedOfTimeVariableMode', n))))
    eqd = I.proves(var('opt_equidistant_control_grid', 'B')); tf = I.proves(var('opt_time_freezing', 'B'))
    k, i = fresh('k'), fresh('i')
    B = [(k, N_stages), (i, Nfe(k))]
    pk = pc + (le(ZERO, k), lt(k, N_stages)); pki = pk + (le(ZERO, i), lt(i, Nfe(k)))
    fe = F_(k, i)
    # ---------------------------------------------------------------- variables of the problem itself
    V = lambda f, n: gen('L', n, lambda j: app(f, j))
    R = lambda n: var('opt_' + n, 'R')
    c1 = lambda t: const_vec(ONE, t)
    ex = []
    def P(tag, grp, binders, n, lb, ub, init): ex.append(Row(binders, TRUE, dict(g=const(grp), n=n, lb=lb, ub=ub, init=init), tag))
    if elastic: P('elastic slack', 'ind_elastic', [], ONE, c1(R('s_elastic_min')), c1(R('s_elastic_max')), c1(R('s_elastic_0')))
    P('global variables', 'ind_v_global', [], n_v, V('lbv', n_v), V('ubv', n_v), V('v_guess', n_v))
    sb = [] if sotm('GLOBAL') else [(k, N_stages)] if sotm('LOCAL') else None
    if sb is not None: P('speed of time', 'ind_sot', sb, ONE, c1(R('speed_of_time_min')), c1(R('speed_of_time_max')), c1(ONE))
    P('control', 'ind_u', [(k, N_stages)], n_u, V('lbu', n_u), V('ubu', n_u), V('u_guess', n_u))
    tagd = lambda t: [Row(r.binders, r.guard, r.d, f'{t} {r.tag}') for r in ex]
    pv = rows('pvar')
    slot = lambda x, y, p: x['g'] is y['g'] and equal(x['n'], y['n'], p)
    match(S, nm + ' variables', pv, tagd('C01'), pc, slot)
    match(S, nm + ' bounds and guesses', pv, tagd('C02'), pc, lambda x, y, p: slot(x, y, p) and all(eq_vec(x[q], y[q], p) for q in ('lb', 'ub', 'init')))
    by = lambda g: [e for e in evs('pvar') if e.d['g'] is const(g)]
    fresh_symbols(S, I, nm, [e for e in evs('pvar') if e.d['g'] is not const('ind_v_global')])
    for e in by('ind_v_global'): O('C01/C10/C15 the global variables are those of the model', eq_vec(e.d['sym'], gen('L', n_v, lambda j: app('v_global', j)), pc), e.d['sym'])
    def block(g, q):
        """symbols and start of the block of group g at stage q"""
        es = by(g)
        if len(es) != 1: return None, None
        e = es[0]
        m = {e.binders[0][0]: q} if e.binders else {}
        return subst(e.d['sym'], m), subst(e.d['start'], m)
    # ---------------------------------------------------------------- elements
    prev = ite(eq(i, ZERO), ite(eq(k, ZERO), FE0, F_(sub(k, ONE), sub(Nfe(sub(k, ONE)), ONE))), F_(k, sub(i, ONE)))
    okr = const(repr([o.opts.a, o.model.a, o.ocp.a]))
    def cmp_fe(x, y, p):
        if not (equal(x['k'], y['k'], p) and equal(x['i'], y['i'], p) and x['ok'] is y['ok']): return False
        return same_obj(x['prev'], y['prev'], p)
    match(S, nm + ' elements', rows('fe'), [Row(B, TRUE, dict(k=k, i=i, prev=prev, ok=okr), 'C01/C03/C05/C08/C10 every element is built once, after its predecessor')], pc, cmp_fe)
    st = gen('L', N_stages, lambda a: gen('L', Nfe(a), lambda b: F_(a, b)))
    O('C01/C05/C07/C08/C15 the stages hold the elements in order', eq_vec(I.vecof(at['stages']), st, pc), I.vecof(at['stages']))
    U, _ = block('ind_u', k)
    se, _ = block('ind_elastic', k) if elastic else (None, None)
    se = const(None) if not elastic else se.args[1].args[0] if se is not None else const('?')
    sot, _ = block('ind_sot', k) if sb is not None else (None, None)
    sot = ONE if sb is None else sot.args[1].args[0] if sot is not None else const('?')
    cs = evs('ccc')
    sigma, tau = (cs[0].d['sigma'], cs[0].d['tau']) if cs else (const('?'), const('?'))
    O('C06/C10/C11 relaxation parameters are two fresh symbols', all(t.op == 'app' and t.args[0] == 'sym' for t in (sigma, tau)) and sigma is not tau and sigma.fv == frozenset() == tau.fv, (sigma, tau))
    if U is not None:
        match(S, nm + ' discretisation', rows('fwd'), [Row(B, TRUE, dict(fe=fe, U=U, sot=sot, ocp=const(o.ocp.a)), 'C03/C07/C15 every element is discretised once with its control and speed of time')], pc, cmp_args)
        match(S, nm + ' complementarities', rows('ccc'), [Row(B, TRUE, dict(fe=fe, U=U, sigma=sigma, tau=tau, se=se), 'C05/C06/C15 every element adds its complementarities once')], pc, cmp_args)
    match(S, nm + ' equilibration', rows('steq'), [Row(B, TRUE, dict(fe=fe, sigma=sigma, tau=tau, se=se), 'C08 every element adds its equilibration once')], pc, cmp_args)
    gc = lambda q: gen('S', var('n_glc'), lambda j: app('ocp.g_global_comp_fun', gen('S', n_pg, lambda r: app('p_ctrl', ZERO, add(n_pt, r))), S_('v_global', n_v), j, num(q)))
    from .specs_fe import cmp_comp
    base = dict(sigma=sigma, tau=tau, se=se)
    act = [Row(e.binders, e.guard, {q: e.d[q] for q in ('sigma', 'tau', 'se', 'x', 'y')}) for e in evs('gcomp')]
    match(S, nm + ' global complementarity', act, [Row([], TRUE, dict(base, x=ew(gc(0)), y=retag('L', gc(1))), 'C10/C15 global complementarities once')], pc, cmp_comp)
    # ---------------------------------------------------------------- constraints
    T_ = o.T; exr = []
    G = lambda f: gen('L', app('n_fe_g', fe, sort='I'), lambda j: app(f, fe, j))
    exr += exp_rows(G('fe_g'), G('fe_lbg'), G('fe_ubg'), binders=B, tag='C01/C03/C05/C06/C08/C15 the constraints of every element', pcs=pki)
    h = lambda a, b: app('h', F_(a, b)) if o.fesd else o.hn(a)
    if o.fesd and eqd: exr += exp_rows(ew(sub(summ(Nfe(k), lambda b: h(k, b)), div(T_, N_stages))), binders=[(k, N_stages)], tag='C07 steps of a stage sum to its length', pcs=pk)
    if o.fesd and not eqd: exr += exp_rows(ew(sub(summ(N_stages, lambda a: summ(Nfe(a), lambda b: h(a, b))), T_)), tag='C07 all steps sum to the horizon', pcs=pc)
    xend = lambda f: gen('S', n_x, lambda j: app('w', f, IX('x', f, sub(nxs(f), ONE), j)))
    if tf and eqd:
        t_ = lambda f: app('model.t_fun', xend(f), ZERO)
        last = F_(k, sub(Nfe(k), ONE)); tol = R('time_freezing_tolerance')
        exr += exp_rows(ew(sub(t_(last), add(mul(div(T_, N_stages), add(k, ONE)), t_(FE0)))), ew(neg(tol)), ew(tol), binders=[(k, N_stages)], tag='C07 clock at the end of a stage', pcs=pk)
    kl = sub(N_stages, ONE); fl = F_(kl, sub(Nfe(kl), ONE))
    pl = S_('p_ctrl', add(n_pt, n_pg), kl); vg = S_('v_global', n_v)
    exr += exp_rows(app_fun('ocp.g_terminal_fun', [xend(fl), pl, vg], var('n_gT')), tag='C10/C15 terminal constraint', pcs=pc)
    match(S, nm + ' constraints', con_rows(I), exr, pc)
    # ---------------------------------------------------------------- objective
    cost = add(summ(N_stages, lambda a: summ(Nfe(a), lambda b: app('fe_cost', F_(a, b)))), app('ocp.f_q_T_fun', xend(fl), pl, vg, ZERO))
    if elastic: cost = add(cost, div(se, sigma)) if I.proves(var('opt_objective_scaling_direct', 'B')) else add(mul(sigma, cost), se) if I.proves(neg_c(var('opt_objective_scaling_direct', 'B'))) else ite(var('opt_objective_scaling_direct', 'B'), add(cost, div(se, sigma)), add(mul(sigma, cost), se))
    g_at = 'g'
    total = ZERO
    def length(kinds, field):
        t = ZERO
        for e in I.events:
            if e.kind in kinds:
                x = vlen(e.d[field]) if field == 'sym' else e.d[field]
                for v, n in reversed(e.binders): x = summ(n, lambda q, v=v, x=x: subst(x, {v: q}))
                t = add(t, ite(e.guard, x, ZERO))
        return t
    ng = add(length(('con',), 'sym'), N_GCC if evs('gcomp') else ZERO)
    nw = add(length(('pvar', 'prim'), 'n'), N_ZG if boolean and evs('gcomp') else ZERO)
    is_lsq = I.proves(lsq)
    fcost = fun_out(S, at, 'cost_fun', I)
    cost_txt = num_of(I, at['cost'])
    if is_lsq:
        Gv = asvec(I, at['g_lsq']) if 'g_lsq' in at else None
        O('C19 the residuals stay available', Gv is not None and equal(vlen(Gv), ng, pc), at.get('g_lsq'))
        for q in ('g', 'lbg', 'ubg'): O(f'C19 no constraint remains ({q})', eq_vec(asvec(I, at[q]), vec('L', []), pc), at[q])
        if Gv is not None:
            F = FakeI(pc)
            sq = summ(vlen(Gv), lambda j: power(elm(F, Gv, j), 2))
            O('C10/C15/C19 the objective is the original one plus all squared residuals', equal(cost_txt, add(cost, sq), pc), f'{cost_txt!r}\nexpected {add(cost, sq)!r}')
        al = [c for c in pc if c.op == 'all']
        okall = False
        for c in al:
            m = fresh('m'); b = open_(c, m)
            if equal(c.args[0], ng, pc): okall = okall or zero_bounds(b, m, I)
        if not okall:
            al = pc + tuple(neg_all(c) for c in pc if c.op == 'not')
            okall = all(holds_all(row_zero(r), al) for r in con_rows(I))
        O('C19 every constraint is an equality to zero', okall, pc)
    else:
        O('C06/C08/C10/C15 the objective is running, terminal and elastic cost', equal(cost_txt, cost, pc), f'{cost_txt!r}\nexpected {cost!r}')
        for q in ('g', 'lbg', 'ubg'): O(f'C01 length of {q}', equal(vlen(asvec(I, at[q])), ng, pc), f'{vlen(asvec(I, at[q]))!r} {ng!r}')
    for q in ('w', 'lbw', 'ubw', 'w0'): O(f'C01/C19 length of {q}', equal(vlen(asvec(I, at[q])), nw, pc), f'{vlen(asvec(I, at[q]))!r} {nw!r}')
    # ---------------------------------------------------------------- decision vector and index groups
    w = lambda f: gen('L', app('n_fe_w', fe, sort='I'), lambda j: app(f, fe, j))
    match(S, nm + ' element variables', rows('prim'), [Row(B, TRUE, dict(n=app('n_fe_w', fe, sort='I'), sym=w('w'), lb=w('fe_lbw'), ub=w('fe_ubw'), init=w('fe_w0')),
          'C01/C02 the variables of every element appear once with their bounds and guesses')], pc, lambda x, y, p: all(eq_vec(x[q], y[q], p) if q != 'n' else equal(x[q], y[q], p) for q in y))
    pr, ce = evs('prim'), [e for e in evs('con') if len(e.binders) == 2]
    def start_of(es):
        if len(es) != 1 or len(es[0].binders) != 2: return None
        (a, _), (b, _) = es[0].binders
        return subst(es[0].d['start'], {a: k, b: i})
    sw, sg = start_of(pr), start_of(ce)
    fl_ = fe_lists(fe)
    groups = {q: fl_[q] for q in fl_}
    groups['ind_x_cont'] = gen('L', n_x, lambda j: IX('x', fe, sub(nxs(fe), ONE), j))
    for g, t in groups.items():
        off = sg if g == 'ind_comp' else sw
        tag = 'C06' if g == 'ind_comp' else 'C01/C12' if g == 'ind_x_cont' else 'C01'
        if off is None: continue
        c = I.cell(at[g])
        if isinstance(c, OpaqueC):
            tok = const(c.h.token)
            ga = [Row(e.binders, e.guard, dict(row=e.d['row'], val=e.d['val'])) for e in evs('gapp') if e.d['tok'] is tok]
            O(f'{tag} {g} keeps the order of the elements', len(ga) == 1 and len(ga[0].binders) == 2 and ga[0].d['row'] is ga[0].binders[0][0], ga)
            match(S, f'{nm} {g}', ga, [Row(B, TRUE, dict(row=k, val=inc_tree(I, t, off)), f'{tag} names the variables of every element in their places')], pc,
                  lambda x, y, p: equal(x['row'], y['row'], p) and eq_vec(x['val'], y['val'], p))
            tops = [e for e in evs('gtop') if e.d['tok'] is tok]
            tops = [e for e in tops if e.guard is not FALSE]
            want_ = (TRUE if boolean else FALSE) if g == 'ind_bool' else lt(ZERO, N_GCC) if g == 'ind_comp' and evs('gcomp') else FALSE
            O(f'{tag} {g} has no further entries', (len(tops) == 1 and not tops[0].binders and tops[0].guard is want_) if want_ is not FALSE else not tops, tops)
        else:
            kk = fresh('k')
            want_ = gen('L', N_stages, lambda a: gen('L', Nfe(a), lambda b: subst(inc_tree(I, t, off), {k: a, i: b})))
            O(f'{tag} {g} names the variables of every element in their places', eq_vec(I.vecof(at[g]), want_, pc), I.vecof(at[g]))
    if sw is not None:
        hh = cat('L', N_stages, lambda a: gen('L', Nfe(a), lambda b: subst(add(sw, IX('h', fe)), {k: a, i: b}))) if o.fesd else vec('L', [])
        O('C01/C07 ind_h names the step sizes of all elements in time order', eq_vec(I.vecof(at['ind_h']), hh, pc), I.vecof(at['ind_h']))
    def places(g, bs):
        if bs is None: return vec('L', [])
        sy, s0 = block(g, k)
        if s0 is None: return const('?')
        n = vlen(sy)
        r = gen('L', n, lambda j: add(s0, j))
        return ew(r) if not bs else gen('L', N_stages, lambda a: subst(r, {k: a}))
    for g, bs in (('ind_u', [1]), ('ind_sot', None if sb is None else sb), ('ind_v_global', []), ('ind_elastic', [] if elastic else None)):
        want_ = places(g, bs)
        O(f'C01 {g} names its variables', want_.op == 'vec' and eq_vec(I.vecof(at[g]), want_, pc), f'{I.vecof(at[g])!r} expected {want_!r}')
    # ---------------------------------------------------------------- parameters and functions
    p = asvec(I, at['p'])
    z = lambda g: cat('S', nslots_one(), lambda x: cat('S', n_sys, lambda s: gen('S', slot_n(FE0, g, x, s), lambda j: app('w', FE0, IX(g, FE0, x, s, j)))))
    x0 = xend(FE0)
    pexp = vcat('L', cat('L', N_stages, lambda a: gen('L', add(n_pt, n_pg), lambda j: app('p_ctrl', a, j))), ew(sigma), ew(tau), o.lam0, x0)
    O('C03/C10 the parameter vector is stage parameters, relaxation, initial multipliers and initial state', eq_vec(retag('L', p), pexp, pc), f'{p!r}\nexpected {pexp!r}')
    wv_ = asvec(I, at['w'])
    for f in ('cost_fun', 'comp_res', 'g_fun'):
        q = at.get(f)
        ok = isinstance(q, libs.FuncSX) and len(q.ins) == 2 and len(q.outs) == 1 and q.ins[0].op == 'vec' and eq_vec(retag('L', q.ins[0]), retag('L', wv_), pc) and eq_vec(retag('L', q.ins[1]), retag('L', p), pc)
        O(f'C05/C10/C11/C12/C15/C19 {f} is a function of all variables and parameters', ok, q)
        if not ok: continue
        v = q.outs[0]
        if f == 'cost_fun': O('C10/C11/C15/C19 cost function is the original objective', equal(one_of(v), cost, pc), v)
        if f == 'g_fun': O('C15/C19 constraint function holds all original constraints', equal(vlen(v), ng, pc), vlen(v))
        if f == 'comp_res':
            t = one_of(v)
            ok = t.op == 'app' and t.args[0] == 'maxof'
            O('C05/C11 the residual is a maximum', ok, t)
            if ok:
                act = split([t.args[2]], [], TRUE, ['e'], None, pc)
                want_ = split([gen('L', app('n_compv', fe, sort='I'), lambda j: app('compv', fe, j))], B, TRUE, ['e'], 'C05/C11 the products of every element', pki)
                match(S, nm + ' residual', act, want_, pc, cmp_all)
    O('C11/C13/C20 the original guess is kept', 'w0_original' in at and eq_vec(asvec(I, at['w0_original']), asvec(I, at['w0']), pc), at.get('w0_original'))
    O('C10/C14/C15 model, options and control problem are the given ones', at['model'] == o.model and at['opts'] == o.opts and at['ocp'] == o.ocp and equal(lift(I.truth(at['ocp_trivial'])), o.trivial, pc) and at['fe0'] is FE0, at)
    pe = evs('preocp')
    O('C15/C18 the control problem is completed before use', len(pe) == 1 and I.events[0] is pe[0] and not pe[0].binders and pe[0].d['ocp'] is const(o.ocp.a) and pe[0].d['model'] is const(o.model.a), pe)


def nslots_one(): return ONE


def lam0(I):
    """initial multipliers in the order the problem consumes them"""
    r = I.call(I.prog.module('problem').ns['FiniteElementBase'].lookup('Lambda'), [FE0])
    return retag('L', asvec(I, r))


def one_of(v):
    if v.op == 'vec' and len(v.args) == 2 and v.args[1].op == 'one': return v.args[1].args[0]
    return v


def elm(F, v, j):
    with F.fam(j, vlen(v)): return F.elem(v, j)


def fun_out(S, at, f, I): return None


def zero_bounds(b, m, I):
    """the quantified condition forces both bounds of row m to zero"""
    cs = b.args if b.op == 'and' else [b]
    seen = set()
    for c in cs:
        if c.op == 'eq0' and c.args[0].op == 'app' and c.args[0].args[0] == 'el' and c.args[0].args[-1] is m:
            s = repr(c.args[0].args[2])
            seen.add('ub' if 'ubg' in s else 'lb')
    return seen == {'lb', 'ub'}


def bound_rows(I):
    """every constraint of the problem, those added by the global complementarities included"""
    out = list(con_rows(I))
    for e in I.events:
        if e.kind == 'gcomp':
            j = fresh('j'); out.append(Row(list(e.binders) + [(j, app('n_gcc', sort='I'))], e.guard, dict(lb=app('gcc_lb', j), ub=app('gcc_ub', j))))
    return out


def row_zero(r):
    """both bounds of a family of constraint rows are zero"""
    c = conj(eq(r.d['lb'], ZERO), eq(r.d['ub'], ZERO))
    if r.guard is not TRUE: c = disj(neg_c(r.guard), c)
    for v, n in reversed(r.binders): c = bind('all', v, n, c) if c is not TRUE else c
    return c


def neg_all(c):
    """the negation of an existential statement as a universal one"""
    if c.op == 'not' and c.args[0].op == 'exi':
        k = fresh('k'); e = c.args[0]
        return bind('all', k, e.args[0], neg_all(neg_c(open_(e, k))))
    if c.op == 'not' and c.args[0].op == 'or': return conj(*[neg_all(neg_c(d)) for d in c.args[0].args])
    if c.op == 'and': return conj(*[neg_all(d) for d in c.args])
    return c


def holds_all(c, pc):
    """prove a universally quantified statement from quantified hypotheses"""
    if c.op == 'and': return all(holds_all(d, pc) for d in c.args)
    if c.op == 'all':
        k = fresh('k'); F = FakeI(pc)
        with F.fam(k, c.args[0]): return holds_all(open_(c, k), F.pcs)
    return prove(c, pc)


def refuted(c, pc):
    """the condition, existential parts included, contradicts the hypotheses"""
    if c.op == 'or': return all(refuted(d, pc) for d in c.args)
    if c.op == 'and': return any(refuted(d, pc) for d in c.args)
    if c.op == 'exi':
        k = fresh('k'); F = FakeI(pc)
        with F.fam(k, c.args[0]): return refuted(open_(c, k), F.pcs)
    return prove(neg_c(c), tuple(pc))


def same_obj(x, y, p):
    if x is y: return True
    if x.op == 'ite':
        return all(prove(FALSE, p + (c,)) or same_obj(v, y, p + (c,)) for c, v in ((x.args[0], x.args[1]), (neg_c(x.args[0]), x.args[2])))
    if y.op == 'ite': return same_obj(y, x, p)
    if x.op == y.op == 'app' and x.args[0] == y.args[0] == 'FE': return equal(x.args[2], y.args[2], p) and equal(x.args[3], y.args[3], p)
    return simp(x, p) is simp(y, p)


def cmp_args(x, y, p):
    for q in y:
        a, b = x[q], y[q]
        if a.op == 'vec' or b.op == 'vec':
            if not (a.op == b.op and eq_vec(a, b, p)): return False
        elif q == 'fe':
            if not same_obj(a, b, p): return False
        elif a is not b and not equal(a, b, p): return False
    return True
