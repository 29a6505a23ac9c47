"""Contract of NosnocOpts.preprocess: what the options mean after completion (C04, C07, C17)."""
import ast
from .ctx import *
from .spec import *

NM = 'NosnocOpts.preprocess'
RADAU = eq(var('opt_irk_scheme', 'E:IrkSchemes'), const(EnumM('IrkSchemes', 'RADAU_IIA')))
solve.NONNEG |= {'n_nfe'}
TOLS = ('tol', 'dual_inf_tol', 'compl_inf_tol', 'mu_target')


def c_table(integral):
    """contract of the coefficient generators, proved in specs_rk for every stage count"""
    def f(I, n, scheme):
        n = num_of(I, n)
        ok = conj(le(ONE, n), le(n, num(9)))
        if not I.decide(ok): raise PyRaise('Exception', 'stage count not offered')
        sch = scheme if isinstance(scheme, T) else const(scheme)
        I.emit('table', integral=const(integral), n=n, scheme=sch)
        m = add(n, ONE) if integral else n
        nodes = gen('N', m, lambda i: app('node', i))
        last = app('node', sub(m, ONE))
        rad = eq(sch, const(EnumM('IrkSchemes', 'RADAU_IIA')))
        tiny = num(Fraction(1, 10 ** 12))
        if I.decide(rad): I.assume(le(sub(last, ONE), tiny)); I.assume(le(sub(ONE, last), tiny))
        else: I.assume(le(last, num(Fraction(99, 100)))); I.assume(le(ZERO, last))
        V = lambda t: I.seq('np', gen('N', m, lambda i: app(t, i)))
        M = lambda t: I.new(MatC('np', m, gen('L', m, lambda i: gen('N', m, lambda j: app(t, i, j)))))
        if integral: return (V('tB'), M('tC'), V('tD'), I.seq('np', nodes))
        return (M('tA'), V('tb'), I.seq('np', nodes), app('t_order', sort='I'))
    return f


PURE = {'isinstance', 'getattr', 'get_origin', 'get_args', 'type', 'TypeError', 'items', 'len', 'str', 'repr', 'hasattr', 'ValueError', 'Exception', 'print', 'values', 'keys'}


def effect_free(S, fn, node):
    """frame condition by construction: only local names are assigned and only pure functions are called"""
    bad = []
    for x in ast.walk(node):
        if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.comprehension, ast.NamedExpr)):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target]
            for t in ts:
                if isinstance(x, ast.AugAssign) or any(isinstance(q, (ast.Attribute, ast.Subscript)) for q in ast.walk(t)): bad.append(ast.unparse(x)[:80])
        if isinstance(x, (ast.Delete, ast.Global, ast.Nonlocal, ast.Yield, ast.With, ast.Import, ast.ImportFrom)): bad.append(ast.unparse(x)[:80])
        if isinstance(x, ast.Call):
            n = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else '?'
            if n not in PURE: bad.append(ast.unparse(x)[:80])
    return bad


def spec_opts(S, want):
    def setup(I):
        o = type('O', (), {})()
        prog = I.prog
        cls = prog.module('nosnoc_opts').ns['NosnocOpts']
        at = {}
        for s in cls.node.body:
            if isinstance(s, ast.AnnAssign):
                v = opt_value(I, prog, s.target.id)
                if v is not NotImplemented: at[s.target.id] = v
        at['Nfe_list'] = I.seq('list', gen('L', var('n_nfe'), lambda k: app('Nfe_given', k, sort='I')))
        o.tolset = I.decide(var('tol_given', 'B'))
        o.ipopt = I.new(DictC({'sb': 'yes', 'tol': var('tol0', 'R') if o.tolset else None, 'dual_inf_tol': var('tol1', 'R'), 'compl_inf_tol': var('tol2', 'R'),
                               'max_iter': var('ipopt_max_iter', 'I'), 'other': var('ipopt_other', 'R')}))
        o.nlp = I.new(DictC({'print_time': ZERO, 'ipopt': o.ipopt, 'other': var('nlp_other', 'R')}))
        at['opts_casadi_nlp'] = o.nlp
        o.before = dict(at); o.nfe = I.cell(at['Nfe_list']).v
        o.ip0 = dict(I.cell(o.ipopt).d); o.nlp0 = dict(I.cell(o.nlp).d)
        o.ref = I.new(InstC(cls, at))
        I.assume(le(ONE, var('opt_N_stages')))
        return o
    def body(I, o): return I.call(I.prog.module('nosnoc_opts').ns['NosnocOpts'].lookup('preprocess'), [o.ref])
    def post(S, I, o, out):
        if out[0] == 'return':
            I.decide(eq(var('opt_irk_representation', 'E:IrkRepresentation'), const(EnumM('IrkRepresentation', 'INTEGRAL')))); I.decide(eq(var('n_nfe'), ZERO))
        pc = tuple(I.pcs)
        O = lambda n, ok, d='': S.oblige(f'{NM}: {n}', ok, d)
        if out[0] == 'raise':
            n = var('opt_n_s', 'I')
            O('C04/C07/C17 completion fails only for stage counts that are not offered', prove(neg_c(conj(le(ONE, n), le(n, num(9)))), pc), (out, pc))
            return
        at = I.cell(o.ref).at
        wr = {'max_iter_homotopy', 'Nfe_list', 'B_irk', 'C_irk', 'D_irk', 'A_irk', 'b_irk', 'irk_time_points', 'right_boundary_point_explicit'}
        ch = [k for k in o.before if k not in wr and at.get(k) is not o.before[k] and at.get(k) != o.before[k]]
        O('C04/C07/C17 no option given by the user is replaced', not ch, ch)
        extra = [k for k in at if k not in o.before and k not in wr]
        # ---- tables
        te = [e for e in I.events if e.kind == 'table']
        integ = I.proves(eq(var('opt_irk_representation', 'E:IrkRepresentation'), const(EnumM('IrkRepresentation', 'INTEGRAL'))))
        ok = len(te) >= 1 and all(not e.binders for e in te)
        te = [e for e in te if (e.d['integral'] is const(True)) == bool(integ)]
        ok = ok and len(te) == 1 and equal(te[0].d['n'], var('opt_n_s', 'I'), pc) and (te[0].d['scheme'] is var('opt_irk_scheme', 'E:IrkSchemes') or (te[0].d['scheme'].op == 'const' and prove(eq(var('opt_irk_scheme', 'E:IrkSchemes'), te[0].d['scheme']), pc)))
        O('C04 coefficients are those of the chosen scheme and stage count', ok, te)
        names = ('B_irk', 'C_irk', 'D_irk') if integ else ('A_irk', 'b_irk')
        m = add(var('opt_n_s', 'I'), ONE) if integ else var('opt_n_s', 'I')
        for k in names + ('irk_time_points',):
            f = 'node' if k == 'irk_time_points' else 't' + k[0]
            v = at.get(k); good = False
            if isinstance(v, Ref):
                c = I.cell(v)
                if k in ('A_irk', 'C_irk'):
                    good = isinstance(c, MatC) and eq_vec(retag('L', c.rows), retag('L', I.cell(I.new(MatC('np', m, gen('L', m, lambda i: gen('N', m, lambda j: app(f, i, j)))))).rows), pc)
                else: good = isinstance(c, Seq) and eq_vec(retag('L', c.v), gen('L', m, lambda i: app(f, i)), pc)
            O(f'C04 {k} is the table of the chosen representation', good, v)
        r = at.get('right_boundary_point_explicit')
        r = lift(I.truth(r)) if r is not None else None
        O('C04 right boundary point is explicit exactly for Radau', r is not None and (prove(r, pc + (RADAU,)) and prove(neg_c(r), pc + (neg_c(RADAU),))), r)
        # ---- number of finite elements
        v = at.get('Nfe_list')
        v = I.cell(v).v if isinstance(v, Ref) and isinstance(I.cell(v), Seq) else None
        none = eq(var('n_nfe'), ZERO)
        if I.proves(none):
            O('C07/C17 every stage gets the common number of finite elements', v is not None and eq_vec(retag('L', v), gen('L', var('opt_N_stages'), lambda k: var('opt_N_finite_elements')), pc), v)
        else:
            O('C07/C17 given numbers of finite elements are kept', I.proves(neg_c(none)) and v is not None and eq_vec(retag('L', v), retag('L', o.nfe), pc), v)
        # ---- homotopy length
        it = var('opt_max_iter_homotopy', 'I'); got = lift(at.get('max_iter_homotopy'))
        log = lambda t: app('log', t)
        expd = add(tm.app('round', libs.tabs(div(log(div(var('opt_comp_tol', 'R'), var('opt_sigma_0', 'R'))), log(var('opt_homotopy_update_slope', 'R')))), sort='I'), ONE)
        O('C17 length of the homotopy reaches the complementarity tolerance unless it is given', equal(got, ite(eq(it, ZERO), expd, it), pc) or (prove(eq(got, expd), pc + (eq(it, ZERO),)) and prove(eq(got, it), pc + (neg_c(eq(it, ZERO)),))), f'{got!r}\n{expd!r}')
        # ---- solver tolerance
        ip, nl = I.cell(o.ipopt).d, I.cell(o.nlp).d
        same = {k for k in ip if k in o.ip0 and (ip[k] is o.ip0[k] or ip[k] == o.ip0[k])}
        if o.tolset: O('C17 given solver tolerances are kept', same == set(o.ip0) == set(ip), ip)
        else:
            w = scale(Fraction(1, 100), var('opt_comp_tol', 'R'))
            O('C17 solver tolerance is a hundredth of the complementarity tolerance', all(k in ip and equal(lift(ip[k]), w, pc) for k in TOLS), ip)
            O('C17 no other solver option is changed', same == set(o.ip0) - set(TOLS) and set(ip) == set(o.ip0) | set(TOLS), ip)
        O('C17 the solver options stay in place', nl == o.nlp0, nl)
    con = {'rk_utils.generate_butcher_tableu': c_table(False), 'rk_utils.generate_butcher_tableu_integral': c_table(True), 'utils.validate': lambda I, x: None}
    verify(S, 'nosnoc_opts.NosnocOpts.preprocess', setup, body, post, contracts=con)
    S.cur = 'utils.validate'
    f = S.prog.module('utils').ns.get('validate')
    if f is not None and hasattr(f, 'node'):
        bad = effect_free(S, 'validate', f.node)
        if bad: S.skip(f'validate is not free of effects by construction: {bad[:3]}')
        else: S.oblige('validate: C04/C07/C17 reads only', True, backend='frame analysis')
