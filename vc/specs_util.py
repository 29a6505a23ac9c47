"""Contracts of the list helpers every index group goes through: shifting, flattening, fresh lists, vectors grown in step.

increment_indices and flatten recurse on nested lists: the obligations are the two cases of an induction over the nesting
(a list of integers; a list of lists, whose entries satisfy the contract already)."""
from .ctx import *
from .spec import *
from .libs import un
from .specs_base import base_obj, Obj0
from .specs_solver import c_flatten                    # the contract proved here, as its callers use it

n_l = var('n_list')
solve.NONNEG |= {'n_list', 'n_in', 'n_rec'}
ENT = lambda i: gen('L', app('n_in', i, sort='I'), lambda j: app('entry', i, j, sort='O:entry'))   # a list of unknown contents
INTS = gen('L', n_l, lambda i: app('ix', i, sort='I'))
LISTS = gen('L', n_l, ENT)


def rec_contract(first, rec):
    """the call under verification executes the body; the calls in it (on entries of the list) answer by the contract"""
    st = dict(n=0)
    def c(I, *a):
        if st.get('I') is not I: st['I'] = I; return NotImplemented
        return rec(I, *a)
    return c


def rec_val(f, t, *a): return gen('L', app('n_rec', retag('L', t), *a, sort='I'), lambda j: app(f, retag('L', t), *a, j, sort='I'))


def spec_increment(S, want):
    c = var('shift')
    def setup(I):
        o = Obj0(); o.ints = I.decide(var('of_integers', 'B'))
        o.L = I.seq('list', INTS if o.ints else LISTS)
        o.before = I.vecof(o.L)
        return o
    def body(I, o): return I.call(I.prog.module('utils').ns['increment_indices'], [o.L, c])
    def rec(I, L, inc):
        v = I.vecof(L)
        if not (is_int(lift(un(I, inc))) and v.args[1].op == 'gen' and 'entry' in repr(v)): raise Unsupported('recursion on something other than an entry')
        return I.seq('list', rec_val('shifted', v, lift(un(I, inc))))
    def post(S, I, o, out):
        O = lambda n, ok, d='': S.oblige(f'increment_indices: C01 {n}', ok, d)
        if not O('returns', out[0] == 'return' and isinstance(out[1], Ref), out): return
        want_ = gen('L', n_l, lambda i: add(app('ix', i, sort='I'), c)) if o.ints else gen('L', n_l, lambda i: rec_val('shifted', ENT(i), c))
        O('every integer is shifted, order and nesting kept', eq_vec(I.vecof(out[1]), want_, I.pcs), I.vecof(out[1]))
        O('the given list is not changed', I.vecof(o.L) is o.before and out[1].a != o.L.a, o.L)
    verify(S, 'utils.increment_indices', setup, body, post, contracts={'utils.increment_indices': rec_contract(None, rec)})


def spec_flatten(S, want):
    def setup(I):
        o = Obj0(); o.kind = 'list' if I.decide(var('is_list', 'B')) else 'int'
        o.lists = o.kind == 'list' and I.decide(var('of_lists', 'B'))
        o.L = app('one_ix', sort='I') if o.kind == 'int' else I.seq('list', LISTS if o.lists else INTS)
        return o
    def body(I, o): return I.call(I.prog.module('utils').ns['flatten'], [o.L])
    def rec(I, L):
        if not isinstance(L, (Ref, SubRef)):
            return I.pylist([L])                   # first case of the contract
        return I.seq('list', rec_val('flat', I.vecof(L)))
    def post(S, I, o, out):
        O = lambda n, ok, d='': S.oblige(f'flatten: C13/C20 {n}', ok, d)
        if not O('returns', out[0] == 'return' and isinstance(out[1], Ref), out): return
        w = vec('L', [one(o.L)]) if o.kind == 'int' else cat('L', n_l, lambda i: rec_val('flat', ENT(i))) if o.lists else INTS
        O('the integers of a nested list in order, nothing else', eq_vec(I.vecof(out[1]), w, I.pcs), I.vecof(out[1]))
    verify(S, 'utils.flatten', setup, body, post, contracts={'utils.flatten': rec_contract(None, rec)})


def spec_empty(S, want):
    d = var('n_dim'); solve.NONNEG.add('n_dim'); d2 = var('n_dim2'); solve.NONNEG.add('n_dim2')
    def setup(I):
        o = Obj0(); o.two = I.decide(var('two_levels', 'B')); return o
    def body(I, o): return I.call(I.prog.module('utils').ns['create_empty_list_matrix'], [(d, d2) if o.two else (d,)])
    def post(S, I, o, out):
        O = lambda n, ok, d='': S.oblige(f'create_empty_list_matrix: C01 {n}', ok, d)
        E = vec('L', [])
        w = gen('L', d, lambda i: gen('L', d2, lambda j: E)) if o.two else gen('L', d, lambda i: E)
        O('one fresh empty list per slot', out[0] == 'return' and isinstance(out[1], Ref) and I.cell(out[1]).kind == 'list' and eq_vec(I.vecof(out[1]), w, I.pcs), out)
    verify(S, 'utils.create_empty_list_matrix', setup, body, post)


def spec_primal(S, want):
    """NosnocProblem._add_primal_vector: the four vectors grow in step"""
    n, nw = var('n_new'), var('n_old')
    V = lambda I, kind, f, m: I.seq(kind, gen('L', m, lambda i: app(f, i)))
    def setup(I):
        o = Obj0(); o.self_ = base_obj(I)
        I.cell(o.self_)
        c = I.cell(o.self_); I.setcell(o.self_, InstC(I.prog.module('problem').ns['NosnocProblem'], c.at))
        o.before = dict(c.at)
        return o
    def body(I, o):
        f = I.cell(o.self_).cls.lookup('_add_primal_vector')
        return I.call(f, [o.self_, V(I, 'sx', 'sym', n), V(I, 'np', 'lb', var('n_lb')), V(I, 'np', 'ub', var('n_ub')), V(I, 'np', 'init', var('n_init'))])
    def post(S, I, o, out):
        pc = I.pcs; at = I.cell(o.self_).at
        O = lambda n, ok, d='': S.oblige(f'_add_primal_vector: C01/C02 {n}', ok, d)
        good = conj(*[eq(var(x), n) for x in ('n_lb', 'n_ub', 'n_init')])
        old = lambda k: gen('L', nw, lambda i: app(k + '_old', i))
        if out[0] != 'return':
            O('refuses only bounds or guesses of the wrong length', I.proves(neg_c(good)), (out, pc))
            return O('a refused call changes nothing', all(eq_vec(I.vecof(at[k]), old(k), pc) for k in ('w', 'lbw', 'ubw', 'w0')), at)
        O('wrong lengths are refused', I.proves(good), pc)
        for k, s in (('w', 'sym'), ('lbw', 'lb'), ('ubw', 'ub'), ('w0', 'init')):
            O(f'{k} is the old vector followed by the new part', eq_vec(I.vecof(at[k]), vcat('L', old(k), gen('L', n, lambda i: app(s, i))), pc), I.vecof(at[k]))
        O('nothing else changes', all(at[k] is o.before[k] or eq_vec(I.vecof(at[k]), I.vecof(o.before[k]), pc) for k in o.before if k not in ('w', 'lbw', 'ubw', 'w0')) and set(at) == set(o.before), at)
    verify(S, 'problem.NosnocProblem._add_primal_vector', setup, body, post)
