"""Obligations: contracts are stated in specs_*.py, checked here path by path."""
import time, traceback, os, sys, signal
import z3
from fractions import Fraction
from .terms import *
from . import terms as tm
from .terms import _mono
from . import solve
from .solve import prove, simp, equal, eq_vec, unify_atoms, STATS
from .interp import *
from . import libs


class Session:
    def __init__(self, pid):
        self.pid = pid
        self.obls = []          # dict(name, fn, status, detail, backend, t)
        self.functions = {}
        self.undecided = []
        self.vacuity = []
        self.trusted = set()
        self.assumptions = []
        self.bounded = []
        self.cur = None
        self.keep = None        # names filter

    def oblige(self, name, ok, detail='', backend=None):
        self.obls.append(dict(fn=self.cur, name=name, status='proved' if ok else 'failed', detail='' if ok else str(detail)[:3000],
                              backend=backend or 'normal form + z3'))
        return ok

    def skip(self, why):
        self.undecided.append(dict(fn=self.cur, why=str(why)[:600]))


JOBS = int(os.environ.get('VC_JOBS', str(os.cpu_count() or 4)))
_TASK = None


N0 = {}


def _one(prefix, on_fork=None):
    """executes one path; the result is plain data"""
    S, fn, setup, body, post, contracts, libo = _TASK
    S.obls, S.undecided = [], []
    N0.clear(); N0.update(STATS)
    tm.reset_fresh()
    I = Interp(S.prog, prefix, dict(contracts or {}))
    I.lib.update(libo or {})
    I.on_fork = on_fork
    r = dict(prefix=prefix, kind='dead', err=None)
    t0 = time.time()
    try:
        env = setup(I)
        I.heap0 = dict(I.heap)
        try:
            res = body(I, env); out = ('return', res); r['kind'] = 'normal'
        except PyRaise as e:
            out = ('raise', e.name + (': ' + e.msg if e.msg else '')); r['kind'] = 'raised'
        post(S, I, env, out)
    except Dead: r['kind'] = 'dead'
    except Unsupported as e:
        if os.environ.get('VC_TB'): print(prefix, [str(c)[:90] for c in I.pcs], traceback.format_exc()[-int(os.environ['VC_TB']):])
        r['err'] = f'outside the supported fragment: {e}'[:900]
    except RecursionError:
        if os.environ.get('VC_TB'): print(traceback.format_exc()[-int(os.environ['VC_TB']):])
        r['err'] = 'recursion limit'
    except (KeyError, IndexError, TypeError, AttributeError, ValueError, AssertionError, z3.Z3Exception) as e:
        if os.environ.get('VC_TB'): print(traceback.format_exc()[-int(os.environ['VC_TB']):])
        r['err'] = 'verifier limitation: ' + traceback.format_exc()[-900:]
    r.update(trace=list(I.levels[0].trace), obls=S.obls, und=S.undecided, touched=dict(S.prog.touched), used=set(libs.USED),
             stats={k: STATS[k] - N0[k] for k in STATS}, t=time.time() - t0)
    return r


def explore_forked(S, max_paths):
    """every path of the current task; the process splits where the path does, so a common beginning is executed once"""
    import multiprocessing as mp, tempfile, shutil, pickle, gc
    ctx = mp.get_context('fork')
    sem, made, stop = ctx.Semaphore(JOBS), ctx.Value('i', 1), ctx.Value('i', 0)
    d = tempfile.mkdtemp(prefix='vcpaths')
    rfd, wfd = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    gc.collect(); gc.freeze()
    try:                        # finished paths are collected here and leave no zombie
        import ctypes; ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)
    except Exception: pass
    old = signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    def on_fork():
        with made.get_lock():
            made.value += 1
            if made.value > max_paths: stop.value = 1
        if stop.value: raise Stop()
        if os.fork(): return True
        sem.acquire()
        if stop.value: sem.release(); os._exit(0)
        N0.clear(); N0.update(STATS)
        return False
    try:
        if not os.fork():
            try:
                os.close(rfd); sem.acquire()
                try:
                    r = _one([], on_fork)
                    if r['err']: stop.value = 1
                    p = os.path.join(d, str(os.getpid()))
                    with open(p + '~', 'wb') as f: pickle.dump(r, f)
                    os.rename(p + '~', p)
                finally: sem.release()
            except Stop: pass
            except BaseException: traceback.print_exc()
            finally: os._exit(0)
        os.close(wfd); wfd = None
        while os.read(rfd, 1): pass
        res = []
        for n in os.listdir(d):
            if not n.endswith('~'):
                with open(os.path.join(d, n), 'rb') as f: res.append(pickle.load(f))
        errs = [r['err'] for r in res if r['err']]
        if errs: return res, sorted(errs)[0]
        if made.value > max_paths: return res, 'too many paths'
        if len(res) != made.value: return res, f'{made.value - len(res)} of {made.value} explored paths gave no answer'
        return res, None
    finally:
        os.close(rfd)
        if wfd is not None: os.close(wfd)
        shutil.rmtree(d, ignore_errors=True)
        gc.unfreeze(); signal.signal(signal.SIGCHLD, old)


class Stop(Exception): pass


def verify(S, fn, setup, body, post, contracts=None, max_paths=3000, libo=None, props=None):
    """Check the contract of function fn: for every path, post(S, I, env, outcome)."""
    global _TASK
    S.cur = fn
    t0 = time.time()
    for m in ('problem', 'solver', 'model', 'ocp', 'nosnoc_opts', 'utils', 'rk_utils', 'auto_model', 'helpers'):
        try: S.prog.module(m)
        except (OSError, SyntaxError): pass
    _TASK = (S, fn, setup, body, post, contracts, libo)
    keep = S.obls, S.undecided
    res = []; err = None
    def push(r, add):
        res.append(r)
        tr = r['trace']
        for i in range(len(r['prefix']), len(tr)):
            if tr[i]: add(tr[:i] + [False])
    if JOBS <= 1:
        todo = [[]]
        while todo and not err:
            r = _one(todo.pop()); push(r, todo.append); err = err or r['err']
            if len(res) > max_paths: err = 'too many paths'
    else: res, err = explore_forked(S, max_paths)
    S.obls, S.undecided = keep
    res.sort(key=lambda r: [not x for x in r['trace']])
    nob = 0
    for r in res:
        S.prog.touched.update(r['touched']); libs.USED.update(r['used'])
        if JOBS > 1:
            for k, v in r['stats'].items(): STATS[k] = STATS.get(k, 0) + v
        S.undecided += [u for u in r['und'] if u not in S.undecided]
    if err: S.skip(err)
    else:
        for r in res: S.obls += r['obls']; nob += len(r['obls'])
        if not any(r['kind'] != 'dead' for r in res): S.oblige('vacuity: some path is feasible', False, 'no feasible path')
        if not nob and not S.undecided: S.oblige('vacuity: obligations generated', False, 'no obligation')
    S.vacuity.append(dict(fn=fn, paths=len(res), normal=sum(r['kind'] == 'normal' for r in res), raised=sum(r['kind'] == 'raised' for r in res),
                          obligations=nob, seconds=round(time.time() - t0, 2)))


# ------------------------------------------------------------------ rows
class Row:
    """a family of constraint rows: for binders if guard: fields"""
    __slots__ = ('binders', 'guard', 'd', 'tag')
    def __init__(self, binders, guard, d, tag=None): self.binders, self.guard, self.d, self.tag = list(binders), guard, d, tag
    def __repr__(self): return f'{self.tag or ""} {self.d} for {[(show(v), show(n)) for v, n in self.binders]} if {self.guard}'


def split(vs, binders, guard, names, tag=None, pcs=()):
    """parallel vec terms -> list of row families (same segmentation required; lengths must agree)"""
    out = []
    vs = [retag('L', v) for v in vs]
    pc = tuple(pcs) + tuple(x for v, n in binders for x in (le(ZERO, v), lt(v, n))) + ((guard,) if guard is not TRUE else ())
    def seglist(v): return [s for s in simp(v, pc).args[1:] if not (s.op in ('gen', 'cat') and prove(le(s.args[0], ZERO), pc))]
    base = seglist(vs[0])
    others = [vs_ for vs_ in vs[1:]]
    I = FakeI(pc)
    cur = [vec('L', o.args[1:]) for o in others]
    # align the other vectors with the segmentation of the first
    rows = []
    def at(v, i):
        return I.elem(v, i)
    off = ZERO
    for s in base:
        L = seg_len(s)
        if s.op == 'one':
            rows.append(Row(binders, guard, dict(zip(names, [s.args[0]] + [at(o, off) for o in cur])), tag))
        elif s.op == 'gen':
            k = fresh('r')
            with I.fam(k, s.args[0]): d = [open_(s, k)] + [at(o, add(off, k)) for o in cur]
            rows.append(Row(list(binders) + [(k, s.args[0])], guard, dict(zip(names, d)), tag))
        elif s.op == 'cat':
            # parts of a concatenation: the others must be constant-valued or have the same segmentation
            k = fresh('r')
            inner = open_(s, k)
            subs = []
            for o in cur:
                osegs = [q for q in o.args[1:]]
                if all(q.op == 'gen' and q.hgt == max(q.args[0].hgt, 0) + 1 and fam_const(q) is not None for q in osegs) and osegs and len({fam_const(q) for q in osegs}) == 1:
                    c = fam_const(osegs[0]); subs.append(('c', c))
                elif len(osegs) == 1 and osegs[0].op == 'gen' and len(base) == 1:
                    before = summ(k, lambda q: vlen(open_(s, q)))
                    subs.append(('v', gen('L', vlen(inner), lambda i: open_(osegs[0], add(off, before, i)))))
                elif len(osegs) == len(base):
                    q = osegs[base.index(s)]
                    if q.op != 'cat': raise Unsupported('rows: segmentation')
                    subs.append(('v', open_(q, k)))
                else: raise Unsupported('rows: segmentation')
            vv = [inner] + [x if t == 'v' else gen('L', vlen(inner), lambda i, x=x: x) for t, x in subs]
            rows += split(vv, list(binders) + [(k, s.args[0])], guard, names, tag, pcs)
        else: raise Unsupported('rows: ' + s.op)
        off = add(off, L)
    return rows


def fam_const(q):
    k = fresh('c'); b = open_(q, k)
    return None if k in b.fv else b


class FakeI(Interp):
    """element access with hypotheses, outside of an execution"""
    def __init__(self, pc):
        self.pc = [(0, c) for c in pc]; self.levels = [Level((), -1)]; self.scratch = frozenset(); self.heap = {}; self.na = 0
    def decide(self, c):
        if isinstance(c, bool): return c
        c = lift(c)
        if self.proves(c): return True
        if self.proves(neg_c(c)): return False
        raise Unsupported(f'undetermined condition {c!r}'[:200])


def row_pc(r, pc):
    return tuple(pc) + tuple(x for v, n in r.binders for x in (le(ZERO, v), lt(v, n))) + tuple(r.guard.args if r.guard.op == 'and' else [r.guard] if r.guard is not TRUE else [])


def row_empty(r, pc):
    return prove(FALSE, row_pc(r, pc))


import itertools


def row_eq(a, b, pc, cmp):
    """family a equals family b: some renaming of the binders makes them equal"""
    A, B = list(a.binders), list(b.binders)
    # binders over a single point can be substituted
    def norm(r):
        bs, m = [], {}
        p = row_pc(r, pc)
        for v, n in r.binders:
            n = subst(n, m)
            if prove(eq(n, ONE), pc): m[v] = ZERO
            else: bs.append((v, n))
        # equalities in the guard that fix a binder
        g = subst(r.guard, m)
        ch = True
        while ch:
            ch = False
            for c in (g.args if g.op == 'and' else [g]):
                if c.op != 'eq0': continue
                for v, n in bs:
                    j = tm._delta(c, v)
                    if j is not None:
                        bs = [(x, subst(y, {v: j})) for x, y in bs if x is not v]
                        g = conj(subst(g, {v: j}), le(ZERO, j), lt(j, n))
                        m = {x: subst(y, {v: j}) for x, y in m.items()}; m[v] = j
                        ch = True; break
                if ch: break
        return bs, g, {k: subst(x, m) for k, x in r.d.items()}
    ab, ag, ad = norm(a); bb, bg, bd = norm(b)
    if len(ab) != len(bb): return False
    for perm in itertools.permutations(range(len(bb))):
        for shift in ((False,) if len(bb) > 3 else (False,)):
            m = {bb[p][0]: ab[i][0] for i, p in enumerate(perm)}
            ok = True
            p2 = tuple(pc)
            for i, p in enumerate(perm):
                n2 = subst(bb[p][1], m)
                free_later = [ab[q][0] for q in range(i, len(ab))]
                if any(v in n2.fv for v in free_later): ok = False; break
                if not equal(ab[i][1], n2, p2): ok = False; break
                p2 = p2 + (le(ZERO, ab[i][0]), lt(ab[i][0], ab[i][1]))
            if not ok: continue
            g2 = subst(bg, m)
            if ag is not g2:
                if not (prove(ag, p2 + tuple(g2.args if g2.op == 'and' else [g2])) and prove(g2, p2 + tuple(ag.args if ag.op == 'and' else [ag]))): continue
            p3 = p2 + tuple(x for x in (ag.args if ag.op == 'and' else [ag]) if x is not TRUE)
            if cmp(ad, {k: subst(x, m) for k, x in bd.items()}, p3): return True
    return False


def cmp_rows(x, y, pc):
    """equation rows up to sign"""
    if equal(x['e'], y['e'], pc) and equal(x['lb'], y['lb'], pc) and equal(x['ub'], y['ub'], pc): return True
    return equal(x['e'], neg(y['e']), pc) and equal(x['lb'], neg(y['ub']), pc) and equal(x['ub'], neg(y['lb']), pc)


def cmp_all(x, y, pc):
    return set(x) == set(y) and all(equal(x[k], y[k], pc) for k in x)


def match(S, what, actual, expected, pc, cmp=cmp_rows):
    """bijection between families; obligations per expected family"""
    ts = set().union(*[tags_of(e.tag or '') for e in expected]) if expected else set()
    if S.pid.startswith('C') and ts and S.pid not in ts: return
    act = [r for r in actual if not row_empty(r, pc)]
    exp = [r for r in expected if not row_empty(r, pc)]
    act = merge(act, pc, cmp) if len(act) != len(exp) else act
    used = set(); bad = set()
    for e in exp:
        hit = None
        for i, a in enumerate(act):
            if i in used: continue
            if row_eq(a, e, pc, cmp): hit = i; break
        if hit is not None: used.add(hit)
        else: bad |= tags_of(e.tag or '')
        S.oblige(f'{what}: {e.tag or "row"} is imposed exactly as specified', hit is not None,
                 f'no generated family equals\n  {e}\n path: {list(pc)}\n unmatched generated families:\n  ' + '\n  '.join(repr(a) for i, a in enumerate(act) if i not in used)[:2000])
    left = [a for i, a in enumerate(act) if i not in used]
    who = '/'.join(sorted(bad if bad else {t for e in expected for t in tags_of(e.tag or '')}))
    S.oblige(f'{what}: {who} nothing else is imposed', not left, f'unexpected: {left} \n path: {list(pc)}')


import re


def tags_of(name): return set(re.findall(r'\bC\d\d\b', name))


def merge(rows, pc, cmp):
    """first element plus rest -> one family (a loop peeled by hand or by index), when recognisable"""
    return rows
