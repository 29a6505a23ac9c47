"""Symbolic executor for the Python subset used by the code under contract.

The text that is executed is the abstract syntax tree of /repo/nosnoc/*.py, parsed on every run."""
import ast, os, itertools, contextlib
from fractions import Fraction
from .terms import *
from . import terms as tm
from .solve import prove, simp, equal, ENUM_DOM, CLOSED, STATS
from .solve import sums_of, unify_atoms

REPO = os.environ.get('NOSNOC_REPO', '/repo')


class Unsupported(Exception): pass
class Dead(Exception): pass                      # infeasible path
class ReturnEx(Exception):
    def __init__(self, v): self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass
class PyRaise(Exception):
    def __init__(self, name, msg=''): self.name, self.msg = name, msg


# ------------------------------------------------------------------ values
class Ref:
    """mutable container: address in the heap"""
    __slots__ = ('a',)
    def __init__(self, a): self.a = a
    def __repr__(self): return f'<ref {self.a}>'


class SubRef:
    """element of a container that is itself a container"""
    __slots__ = ('p', 'i')
    def __init__(self, p, i): self.p, self.i = p, i


class Poison:
    """value of a variable that is assigned anew in every iteration before it is read"""


class Seq:      # heap cell: python list, numpy vector, casadi column
    __slots__ = ('kind', 'v')
    def __init__(self, kind, v): self.kind, self.v = kind, v


class MatC:     # heap cell: 2-d array, rows are vec terms
    __slots__ = ('kind', 'nc', 'rows')
    def __init__(self, kind, nc, rows): self.kind, self.nc, self.rows = kind, nc, rows


class InstC:
    __slots__ = ('cls', 'at')
    def __init__(self, cls, at): self.cls, self.at = cls, at


class DictC:
    __slots__ = ('d',)
    def __init__(self, d): self.d = d


class OpaqueC:  # heap cell with spec-defined behaviour
    __slots__ = ('h', 'st')
    def __init__(self, h, st): self.h, self.st = h, st


KIND = {'L': 'list', 'N': 'np', 'S': 'sx'}
TAG = {v: k for k, v in KIND.items()}


class FuncVal:
    def __init__(self, node, mod, cls=None, clo=None, name=None):
        self.node, self.mod, self.cls, self.clo = node, mod, cls, clo
        self.name = name or getattr(node, 'name', '<lambda>')
    @property
    def qual(self):
        return f'{self.mod.name}.{self.cls.name + "." if self.cls else ""}{self.name}'


class ClassVal:
    def __init__(self, name, mod, node, bases):
        self.name, self.mod, self.node, self.bases = name, mod, node, bases
        self.ns = {}
        self.enum = None
    def lookup(self, a):
        if a in self.ns: return self.ns[a]
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.lookup(a)
                if r is not None: return r
        return None
    def mro_names(self):
        r = [self.name]
        for b in self.bases:
            if isinstance(b, ClassVal): r += b.mro_names()
        return r


class EnumM:
    """enum member"""
    _t = {}
    def __new__(cls, c, name):
        k = (c, name)
        if k not in cls._t:
            o = object.__new__(cls); o.cls, o.name = c, name; cls._t[k] = o
        return cls._t[k]
    def __repr__(self): return f'{self.cls}.{self.name}'
    def __hash__(self): return hash((self.cls, self.name))
    def __eq__(self, o): return self is o


class BoundM:
    def __init__(self, obj, fn): self.obj, self.fn = obj, fn


class Module:
    def __init__(self, name): self.name, self.ns = name, {}


class Lib:
    """dotted name of an external library"""
    def __init__(self, name): self.name = name
    def __repr__(self): return f'<lib {self.name}>'


class JoinFail(Exception): pass


OUT_CALLS = {'print', 'abs', 'max', 'min', 'len', 'range', 'str', 'repr', 'sqrt', 'full', 'flatten', 'format', 'join', 'g_fun', 'round', 'any', 'all', 'array', '_print_iter_stats'}
_OUT = {}


def output_only(st, fn):
    """a conditional block that only prints (its local names are read nowhere else): diagnostic output is not part of the contracts"""
    if fn is None: return False
    k = id(st)
    if k not in _OUT: _OUT[k] = (st, _output_only(st, fn))
    return _OUT[k][1]


def _output_only(st, fn):
    names, prints = set(), 0
    for x in ast.walk(st):
        if isinstance(x, ast.stmt) and not isinstance(x, (ast.If, ast.For, ast.Expr, ast.Assign, ast.Pass)): return False
        if isinstance(x, (ast.Expr, ast.Call)):
            c = x.value if isinstance(x, ast.Expr) else x
            if not isinstance(c, ast.Call): return False
            n = c.func.id if isinstance(c.func, ast.Name) else c.func.attr if isinstance(c.func, ast.Attribute) else None
            if n not in OUT_CALLS: return False
            if isinstance(x, ast.Expr):
                if n not in ('print', '_print_iter_stats'): return False
                prints += 1
        if isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await, ast.Lambda)): return False
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): names.add(x.id)
        if isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(x.ctx, ast.Load): return False
    if not prints: return False
    inside = {id(x) for x in ast.walk(st)}
    for x in ast.walk(fn):
        if isinstance(x, ast.Name) and x.id in names and id(x) not in inside and isinstance(x.ctx, ast.Load):
            if x.lineno > st.end_lineno or any(isinstance(l, ast.For) and id(st) in {id(y) for y in ast.walk(l)} and id(x) in {id(y) for y in ast.walk(l)} for l in ast.walk(fn)): return False
    return True


def un1(I, v):
    """a conditional object whose condition is known"""
    if isinstance(v, T) and v.op == 'ite' and I._container(v):
        w = simp(v, I.pcs)
        if w.op != 'ite': return I.thaw(w)
    return v


def plain_block(b):
    return len(b) <= 4 and all(isinstance(s, (ast.Assign, ast.AugAssign)) and
                               all(isinstance(t, (ast.Name, ast.Attribute)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target])) for s in b)


def refusal(b):
    return len(b) == 1 and isinstance(b[0], ast.If) and len(b[0].body) == 1 and isinstance(b[0].body[0], ast.Raise) and not b[0].orelse


class Event:
    """something the code did through a contract; wrapped by the binders of the enclosing loops"""
    __slots__ = ('kind', 'd', 'binders', 'guard')
    def __init__(self, kind, d, binders=(), guard=TRUE):
        self.kind, self.d, self.binders, self.guard = kind, d, binders, guard
    def map(self, f):
        return Event(self.kind, {k: f(v) for k, v in self.d.items()},
                     tuple((v, f(n)) for v, n in self.binders), f(self.guard))
    def __repr__(self): return f'{self.kind} {self.d} for {self.binders} if {self.guard}'


# ------------------------------------------------------------------ program text
MUTATORS = {'append', 'extend', 'update', 'setdefault', 'pop', 'popitem', 'add', 'clear', 'insert', 'remove', 'discard', 'sort', 'reverse', 'fill', '__setitem__'}
PLAIN_DECO = {'staticmethod', 'property', 'abstractmethod', 'dataclass'}


def mutated(tree):
    """names (also of attributes) whose value may be changed in place or rebound through global somewhere in this text"""
    out = set()
    def nm(t):
        if isinstance(t, ast.Name): out.add(t.id)
        elif isinstance(t, ast.Attribute): out.add(t.attr)
        elif isinstance(t, (ast.Subscript, ast.Starred)): nm(t.value)
    for n in ast.walk(tree):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.ctx, (ast.Store, ast.Del)): nm(n.value)
        elif isinstance(n, ast.AugAssign): nm(n.target)
        elif isinstance(n, ast.Global): out.update(n.names)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS: nm(n.func.value)
    return out


def module_names(tree):
    """names that can be bound in the module's namespace"""
    out = set()
    def go(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): out.add(n.name); return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
        if isinstance(n, ast.alias): out.add((n.asname or n.name).split('.')[0])
        for c in ast.iter_child_nodes(n): go(c)
    go(tree)
    for n in ast.walk(tree):
        if isinstance(n, ast.Global): out.update(n.names)
        if isinstance(n, ast.alias) and n.name == '*': out.add('*')
    return out


def local_names(fn):
    return {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}


def immutable(n):
    """the value of this expression cannot be changed in place"""
    return isinstance(n, ast.Constant) or isinstance(n, ast.Tuple) and all(map(immutable, n.elts)) or isinstance(n, (ast.UnaryOp, ast.BinOp, ast.Compare, ast.Lambda)) or \
        isinstance(n, ast.Attribute) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('TypeVar', 'property', 'frozenset', 'tuple')


class Program:
    def __init__(self, repo=REPO):
        self.repo = repo
        self.mods = {}
        self.texts = {}
        self._stored = None
        self.touched = {}         # qualified name -> (file, first line, last line)

    def module(self, name):
        """name without the package prefix"""
        if name in self.mods: return self.mods[name]
        path = os.path.join(self.repo, 'nosnoc', name + '.py')
        m = Module(name); self.mods[name] = m
        self.texts[name] = src = open(path).read()
        tree = ast.parse(src)
        for st in tree.body: self._top(m, st)
        m.mut, m.bound = mutated(tree), module_names(tree)
        return m

    def stored(self, cls):
        """attributes that some code of the package stores into: an object with a history may carry them"""
        if self._stored is None:
            self._stored = {n.attr for t in self.texts.values() for n in ast.walk(ast.parse(t)) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)} | \
                {n.args[1].value for t in self.texts.values() for n in ast.walk(ast.parse(t)) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr'
                 and len(n.args) > 1 and isinstance(n.args[1], ast.Constant)}
        return self._stored

    def _top(self, m, st):
        if isinstance(st, ast.Import):
            for a in st.names: m.ns[a.asname or a.name.split('.')[0]] = Lib(a.name if a.asname else a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            src = st.module or ''
            if st.level or src.startswith('nosnoc'):
                sub_ = src[len('nosnoc.'):] if src.startswith('nosnoc.') else src
                mm = self.module(sub_) if sub_ and sub_ != 'nosnoc' else self.module('__init__')
                for a in st.names:
                    m.ns[a.asname or a.name] = mm.ns.get(a.name, Lib(f'nosnoc.{sub_}.{a.name}'))
            else:
                for a in st.names: m.ns[a.asname or a.name] = Lib(f'{src}.{a.name}')
        elif isinstance(st, ast.FunctionDef): m.ns[st.name] = FuncVal(st, m)
        elif isinstance(st, ast.ClassDef):
            bases = []
            for b in st.bases:
                bases.append(m.ns.get(b.id, Lib(b.id)) if isinstance(b, ast.Name) else Lib(ast.unparse(b)))
            c = ClassVal(st.name, m, st, bases)
            if any(isinstance(b, Lib) and b.name.endswith('Enum') for b in bases):
                c.enum = []
                for s in st.body:
                    if isinstance(s, ast.Assign):
                        c.enum.append(s.targets[0].id); c.ns[s.targets[0].id] = EnumM(st.name, s.targets[0].id)
                ENUM_DOM['E:' + st.name] = [EnumM(st.name, n) for n in c.enum]
                CLOSED['E:' + st.name] = len(c.enum)
            else:
                for s in st.body:
                    if isinstance(s, ast.FunctionDef): c.ns[s.name] = FuncVal(s, m, c)
                    elif isinstance(s, ast.AnnAssign) and s.value is not None: c.ns[s.target.id] = s.value
                    elif isinstance(s, ast.Assign): c.ns[s.targets[0].id] = s.value
            m.ns[st.name] = c
        elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            m.ns[st.targets[0].id] = st.value      # evaluated on access
        elif isinstance(st, ast.If): pass
        elif isinstance(st, ast.Expr): pass
        elif isinstance(st, (ast.AnnAssign,)): pass


# ------------------------------------------------------------------ loops: bookkeeping
class Level:
    """exploration of the alternative paths of one loop body"""
    def __init__(self, prefix, start): self.prefix, self.pos, self.trace, self.start = list(prefix), 0, [], start


def max_fresh(c):
    r = -1
    for v in c.fv:
        nm = v.args[0]
        if '!' in nm: r = max(r, int(nm.rsplit('!', 1)[1]))
    return r


class SegIt:
    """an iteration given by its segments"""
    def __init__(self, segs): self.segs = segs


class Interp:
    def __init__(self, prog, prefix=(), contracts=None, budget=400000):
        self.prog = prog
        self.heap = {}
        self.na = 0
        self.pc = []                 # list of (level, cond)
        self.levels = [Level(prefix, -1)]
        self.contracts = contracts or {}
        self.events = []
        self.invariants, self.inv_obls, self.invcut = None, [], None      # annotated loop invariants
        self.history = set()      # objects that earlier calls may have left attributes on
        self.loopvars = []           # [(k, n)]
        self.scratch = frozenset(); self.opt_join = False
        self.steps = 0; self.budget = budget
        self.depth = 0
        self.recs = {}
        self.shared = set()
        self.notes = []
        self.obj_attr = {}           # sort -> f(interp, term, attr)
        self.obj_call = {}
        self.optim = set()
        self.uid = itertools.count(1)
        self.on_fork = None          # splits the exploration at a decision on the path
        self.lib = {}                # overrides of library models

    # ---------------------------------------------------------- path conditions
    @property
    def pcs(self): return tuple(c for _, c in self.pc)

    def assume(self, c):
        c = lift(c)
        if c is FALSE: raise Dead()
        for d in (c.args if c.op == 'and' else [c]):
            if d is not TRUE and d not in self.pcs: self.pc.append((len(self.levels) - 1, d))

    def proves(self, c): return prove(c, self.pcs)

    def decide(self, c):
        if isinstance(c, bool): return c
        c = lift(c)
        if c is TRUE: return True
        if c is FALSE: return False
        if self.proves(c): return True
        if self.proves(neg_c(c)): return False
        c2 = simp(c, self.pcs)
        if c2 is not c: return self.decide(c2)
        if c.op in ('le0', 'lt0', 'eq0') and len(sums_of(c)) > 1:
            d = unify_atoms(c.args[0], self.pcs)
            if d is not c.args[0]: return self.decide(tm.rebuild(c.op, [d]))
        if self.scratch and any(v in self.scratch for v in c.fv):
            raise Unsupported(f'case distinction on the position inside an elementwise operation: {c!r}'[:300])
        mf = max_fresh(c)
        lv = 0
        for i in range(len(self.levels) - 1, 0, -1):
            if mf >= self.levels[i].start: lv = i; break
        L = self.levels[lv]
        if L.pos < len(L.prefix): b = L.prefix[L.pos]
        elif lv == 0 and self.on_fork: b = self.on_fork()
        else: b = True
        L.pos += 1; L.trace.append(b)
        d = c if b else neg_c(c)
        for e in (d.args if d.op == 'and' else [d]): self.pc.append((lv, e))
        return b

    @contextlib.contextmanager
    def under(self, *facts, scratch=()):
        """temporary hypotheses (element of a family, branch of a conditional)"""
        n0 = len(self.pc)
        old = self.scratch
        self.scratch = old | set(scratch)
        mine = []
        for f in facts:
            for d in (f.args if f.op == 'and' else [f]):
                if d is not TRUE: e = (len(self.levels) - 1, d); mine.append(e); self.pc.append(e)
        try: yield
        finally:
            self.scratch = old
            for e in mine:
                for i in range(len(self.pc) - 1, -1, -1):
                    if self.pc[i] is e: del self.pc[i]; break

    def kfacts(self, k, n):
        """what is known about iteration or position k: its range, and the facts that hold for all positions"""
        f = [le(ZERO, k), lt(k, n)]
        for l, c in self.pc:
            if c.op == 'all' and (c.args[0] is n or prove(le(n, c.args[0]), self.pcs)):
                b = open_(c, k); f += b.args if b.op == 'and' else [b]
        return f

    def fam(self, k, n): return self.under(*self.kfacts(k, n), scratch=(k,))

    def gen(self, tag, n, f):
        k = fresh('g'); n = lift(n)
        with self.fam(k, n): b = lift(f(k))
        return vec(tag, [bind('gen', k, n, b)])

    def choose(self, tag='choice'):
        return self.decide(fresh(tag, 'B'))

    # ---------------------------------------------------------- heap
    def new(self, cell):
        self.na += 1; self.heap[self.na] = cell
        return Ref(self.na)

    def cell(self, r):
        if isinstance(r, Ref): return self.heap[r.a]
        if isinstance(r, SubRef): return self.cell_of_term(self.raw_elem(r.p, r.i))
        raise Unsupported(f'container expected, got {r!r}')

    def setcell(self, r, c):
        if isinstance(r, Ref):
            if r.a in self.shared: raise Unsupported('a list or array is changed in place after it was put into a list')
            self.heap[r.a] = c
        else: self.set_elem(r.p, r.i, self.freeze_cell(c))

    def cell_of_term(self, t):
        if t.op == 'vec': return Seq(KIND[t.args[0]], t)
        if t.op == 'ite' and t.args[1].op in ('vec', 'ite'):
            if self.decide(t.args[0]): return self.cell_of_term(t.args[1])
            return self.cell_of_term(t.args[2])
        if t.op == 'mat': return MatC(KIND[t.args[0]], t.args[1], t.args[2])
        raise Unsupported(f'not a container: {t!r}')

    def freeze_cell(self, c):
        if isinstance(c, Seq): return retag(TAG[c.kind], c.v)
        if isinstance(c, MatC): return mk('mat', TAG[c.kind], c.nc, c.rows)
        if isinstance(c, DictC): return mk('dict', *[x for k, v in c.d.items() for x in (const(k), self.freeze(v))])
        raise Unsupported('cannot freeze object')

    def freeze(self, v):
        if isinstance(v, T): return v
        if isinstance(v, (Ref, SubRef)):
            c = self.cell(v)
            if isinstance(c, (InstC, OpaqueC)): return const(('ref', v.a))
            return self.freeze_cell(c)
        if isinstance(v, tuple): return mk('tup', *[self.freeze(x) for x in v])
        if isinstance(v, (int, float, Fraction)): return lift(v)
        if isinstance(v, (FuncVal, ClassVal, Lib, BoundM)): return mk('const', v)
        if isinstance(v, Poison): raise Unsupported('variable carried over from the preceding iteration')
        return const(v)

    def thaw(self, t):
        if not isinstance(t, T): return t
        if t.op == 'vec': return self.new(Seq(KIND[t.args[0]], t))
        if t.op == 'mat': return self.new(MatC(KIND[t.args[0]], t.args[1], t.args[2]))
        if t.op == 'tup': return tuple(self.thaw(x) for x in t.args)
        if t.op == 'const':
            if isinstance(t.args[0], tuple) and t.args[0] and t.args[0][0] == 'ref': return Ref(t.args[0][1])
            return t.args[0]
        if t.op == 'dict':
            it = t.args
            return self.new(DictC({it[i].args[0]: self.thaw(it[i + 1]) for i in range(0, len(it), 2)}))
        if t.op == 'ite' and self._container(t):
            if self.decide(t.args[0]): return self.thaw(t.args[1])
            return self.thaw(t.args[2])
        if t is TRUE: return True
        if t is FALSE: return False
        return t

    def _container(self, t):
        while t.op == 'ite': t = t.args[1]
        return t.op in ('vec', 'mat', 'tup', 'const', 'dict')

    def seq(self, kind, v): return self.new(Seq(kind, retag(TAG[kind], v)))
    def pylist(self, items): return self.new(Seq('list', vec('L', [one(self.freeze(i)) for i in items])))

    # ---------------------------------------------------------- sequences
    def vecof(self, v, kind=None):
        """vec term of a container value (numbers count as one element)"""
        if isinstance(v, (Ref, SubRef)):
            c = self.cell(v)
            if isinstance(c, Seq): return c.v
            if isinstance(c, MatC):
                if c.nc.op == 'num' and c.nc.args[0] == 1:
                    return self.map_vec(c.rows, lambda r: r.args[1].args[0])
            raise Unsupported('vector expected')
        if isinstance(v, T) and v.op == 'vec': return v
        if isinstance(v, T) and v.op == 'ite' and self._container(v): return self.vecof(self.thaw(v))
        if isinstance(v, tuple): return vec('L', [one(self.freeze(x)) for x in v])
        if isinstance(v, (int, float, Fraction, T)): return vec('S', [one(lift(v))])
        raise Unsupported(f'vector expected, got {v!r}')

    def length(self, v):
        n = vlen(self.vecof(v))
        return n

    def segs(self, v):
        return [s for s in v.args[1:] if not (s.op in ('gen', 'cat') and self.proves(le(s.args[0], ZERO)))]

    def resolve_opts(self, v):
        if any(s.op == 'opt' for s in v.args[1:]):
            out = []
            for s in v.args[1:]:
                if s.op == 'opt':
                    if self.decide(s.args[0]): out += self.resolve_opts(s.args[1]).args[1:]
                else: out.append(s)
            return vec(v.args[0], out)
        return v

    def index(self, n, i):
        """normalise a python index to 0..n-1"""
        i = lift(i)
        if i.op == 'num':
            if i.args[0] < 0: i = add(n, i)
        elif self.proves(le(ZERO, i)): pass
        elif self.optimistic(i): self.assume(le(ZERO, i))
        elif self.decide(lt(i, ZERO)): i = add(n, i)
        return i

    def optimistic(self, t):
        """first look at a loop: positions that depend on what the loop accumulates are taken to be in range; the second look decides"""
        ph = [v for v in t.fv if v.args[0].startswith('phi!')]
        self.optim.update(ph)
        return bool(ph)

    def elem(self, v, i):
        """element i (already normalised) of vec term v"""
        if v.op == 'ite':
            c = v.args[0]
            if self.proves(c): return self.elem(v.args[1], i)
            if self.proves(neg_c(c)): return self.elem(v.args[2], i)
            if self.scratch and any(x in self.scratch for x in c.fv) or type(self) is not Interp:
                with self.under(c): a = self.elem(v.args[1], i)
                with self.under(neg_c(c)): b = self.elem(v.args[2], i)
                return ite(c, a, b)
            return self.elem(v.args[1] if self.decide(c) else v.args[2], i)
        v = self.resolve_opts(v)
        n = vlen(v)
        if not self.proves(conj(le(ZERO, i), lt(i, n))):
            if self.optimistic(i): self.assume(conj(le(ZERO, i), lt(i, n)))
            elif not self.decide(conj(le(ZERO, i), lt(i, n))): raise PyRaise('IndexError')
        if any(s.op == 'cat' for s in v.args[1:]): return self.flat_elem(v, i)
        return self.elem_from(v.args[1:], 0, ZERO, i)

    def flat_elem(self, v, i):
        """element i of a vector with nested families: located when possible, otherwise kept as el(v, i)"""
        off = ZERO
        for s in v.args[1:]:
            if s.op == 'cat' and not is_num(i):
                r = self.cat_part(s, sub(i, off))
                if r is not None: return r
            off = add(off, seg_len(s))
        off = ZERO
        for s in v.args[1:]:
            L = seg_len(s); end = add(off, L)
            if s.op != 'cat' and self.proves(conj(le(off, i), lt(i, end))): return self.elem_from((s,), 0, off, i)
            if s.op == 'cat':
                r = self.cat_part(s, sub(i, off))
                if r is not None: return r
            if self.proves(lt(i, end)): break
            off = end
        if len(v.args) == 2:            # entries that are lists: the part and the position in it, found by unique decomposition
            s = v.args[1]; k = fresh('u'); b = open_(s, k)
            if len(b.args) == 2 and b.args[1].op == 'gen' and b.args[1].args[1].op == 'vec':
                cn = gen('L', s.args[0], lambda q: vlen(open_(s, q)))
                return open_(open_(s, app('catk', cn, i, sort='I')).args[1], app('cati', cn, i, sort='I'))
        return app('el', retag('L', v), i, sort=leaf_sort(v))

    def elem_from(self, segs, q, off, i):
        if q >= len(segs): raise PyRaise('IndexError')
        s = segs[q]
        end = add(off, seg_len(s))
        def here():
            if s.op == 'one': return s.args[0]
            if s.op == 'gen': return open_(s, sub(i, off))
            if s.op == 'phi': return app('phiel', s.args[0], sub(i, off))
            if s.op == 'cat': return self.cat_elem(s, sub(i, off))
            raise Unsupported('index into a concatenation family')
        if q == len(segs) - 1 or self.proves(lt(i, end)): return here()
        if self.proves(le(end, i)): return self.elem_from(segs, q + 1, end, i)
        c = lt(i, end)
        if any(x in self.scratch for x in c.fv):
            with self.under(c): a = here()
            with self.under(neg_c(c)): b = self.elem_from(segs, q + 1, end, i)
            return tm.join_shape(ite(c, a, b))
        if self.decide(c): return here()
        return self.elem_from(segs, q + 1, end, i)

    def cat_elem(self, s, i):
        """element i of a concatenation family: the block is found by unique decomposition"""
        raise Unsupported('index into a concatenation family')

    def cat_part(self, s, r):
        """element r of a concatenation family when r is visibly (length of the first k parts) + j"""
        if is_num(r): cands = [(ZERO, r)]
        else: cands = tm.decompose(s, r)
        n = s.args[0]
        for k0, j0 in cands:
            part = open_(s, k0)
            if not is_int(k0) or not is_int(j0): continue
            if self.proves(conj(le(ZERO, k0), lt(k0, n), le(ZERO, j0), lt(j0, vlen(part)))):
                part = simp(part, self.pcs)
                return self.elem(part, j0) if not any(q.op == 'cat' for q in part.args[1:]) else self.flat_elem(part, j0)
        return None

    def raw_elem(self, r, i):
        c = self.cell(r)
        if isinstance(c, Seq): return self.elem(c.v, i)
        if isinstance(c, MatC): return self.elem(c.rows, i)
        raise Unsupported('subscript')

    def set_elem(self, r, i, t):
        c = self.cell(r)
        if isinstance(c, MatC):
            self.setcell(r, MatC(c.kind, c.nc, self.store(c.rows, i, t))); return
        self.setcell(r, Seq(c.kind, self.store(c.v, i, t)))

    def store(self, v, i, t):
        if v.op == 'ite':
            c = v.args[0]
            if self.proves(c): return self.elem(v.args[1], i)
            if self.proves(neg_c(c)): return self.elem(v.args[2], i)
            if self.scratch and any(x in self.scratch for x in c.fv) or type(self) is not Interp:
                with self.under(c): a = self.elem(v.args[1], i)
                with self.under(neg_c(c)): b = self.elem(v.args[2], i)
                return ite(c, a, b)
            return self.elem(v.args[1] if self.decide(c) else v.args[2], i)
        v = self.resolve_opts(v)
        n = vlen(v)
        if not self.proves(conj(le(ZERO, i), lt(i, n))):
            if not self.decide(conj(le(ZERO, i), lt(i, n))): raise PyRaise('IndexError')
        out = []; off = ZERO; done = False
        for s in v.args[1:]:
            L = seg_len(s); end = add(off, L)
            if s.op == 'one':
                if self.proves(eq(i, off)): out.append(one(t)); done = True
                elif done or self.proves(neg_c(eq(i, off))): out.append(s)
                else: out.append(one(ite(eq(i, off), t, s.args[0])))
            elif s.op == 'gen':
                if done or self.proves(disj(lt(i, off), le(end, i))): out.append(s)
                elif prove(eq(L, ONE), self.pcs): out.append(one(t)); done = True
                else:
                    j = fresh('w')
                    out.append(bind('gen', j, L, ite(eq(j, sub(i, off)), t, open_(s, j))))
            else: raise Unsupported('store into a family')
            off = end
        return vec(v.args[0], out)

    def slice_vec(self, v, a, b):
        """v[a:b] with normalised bounds"""
        v = tm.join_shape(self.resolve_opts(v))
        out = []; off = ZERO
        if not self.proves(le(a, b)):
            if not self.decide(le(a, b)): return vec(v.args[0], [])
        def clip(x, off, end, L, unit):
            """min(max(x - off, 0), L)"""
            if self.proves(le(x, off)): return ZERO
            if self.proves(le(end, x)) or (x is not end and sums_of(x) and sums_of(end) and equal(end, x, self.pcs)): return L
            if not unit and self.proves(le(off, x)) and self.proves(le(x, end)): return sub(x, off)
            if self.decide(le(x, off)): return ZERO
            if self.decide(le(end, x)): return L
            return sub(x, off)
        for s in v.args[1:]:
            L = seg_len(s); end = add(off, L)
            unit = s.op == 'one'
            lo, hi = clip(a, off, end, L, unit), clip(b, off, end, L, unit)
            off = end
            if lo is hi or self.proves(eq(lo, hi)): continue
            if lo is ZERO and hi is L: out.append(s)
            elif s.op == 'one': raise Unsupported('slice')
            elif s.op == 'gen':
                k = fresh('z')
                out.append(bind('gen', k, sub(hi, lo), open_(s, add(k, lo))))
            else:
                out += self.slice_cat(s, L, lo, hi)
        return vec(v.args[0], out)

    def slice_cat(self, s, L, lo, hi):
        """part of a concatenation of parts: inside the first or last part, or whole parts"""
        n = s.args[0]
        if self.proves(le(ONE, n)):
            f = open_(s, ZERO)
            if self.proves(le(hi, vlen(f))): return self.slice_vec(f, lo, hi).args[1:]
            l = open_(s, sub(n, ONE)); o = sub(L, vlen(l))
            if self.proves(le(o, lo)): return self.slice_vec(l, sub(lo, o), sub(hi, o)).args[1:]
        k = fresh('z'); m = vlen(open_(s, k))
        if k not in m.fv:
            a, b = div(lo, m), div(hi, m)
            if is_int(a) and is_int(b): return [bind('cat', k, sub(b, a), open_(s, add(k, a)))]
        b = open_(s, k)
        if len(b.args) == 2 and b.args[1].op == 'gen' and b.args[1].args[1].op == 'vec':
            with self.fam(k, sub(hi, lo)): e = self.flat_elem(vec('L', [s]), add(lo, k))
            return [bind('gen', k, sub(hi, lo), e)]
        raise Unsupported('slice of a concatenation family')

    def cond(self, c):
        if self.proves(c): return True
        if self.proves(neg_c(c)): return False
        return self.decide(c)

    def map_vec(self, v, f, tag=None):
        """elementwise; f: term -> term (must not depend on position)"""
        if v.op == 'ite':
            c = v.args[0]
            if self.scratch and any(x in self.scratch for x in c.fv) and not self.proves(c) and not self.proves(neg_c(c)):
                with self.under(c): a = self.map_vec(v.args[1], f, tag)
                with self.under(neg_c(c)): b = self.map_vec(v.args[2], f, tag)
                return ite(c, a, b)
            return self.map_vec(v.args[1] if self.decide(c) else v.args[2], f, tag)
        out = []
        for s in v.args[1:]:
            if s.op == 'one': out.append(one(f(s.args[0])))
            elif s.op == 'gen':
                k = fresh('a')
                with self.fam(k, s.args[0]): b = f(open_(s, k))
                out.append(bind('gen', k, s.args[0], b))
            elif s.op == 'cat':
                k = fresh('a')
                with self.fam(k, s.args[0]): b = self.map_vec(open_(s, k), f, tag)
                out.append(bind('cat', k, s.args[0], b))
            elif s.op == 'opt': out.append(mk('opt', s.args[0], self.map_vec(s.args[1], f, tag)))
            elif s.op == 'phi': raise Unsupported('map over a list that is being built')
            else: raise Unsupported(s.op)
        return vec(tag or v.args[0], out)

    def zip_vec(self, a, b, f, tag='S'):
        a, b = tm.join_shape(self.resolve_opts(a)), tm.join_shape(self.resolve_opts(b))
        sa, sb = self.segs(a), self.segs(b)
        out = []
        while sa and sb:
            x, y = sa.pop(0), sb.pop(0)
            if x.op == 'one' and y.op == 'one': out.append(one(f(x.args[0], y.args[0]))); continue
            if x.op in ('gen', 'cat') and x.op == y.op and equal(x.args[0], y.args[0], self.pcs):
                k = fresh('b')
                with self.fam(k, x.args[0]):
                    r = f(open_(x, k), open_(y, k)) if x.op == 'gen' else self.zip_vec(open_(x, k), open_(y, k), f, tag)
                out.append(bind(x.op, k, x.args[0], r))
                continue
            # a constant family takes the shape of the other operand
            hit = False
            for cx, cy, sc, sd, fl in ((x, y, sa, sb, False), (y, x, sb, sa, True)):
                if cx.op == 'gen' and cy.op in ('gen', 'cat'):
                    v = open_(cx, ZERO)
                    kq = fresh('q')
                    if open_(cx, kq) is not v: continue
                    lx, ly = seg_len(cx), seg_len(cy)
                    if not self.proves(le(ly, lx)): continue
                    r = self.map_vec(vec('L', [cy]), (lambda t: f(t, v)) if fl else (lambda t: f(v, t)))
                    out += list(r.args[1:])
                    if not self.proves(eq(lx, ly)): sc.insert(0, bind('gen', kq, sub(lx, ly), v))
                    hit = True; break
            if hit: continue
            # align by splitting the longer one
            def head(s, n):
                k = fresh('h')
                return (bind('gen', k, n, open_(s, k)), bind('gen', k, sub(seg_len(s), n), open_(s, add(k, n))))
            if x.op in ('gen', 'one') and y.op in ('gen', 'one'):
                lx, ly = seg_len(x), seg_len(y)
                if self.proves(eq(lx, ly)):
                    k = fresh('b')
                    ex = (lambda s, i: s.args[0] if s.op == 'one' else open_(s, i))
                    if lx is ONE or ly is ONE: out.append(one(f(ex(x, ZERO), ex(y, ZERO))))
                    else:
                        with self.fam(k, lx): b = f(ex(x, k), ex(y, k))
                        out.append(bind('gen', k, lx, b))
                    continue
                if self.cond(lt(lx, ly)):
                    if y.op == 'one': raise Unsupported('zip')
                    h, r = head(y, lx); sb = self.segs(vec('L', [h])) + self.segs(vec('L', [r])) + sb; sa.insert(0, x); continue
                if x.op == 'one': raise Unsupported('zip')
                h, r = head(x, ly); sa = self.segs(vec('L', [h])) + self.segs(vec('L', [r])) + sa; sb.insert(0, y); continue
            raise Unsupported('cannot align sequences')
        if sa or sb:
            rest = add(*[seg_len(s) for s in sa + sb])
            if self.proves(le(rest, ZERO)): pass
            else: raise PyRaise('RuntimeError', 'dimension mismatch')
        return vec(tag, out)

    # ---------------------------------------------------------- statements
    def exec_block(self, body, env):
        for st in body: self.exec(st, env)

    def exec(self, st, env):
        self.steps += 1
        if self.steps > self.budget: raise Unsupported('step budget exceeded')
        m = getattr(self, 'x_' + type(st).__name__, None)
        if m is None: raise Unsupported(f'statement {type(st).__name__}')
        return m(st, env)

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant): return
        self.ev(st.value, env)

    def x_Pass(self, st, env): pass

    def x_Return(self, st, env): raise ReturnEx(self.ev(st.value, env) if st.value else None)
    def x_Break(self, st, env): raise BreakEx()
    def x_Continue(self, st, env): raise ContinueEx()

    def x_Raise(self, st, env):
        e = st.exc
        name = 'Exception'
        if isinstance(e, ast.Call):
            name = e.func.id if isinstance(e.func, ast.Name) else ast.unparse(e.func)
        elif isinstance(e, ast.Name): name = e.id
        raise PyRaise(name)

    def x_Assert(self, st, env):
        if not self.decide(self.truth(self.ev(st.test, env))): raise PyRaise('AssertionError')

    def x_If(self, st, env):
        if output_only(st, env.get('__fnode__')): return
        c = self.truth(self.ev(st.test, env))
        if isinstance(c, T) and len(self.levels) == 1 and plain_block(st.body) and (plain_block(st.orelse) or self.opt_join and refusal(st.orelse)):
            c = simp(c, self.pcs)
            if c not in (TRUE, FALSE) and not self.proves(c) and not self.proves(neg_c(c)):
                if self.opt_join: self.hoist_raise(c, st, env)
                if self.join(c, st, env): return
        self.exec_block(st.body if self.decide(c) else st.orelse, env)

    def hoist_raise(self, c, st, env):
        """if c: ... elif d: raise ...: the refusal is decided first, so that the two remaining branches can be joined"""
        o = st.orelse
        if not refusal(o): return
        heap, na, nev, pc = dict(self.heap), self.na, len(self.events), list(self.pc)
        fork = self.on_fork
        def no(): raise JoinFail()
        self.on_fork = no
        try:
            with self.under(neg_c(c)): d = lift(self.truth(self.ev(o[0].test, env)))
        except (JoinFail, PyRaise, Unsupported, Dead): return
        finally:
            self.on_fork = fork; self.heap = heap; self.pc = pc; del self.events[nev:]
        if self.decide(conj(neg_c(c), d)): return

    def join(self, c, st, env):
        """both branches only assign scalars: one state with conditional values instead of two paths"""
        heap, en, nev, pc, na = dict(self.heap), dict(env), len(self.events), list(self.pc), self.na
        fork, ntr = self.on_fork, len(self.levels[0].trace)
        def no(): raise JoinFail()
        self.on_fork, self.nojoin = no, True
        res = []
        try:
            for cond, body in ((c, st.body), (neg_c(c), st.orelse)):
                self.pc = list(pc)
                for d in (cond.args if cond.op == 'and' else [cond]): self.pc.append((0, d))
                self.heap = dict(heap); env.clear(); env.update(en)
                self.exec_block(body, env)
                if len(self.events) != nev or len(self.levels[0].trace) != ntr: raise JoinFail()
                e2 = {k: un1(self, v) for k, v in env.items()}
                if self.opt_join: self.resolve_optional()
                res.append((self.heap, e2, self.pcs))
            (h1, e1, _), (h2, e2, _) = res
            if set(e1) != set(e2): raise JoinFail()
            H = dict(h1)
            H.update({a: x for a, x in h2.items() if a not in H})
            for a in heap:
                x, y = h1[a], h2[a]
                if x is y: continue
                if isinstance(x, InstC) and isinstance(y, InstC) and set(x.at) == set(y.at) and x.cls is y.cls:
                    H[a] = InstC(x.cls, {q: self.join_val(c, x.at[q], y.at[q], h1, h2, H) for q in x.at})
                elif isinstance(x, Seq) and isinstance(y, Seq): H[a] = self.join_seq(c, x, y)
                else: raise JoinFail()
            E = {k: self.join_val(c, e1[k], e2[k], h1, h2, H) for k in e1}
        except (JoinFail, PyRaise, ReturnEx, BreakEx, ContinueEx, Unsupported, Dead):
            self.heap = heap; env.clear(); env.update(en); self.pc = pc; del self.events[nev:]; del self.levels[0].trace[ntr:]
            return False
        finally: self.on_fork, self.nojoin = fork, False
        self.heap, self.pc = H, pc
        env.clear(); env.update(E)
        return True

    def resolve_optional(self):
        """attributes that hold an optional array: the array, where the branch says that it is there"""
        for a, x in list(self.heap.items()):
            if not isinstance(x, InstC): continue
            at = {}
            for q, v in x.at.items():
                if isinstance(v, T) and v.op == 'ite' and self._container(v):
                    w = simp(v, self.pcs)
                    if w.op in ('vec', 'const', 'mat'): at[q] = self.thaw(w)
            if at: self.heap[a] = InstC(x.cls, {**x.at, **at})

    def join_seq(self, c, x, y):
        if self.opt_join and x.kind == y.kind == 'np' and x.v is not y.v: return Seq('np', ite(c, retag('N', x.v), retag('N', y.v)))
        if x.kind != y.kind or len(x.v.args) != len(y.v.args): raise JoinFail()
        if x.v is y.v: return x
        if not all(s.op == 'one' for s in x.v.args[1:] + y.v.args[1:]): raise JoinFail()
        out = []
        for s, t in zip(x.v.args[1:], y.v.args[1:]):
            if s is not t and (s.args[0].op in ('vec', 'mat', 'const', 'tup') or t.args[0].op in ('vec', 'mat', 'const', 'tup')): raise JoinFail()
            out.append(one(ite(c, s.args[0], t.args[0])))
        return Seq(x.kind, vec(x.v.args[0], out))

    def join_val(self, c, x, y, h1, h2, H):
        if x is y: return x
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x.a == y.a: return x
            p, q = h1[x.a], h2[y.a]
            if isinstance(p, Seq) and isinstance(q, Seq):
                self.na += 1; H[self.na] = self.join_seq(c, p, q)
                return Ref(self.na)
            raise JoinFail()
        if isinstance(x, bool) and isinstance(y, bool): return x if x == y else (c if x else neg_c(c))
        if isinstance(x, (int, Fraction, T)) and isinstance(y, (int, Fraction, T)):
            a, b = lift(x), lift(y)
            if a is b: return x
            if any(t.op in ('vec', 'mat', 'const', 'tup', 'dict') or t.op == 'ite' and self._container(t) for t in (a, b)): raise JoinFail()
            return ite(c, a, b)
        if type(x) is type(y):
            try:
                if bool(x == y): return x
            except Exception: pass
        raise JoinFail()

    def x_Import(self, st, env):
        for a in st.names: env[a.asname or a.name.split('.')[0]] = Lib(a.name if a.asname else a.name.split('.')[0])

    def x_ImportFrom(self, st, env):
        m = Module('tmp'); self.prog._top(m, st); env.update(m.ns)

    def x_FunctionDef(self, st, env):
        env[st.name] = FuncVal(st, env['__module__'], clo=env)

    def x_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets: self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None: self.assign(st.target, self.ev(st.value, env), env)

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name): env.pop(t.id, None)
            else: raise Unsupported('del')

    def x_With(self, st, env): raise Unsupported('with')

    def x_Try(self, st, env):
        try:
            self.exec_block(st.body, env)
        except PyRaise as e:
            for h in st.handlers:
                nm = h.type.id if isinstance(h.type, ast.Name) else None
                if nm in (None, 'Exception', e.name):
                    if h.name: env[h.name] = const(('exc', e.name))
                    self.exec_block(h.body, env); break
            else: raise
        else: self.exec_block(st.orelse, env)
        self.exec_block(st.finalbody, env)

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name): old = self.lookup(t.id, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env); old = self.getattr(o, t.attr)
        else:
            o = self.ev(t.value, env); ix = self.ev_index(t.slice, env)
            old = self.getitem(o, ix)
        v = self.ev(st.value, env)
        if isinstance(st.op, ast.Add) and isinstance(old, (Ref, SubRef)) and isinstance(self.cell(old), Seq) and self.cell(old).kind == 'list':
            self.list_extend(old, v); new = old
        elif isinstance(old, (Ref, SubRef)) and isinstance(self.cell(old), (Seq, MatC)) and self.cell(old).kind == 'np':
            r = self.binop(type(st.op).__name__, old, v)      # in place
            self.setcell(old, self.cell(r)); new = old
        else:
            new = self.binop(type(st.op).__name__, old, v)
        if isinstance(t, ast.Name): env[t.id] = new
        elif isinstance(t, ast.Attribute): self.setattr(o, t.attr, new)
        else: self.setitem(o, ix, new)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name): env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.concrete_items(v)
            if any(isinstance(e, ast.Starred) for e in t.elts): raise Unsupported('starred assignment')
            if len(items) != len(t.elts): raise PyRaise('ValueError')
            for e, x in zip(t.elts, items): self.assign(e, x, env)
        elif isinstance(t, ast.Attribute): self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript): self.setitem(self.ev(t.value, env), self.ev_index(t.slice, env), v)
        else: raise Unsupported('assignment target')

    def concrete_items(self, v):
        if isinstance(v, tuple): return list(v)
        if isinstance(v, T) and v.op == 'tup': return [self.thaw(x) for x in v.args]
        if isinstance(v, T) and v.op == 'ite' and self._container(v): return self.concrete_items(self.thaw(v))
        if isinstance(v, (Ref, SubRef)):
            c = self.cell(v)
            if isinstance(c, Seq):
                w = self.resolve_opts(c.v)
                if all(s.op == 'one' for s in w.args[1:]):
                    return [self.thaw(s.args[0]) for s in w.args[1:]]
            if isinstance(c, DictC): return list(c.d.keys())
        raise Unsupported('cannot enumerate a symbolic sequence here')

    # ---------------------------------------------------------- loops
    def x_For(self, st, env):
        it = self.ev(st.iter, env)
        self.iterate(it, lambda x: self.assign(st.target, x, env), st.body, env, st.orelse)

    def x_While(self, st, env): raise Unsupported('while loop')

    def iteration_segments(self, it):
        """list of ('one', value) / ('gen', n, k -> value)"""
        if isinstance(it, RangeV):
            n = it.count()
            if is_num(n):
                return [('one', unlift(add(it.a, num(int(i) * it.step)))) for i in range(max(0, int(numval(n))))]
            return [('gen', n, lambda k: add(it.a, mul(k, it.step)))]
        if isinstance(it, EnumV):
            out = []; off = lift(it.start)
            for s in self.iteration_segments(it.it):
                if s[0] == 'one': out.append(('one', (unlift(off), s[1]))); off = add(off, ONE)
                elif s[0] == 'cat':      # positions continue over the parts
                    out.append(('cat', s[1], lambda k, s=s, o=off: EnumV(s[2](k), add(o, summ(k, s[3]))), s[3])); off = add(off, summ(s[1], s[3]))
                else:
                    out.append(('gen', s[1], (lambda k, f=s[2], o=off: (add(o, k), f(k))))); off = add(off, s[1])
            return out
        if isinstance(it, ZipV):
            return self.zip_segments([self.iteration_segments(i) for i in it.its])
        if isinstance(it, DictItems):
            return [('one', x) for x in it.items]
        if isinstance(it, SegIt): return it.segs
        if type(it).__name__ == 'MaskIdx': it = self.seq('list', it.vec(self))
        if isinstance(it, str): return [('one', c) for c in it]
        if isinstance(it, tuple): return [('one', x) for x in it]
        if isinstance(it, ClassVal) and it.enum is not None: return [('one', EnumM(it.name, n)) for n in it.enum]
        if isinstance(it, T) and it.op == 'ite' and self._container(it): it = self.thaw(it)
        if isinstance(it, T) and it.op in ('tup',): return [('one', self.thaw(x)) for x in it.args]
        if isinstance(it, (Ref, SubRef)):
            c = self.cell(it)
            if isinstance(c, DictC): return [('one', k) for k in c.d]
            if isinstance(c, MatC):
                v = c.rows; base = None
            else:
                v = self.resolve_opts(c.v)
            out = []; off = ZERO
            for s in self.segs(v):
                if s.op == 'one': out.append(('one', self.elem_value(it, off, s.args[0])))
                elif s.op == 'gen': out.append(('gen', s.args[0], lambda k, s=s, o=off: self.elem_value(it, add(o, k), open_(s, k))))
                elif s.op == 'cat':
                    out.append(('cat', s.args[0], lambda k, s=s: self.thaw(open_(s, k)), lambda k, s=s: vlen(open_(s, k))))
                else: raise Unsupported('iteration over a list that is being built')
                off = add(off, seg_len(s))
            return out
        raise Unsupported(f'iteration over {it!r}')

    def zip_segments(self, L):
        out = []
        L = [list(x) for x in L]
        while all(L):
            hs = [x.pop(0) for x in L]
            if all(h[0] == 'one' for h in hs): out.append(('one', tuple(h[1] for h in hs))); continue
            ns = [ONE if h[0] == 'one' else h[1] if h[0] == 'gen' else None for h in hs]
            if None in ns:
                if any(h[0] == 'one' for h in hs): raise Unsupported('zip over concatenation')
                c0 = next(h for h in hs if h[0] == 'cat'); parts = []
                tot = summ(c0[1], c0[3])
                for h, x in zip(hs, L):
                    if h[0] == 'cat':
                        kk = fresh('z'); rng = (le(ZERO, kk), lt(kk, c0[1]))
                        if not (equal(h[1], c0[1], self.pcs) and equal(h[3](kk), c0[3](kk), self.pcs + rng)): raise Unsupported('zip over concatenations of different shape')
                        parts.append(h[2])
                    else:
                        if not self.cond(le(tot, h[1])): raise Unsupported('zip over concatenation')
                        parts.append(lambda k, h=h: SegIt([('gen', c0[3](k), lambda j: h[2](add(summ(k, c0[3]), j)))]))
                        if not equal(tot, h[1], self.pcs): x.insert(0, ('gen', sub(h[1], tot), lambda k, h=h: h[2](add(tot, k))))
                out.append(('cat', c0[1], lambda k, parts=tuple(parts): ZipV([p(k) for p in parts]), c0[3])); continue
            if all(equal(n, ns[0], self.pcs) for n in ns[1:]) and all(h[0] == 'gen' for h in hs):
                out.append(('gen', ns[0], lambda k, hs=hs: tuple(h[2](k) for h in hs))); continue
            if any(h[0] == 'one' for h in hs):      # peel one element of every family
                vals = []
                for h, x in zip(hs, L):
                    if h[0] == 'one': vals.append(h[1]); continue
                    if not self.cond(lt(ZERO, h[1])):
                        raise Unsupported('zip of families of different length')
                    vals.append(h[2](ZERO)); x.insert(0, ('gen', sub(h[1], ONE), lambda k, h=h: h[2](add(k, ONE))))
                out.append(('one', tuple(vals))); continue
            # different lengths: the shortest determines
            m = ns[0]
            for n in ns[1:]:
                if self.cond(le(n, m)): m = n
            out.append(('gen', m, lambda k, hs=hs: tuple(h[2](k) for h in hs)))
            return out
        return out

    def elem_value(self, container, i, t):
        """python value for element term t at position i of container"""
        if t.op in ('vec', 'mat') or (t.op == 'ite' and self._container(t) and t.args[1].op in ('vec', 'mat')):
            if isinstance(container, (Ref, SubRef)): return SubRef(container, i)
        return self.thaw(t)

    def iterate(self, it, bindto, body, env, orelse=()):
        run = (lambda: self.exec_block(body, env)) if not callable(body) else body
        try:
            for s in self.iteration_segments(it):
                if s[0] == 'one':
                    bindto(s[1])
                    try: run()
                    except ContinueEx: pass
                elif s[0] == 'gen':
                    n = simp(s[1], self.pcs)
                    if self.proves(le(n, ZERO)): continue
                    if not is_num(n) and not self.decide(le(ZERO, n)): continue      # empty range
                    if self.proves(le(n, num(1))) and self.proves(le(ONE, n)):
                        bindto(s[2](ZERO))
                        try: run()
                        except ContinueEx: pass
                        continue
                    if is_num(n):
                        for q in range(int(numval(n))):
                            bindto(s[2](num(q)))
                            try: run()
                            except ContinueEx: pass
                        continue
                    self.sym_loop(n, s[2], bindto, run, env)
                else:      # concatenation family: nested loops
                    n = s[1]
                    def inner(s=s): self.iterate(s[2](env['__catk__']), bindto, body, env)
                    def bk(k): env['__catk__'] = k
                    self.sym_loop(n, lambda k: k, bk, inner, env)
        except BreakEx:
            return
        if orelse: self.exec_block(orelse, env)

    from .loops import sym_loop, _snapshot, _restore, _phi_value, _run_paths, assume_all

    # ---------------------------------------------------------- calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, BoundM): return self.call(f.fn, [f.obj] + list(args), kw) if not callable(f.fn) or isinstance(f.fn, FuncVal) else f.fn(self, f.obj, *args, **kw)
        if isinstance(f, FuncVal):
            h = self.contracts.get(f.qual)
            if h is not None:
                r = h(self, *args, **kw)
                if r is not NotImplemented: return r
            return self.call_func(f, args, kw)
        if isinstance(f, ClassVal):
            h = self.contracts.get(f'{f.mod.name}.{f.name}')
            if h is not None:
                r = h(self, *args, **kw)
                if r is not NotImplemented: return r
            return self.instantiate(f, args, kw)
        if isinstance(f, Lib):
            from . import libs
            return libs.call(self, f.name, args, kw)
        if isinstance(f, T):
            return self.call_term(f, args, kw)
        if callable(f): return f(self, *args, **kw)
        if type(f).__name__ == 'FuncSX':
            from . import libs
            if not kw: return libs.call_funcsx(self, f, args)
        raise Unsupported(f'call of {f!r}')

    def call_term(self, f, args, kw):
        if f.op in ('app', 'var') and isinstance(f.args[1], str) and f.args[1] in self.obj_call:
            return self.obj_call[f.args[1]](self, f, args, kw)
        raise Unsupported(f'call of {f!r}')

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            if not a.vararg: raise PyRaise('TypeError')
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg: env[a.vararg.arg] = ()
        for n, v in zip(names, args): env[n] = v
        kwx = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env: raise PyRaise('TypeError')
                env[k] = v
            elif a.kwarg: kwx[k] = v
            else: raise PyRaise('TypeError')
        if a.kwarg: env[a.kwarg.arg] = self.new(DictC(kwx))
        denv = {'__module__': f.mod}
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in env:
                if not immutable(d) and n in mutated(f.node): raise Unsupported(f'default value of {n} is changed in place')
                env[n] = self.ev(d, denv)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None: env[x.arg] = self.ev(d, denv)
        for n in names:
            if n not in env: raise PyRaise('TypeError', f'missing argument {n} of {f.name}')
        return env

    def call_func(self, f, args, kw):
        self.depth += 1
        if self.depth > 60: raise Unsupported('recursion too deep')
        node = f.node
        for d in getattr(node, 'decorator_list', ()):
            if not (isinstance(d, ast.Name) and d.id in PLAIN_DECO or isinstance(d, ast.Attribute) and d.attr in ('abstractmethod', 'setter')): raise Unsupported(f'decorator {ast.unparse(d)}')
        self.prog.touched[f.qual] = (f.mod.name + '.py', node.lineno, node.end_lineno)
        env = self.bind_args(f, list(args), kw)
        env['__module__'] = f.mod
        env['__class__'] = f.cls
        env['__self__'] = args[0] if args else None
        env['__fnode__'] = node
        env['__clo__'] = f.clo
        try:
            if isinstance(node, ast.Lambda): return self.ev(node.body, env)
            self.exec_block(node.body, env)
        except ReturnEx as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    def instantiate(self, c, args, kw):
        if c.enum is not None: raise Unsupported('enum call')
        r = self.new(InstC(c, {}))
        init = c.lookup('__init__')
        if init is not None: self.call(init, [r] + list(args), kw)
        elif any(isinstance(d, ast.Name) and d.id == 'dataclass' for d in c.node.decorator_list):
            fields = [(s.target.id, s.value) for s in c.node.body if isinstance(s, ast.AnnAssign)]
            at = {}
            for (n, d), v in zip(fields, args): at[n] = v
            at.update(kw)
            for n, d in fields:
                if n not in at:
                    if d is None: raise PyRaise('TypeError')
                    at[n] = self.dc_default(d, c.mod)
            self.heap[r.a] = InstC(c, at)
        elif args or kw: raise Unsupported('constructor')
        return r

    def dc_default(self, d, mod):
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id == 'field':
            for k in d.keywords:
                if k.arg == 'default_factory':
                    return self.call(self.ev(k.value, {'__module__': mod}), [])
        return self.ev(d, {'__module__': mod})

    # ---------------------------------------------------------- expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported(f'expression {type(e).__name__}')
        return m(e, env)

    def e_Constant(self, e, env): return e.value

    def lookup(self, name, env):
        if name in env: return env[name]
        clo = env.get('__clo__')
        if clo is not None and name in clo: return clo[name]
        mod = env['__module__']
        if name in mod.ns:
            v = mod.ns[name]
            if isinstance(v, ast.AST):
                if name in mod.mut and not immutable(v) or any(isinstance(n, ast.Global) and name in n.names for n in ast.walk(ast.parse(self.prog.texts[mod.name]))): raise Unsupported(f'module-level state {name}')
                return self.ev(v, {'__module__': mod})
            return v
        if (clo is not None or name in mod.bound or '*' in mod.bound) and '__fnode__' in env and name not in local_names(env['__fnode__']): raise Unsupported(f'name {name}')
        from . import libs
        if name in libs.BUILTINS: return libs.BUILTINS[name]
        if name in ('Exception', 'ValueError', 'TypeError', 'NotImplementedError', 'Warning', 'RuntimeError', 'IndexError', 'KeyError'):
            return Lib('exc.' + name)
        import builtins
        if hasattr(builtins, name): raise Unsupported(f'name {name}')
        raise PyRaise('UnboundLocalError', name)

    def e_Name(self, e, env):
        v = self.lookup(e.id, env)
        if isinstance(v, Poison): raise Unsupported('variable carried over from the preceding iteration')
        return v
    def e_Tuple(self, e, env): return tuple(self._elts(e.elts, env))

    def _elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred): out += self.concrete_items(self.ev(x.value, env))
            else: out.append(self.ev(x, env))
        return out

    def e_List(self, e, env):
        it = self._elts(e.elts, env)
        for x in it: self.share(x)
        return self.pylist(it)
    def e_Set(self, e, env): return self.pylist(self._elts(e.elts, env))

    def e_Dict(self, e, env):
        return self.new(DictC({self.ev(k, env): self.ev(v, env) for k, v in zip(e.keys, e.values)}))

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant): parts.append(str(v.value))
            elif v.conversion == -1 and v.format_spec is None and isinstance(v.value, (ast.Name, ast.Attribute)):
                try: x = self.ev(v.value, env)
                except (PyRaise, Unsupported): x = None
                parts.append(str(x) if isinstance(x, str) or type(x) is int else '{}')
            else: parts.append('{}')
        return ''.join(parts)

    def e_FormattedValue(self, e, env): return ''

    def e_Lambda(self, e, env): return FuncVal(e, env['__module__'], clo=env)

    def e_IfExp(self, e, env):
        c = self.truth(self.ev(e.test, env))
        return self.ev(e.body if self.decide(c) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env); env[e.target.id] = v; return v

    def truth(self, v):
        """bool or condition term"""
        if isinstance(v, bool): return v
        if v is None: return False
        if isinstance(v, (int, float, Fraction)): return bool(v)
        if isinstance(v, (str, tuple)): return bool(v)
        if isinstance(v, (Ref, SubRef)):
            c = self.cell(v)
            if isinstance(c, Seq) and c.kind in ('list', 'tuple'): return self.boolc(neg_c(eq(vlen(c.v), ZERO)))
            if isinstance(c, DictC): return bool(c.d)
            if isinstance(c, Seq) and len(c.v.args) == 2 and c.v.args[1].op == 'one': return self.truth(self.thaw(c.v.args[1].args[0]))
            if isinstance(c, InstC): return True
            raise Unsupported('truth value of an array')
        if isinstance(v, (FuncVal, ClassVal, Lib, BoundM, EnumM)): return True
        if isinstance(v, T):
            if v.op in BOOL or (v.op in ('var', 'app') and v.args[1] == 'B'): return v
            if v.op == 'ite' and (v.args[1].op in BOOL or v.args[1].op in ('var', 'app') and v.args[1].args[1] == 'B'):
                return disj(conj(v.args[0], v.args[1]), conj(neg_c(v.args[0]), v.args[2]))
            if v.op == 'const': return bool(v.args[0])
            if v.op in ('var', 'app') and isinstance(v.args[1], str) and v.args[1][:2] in ('O:',): return True
            return neg_c(eq(v, ZERO))
        raise Unsupported(f'truth value of {v!r}')

    def boolc(self, c):
        return True if c is TRUE else False if c is FALSE else c

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1: return v
            c = self.truth(v)
            if isinstance(c, bool):
                if c != isand: return v
                continue
            # symbolic: keep as a condition when the rest has no effect
            if self.pure(e.values[i + 1:]):
                rest = [c]
                ok = True
                for y in e.values[i + 1:]:
                    saved = list(self.pc)
                    self.pc.append((len(self.levels) - 1, c if isand else neg_c(c)))
                    try: cy = self.truth(self.ev(y, env))
                    finally:
                        extra = [p for p in self.pc[len(saved) + 1:] if p[0] < len(self.levels) - 1 or True]
                        lost = self.pc[len(saved) + 1:]
                        self.pc = saved
                        if lost: ok = False
                    if not ok: break
                    rest.append(lift(cy)); c = conj(*rest) if isand else disj(*rest)
                if ok: return self.boolc(conj(*rest) if isand else disj(*rest))
            if self.decide(c) != isand: return v
        return v

    def pure(self, nodes):
        for n in nodes:
            for x in ast.walk(n):
                if isinstance(x, (ast.Call, ast.NamedExpr)):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('len', 'isinstance', 'bool', 'abs'): continue
                    return False
        return True

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else self.boolc(neg_c(c))
        if isinstance(e.op, ast.USub): return self.unop(neg, v)
        if isinstance(e.op, ast.UAdd): return v
        raise Unsupported('unary operator')

    def unop(self, f, v):
        if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool): return unlift(f(lift(v)))
        if isinstance(v, T): return f(v) if not self._container(v) else self.unop(f, self.thaw(v))
        c = self.cell(v)
        if isinstance(c, Seq): return self.new(Seq(c.kind, self.map_vec(c.v, f)))
        if isinstance(c, MatC): return self.new(MatC(c.kind, c.nc, self.map_vec(c.rows, lambda r: self.map_vec(r, f))))
        raise Unsupported('operator')

    def e_BinOp(self, e, env):
        return self.binop(type(e.op).__name__, self.ev(e.left, env), self.ev(e.right, env))

    def binop(self, op, a, b):
        from . import libs
        return libs.binop(self, op, a, b)

    def e_Compare(self, e, env):
        l = self.ev(e.left, env); res = []
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, env)
            res.append(self.compare(type(op).__name__, l, r)); l = r
        if len(res) == 1: return res[0]
        return self.boolc(conj(*[lift(self.truth(x)) for x in res]))

    def compare(self, op, a, b):
        from . import libs
        return libs.compare(self, op, a, b)

    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.ev_index(e.slice, env))

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[self.ev(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple): return tuple(self.ev_index(x, env) for x in s.elts)
        return self.ev(s, env)

    def getitem(self, o, i):
        from . import libs
        return libs.getitem(self, o, i)

    def setitem(self, o, i, v):
        from . import libs
        return libs.setitem(self, o, i, v)

    def e_Attribute(self, e, env): return self.getattr(self.ev(e.value, env), self.mangle(e.attr, env))

    def mangle(self, a, env):
        return a

    def getattr(self, o, a):
        if isinstance(o, (Ref, SubRef)):
            c = self.cell(o)
            if isinstance(c, InstC):
                if a in c.at: return c.at[a]
                if a == '__dict__': return self.new(DictC(dict(c.at)))
                m = c.cls.lookup(a) if isinstance(c.cls, ClassVal) else None
                if isinstance(m, FuncVal):
                    if any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in m.node.decorator_list): return m
                    if any(isinstance(d, ast.Name) and d.id == 'property' for d in m.node.decorator_list): return self.call(m, [o])
                    return BoundM(o, m)
                if isinstance(m, ast.AST):
                    if isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id == 'property':
                        for k in m.keywords:
                            if k.arg == 'fget': return self.call(self.ev(k.value, {'__module__': c.cls.mod}), [o])
                    if not any(isinstance(d, ast.Name) and d.id == 'dataclass' for d in c.cls.node.decorator_list) and not immutable(m) and any(a in q.mut for q in self.prog.mods.values()): raise Unsupported(f'class-level state {a}')
                    return self.dc_default(m, c.cls.mod)
                h = self.obj_attr.get('class:' + (c.cls.name if isinstance(c.cls, ClassVal) else str(c.cls)))
                if h is not None:
                    r = h(self, o, a)
                    if r is not NotImplemented:
                        c = self.heap[o.a]; at = dict(c.at); at[a] = r; self.heap[o.a] = InstC(c.cls, at)
                        return r
                if isinstance(o, Ref) and o.a in self.history and a in self.prog.stored(c.cls): return app('left_' + a, sort='O:left')
                raise PyRaise('AttributeError', a)
            if isinstance(c, OpaqueC): return c.h.getattr(self, o, a)
        if isinstance(o, T) and o.op in ('app', 'var') and o.args[1] in self.obj_attr:
            return self.obj_attr[o.args[1]](self, o, a)
        if isinstance(o, T) and o.op == 'ite' and o.args[1].op in ('app', 'var', 'ite', 'const'):
            if self.decide(o.args[0]): return self.getattr(self.thaw(o.args[1]), a)
            return self.getattr(self.thaw(o.args[2]), a)
        if isinstance(o, ClassVal):
            m = o.lookup(a)
            if m is None: raise PyRaise('AttributeError', a)
            if isinstance(m, ast.AST): return self.dc_default(m, o.mod)
            return m
        if isinstance(o, Lib):
            from . import libs
            nm = o.name + '.' + a
            return libs.CONSTS[nm] if nm in libs.CONSTS else Lib(nm)
        if isinstance(o, SuperV):
            for b in o.cls.bases:
                if isinstance(b, ClassVal):
                    m = b.lookup(a)
                    if isinstance(m, FuncVal): return BoundM(o.obj, m)
            return lambda I, *x, **k: None
        if isinstance(o, EnumM) and a == 'name': return o.name
        from . import libs
        if 'sx' in self.obj_attr:
            r = self.obj_attr['sx'](self, o, a)
            if r is not NotImplemented: return r
        return libs.getattr_(self, o, a)

    def setattr(self, o, a, v):
        if isinstance(o, Ref):
            c = self.heap[o.a]
            if isinstance(c, InstC):
                m = c.cls.lookup(a) if isinstance(c.cls, ClassVal) else None
                if isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id == 'property':
                    for k in m.keywords:
                        if k.arg == 'fset': self.call(self.ev(k.value, {'__module__': c.cls.mod}), [o, v]); return
                at = dict(c.at); at[a] = v
                self.heap[o.a] = InstC(c.cls, at); return
            if isinstance(c, OpaqueC): return c.h.setattr(self, o, a, v)
        h = self.obj_attr.get('set:' + str(o.args[1])) if isinstance(o, T) and o.op in ('app', 'var') else None
        if h is not None: return h(self, o, a, v)
        raise Unsupported(f'attribute assignment {a}')

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return SuperV(env['__class__'], env['__self__'])
        if isinstance(e.func, ast.Name) and e.func.id == 'locals': raise Unsupported('locals')
        f = self.ev(e.func, env)
        if isinstance(f, Lib) and f.name in ('print', 'exc.Warning'): return None
        if isinstance(f, Lib) and f.name == 'casadi.vertcat' and len(e.args) == 1 and isinstance(e.args[0], ast.Starred) and not e.keywords:
            return self.call(Lib('casadi.vcat'), [self.ev(e.args[0].value, env)])
        args = self._elts(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.cell(self.ev(k.value, env)).d; kw.update(d)
            else: kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw)

    # comprehensions
    def e_ListComp(self, e, env):
        out = self.new(Seq('list', vec('L', [])))
        env2 = dict(env)
        env2['__comp__'] = out
        self._comp(e.generators, 0, env2, lambda en: self.list_append(out, self.ev(e.elt, en)))
        return out

    e_GeneratorExp = e_ListComp
    def e_SetComp(self, e, env):
        from . import libs
        if 'set' not in libs.BUILTINS: raise Unsupported('set comprehension')
        return self.call(libs.BUILTINS['set'], [self.e_ListComp(e, env)])

    def e_DictComp(self, e, env):
        d = {}
        env2 = dict(env)
        self._comp(e.generators, 0, env2, lambda en: d.__setitem__(self.ev(e.key, en), self.ev(e.value, en)))
        return self.new(DictC(d))

    def _comp(self, gens, i, env, leaf):
        if i == len(gens): leaf(env); return
        g = gens[i]
        def body():
            for c in g.ifs:
                if not self.decide(self.truth(self.ev(c, env))): return
            self._comp(gens, i + 1, env, leaf)
        it = self.ev(g.iter, env)
        for q in ast.walk(g.target):        # the names of a comprehension are its own
            if isinstance(q, ast.Name): env.pop(q.id, None)
        self.iterate(it, lambda x: self.assign(g.target, x, env), body, env)

    # list mutation
    def list_append(self, r, v):
        c = self.cell(r)
        self.setcell(r, Seq(c.kind, vec('L', list(c.v.args[1:]) + [one(self.share(v))])))

    def share(self, v):
        """lists hold values: a list or array put into one must not be changed in place afterwards"""
        if isinstance(v, Ref) and isinstance(self.heap.get(v.a), (Seq, MatC)): self.shared.add(v.a)
        return self.freeze(v)

    def list_extend(self, r, v):
        c = self.cell(r)
        if isinstance(v, (RangeV, EnumV, ZipV)): v = self.listify(v)
        self.setcell(r, Seq(c.kind, vcat('L', c.v, self.vecof(v))))

    def listify(self, v):
        if isinstance(v, RangeV):
            return self.seq('list', gen('L', v.count(), lambda k: add(v.a, mul(k, v.step))))
        out = self.new(Seq('list', vec('L', [])))
        env = {}
        self.iterate(v, lambda x: env.__setitem__('x', x), lambda: self.list_append(out, env['x']), env)
        return out

    # ---------------------------------------------------------- events
    def emit(self, kind, **d):
        self.events.append(Event(kind, {k: self.freeze(v) for k, v in d.items()}))


def leaf_sort(v):
    for s in v.args[1:]:
        b = s.args[0] if s.op == 'one' else s.args[1]
        if b.op == 'vec':
            r = leaf_sort(b)
            if r is None: continue
        elif b.op in ('app', 'var'): r = b.args[1]
        elif is_int(b): r = 'I'
        else: r = 'R'
        if r == 'I': continue
        return r
    return 'I' if len(v.args) > 1 else None


class RangeV:
    def __init__(self, a, b, step=1): self.a, self.b, self.step = lift(a), lift(b), step
    def count(self):
        d = sub(self.b, self.a)
        if self.step == 1: return d
        if is_num(d): return num(max(0, -(-int(numval(d)) // self.step)))
        raise Unsupported('range with step')


class EnumV:
    def __init__(self, it, start=0): self.it, self.start = it, start


class ZipV:
    def __init__(self, its): self.its = its


class DictItems:
    def __init__(self, items): self.items = items


class SuperV:
    def __init__(self, cls, obj): self.cls, self.obj = cls, obj


def unlift(t):
    if isinstance(t, T):
        if t.op == 'num':
            f = t.args[0]
            return int(f) if f.denominator == 1 else t
        if t is TRUE: return True
        if t is FALSE: return False
        if t.op == 'const': return t.args[0]
    return t


def explore(run, max_paths=4000):
    """run(prefix) -> Interp; enumerates all decision sequences"""
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        n += 1
        if n > max_paths: raise Unsupported('too many paths')
        tm.reset_fresh()
        I = run(prefix)
        tr = I.levels[0].trace
        for i in range(len(prefix), len(tr)):
            if tr[i]: stack.append(tr[:i] + [False])
    return n
