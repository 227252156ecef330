"""Value-flow analysis of Python source (gated-SSA style abstract interpretation).

A root function is walked once, flow-sensitively; repository callees are analysed in context
(inlined) up to a bound.  Every expression gets a *term* that says where its value comes from
(value numbering over def-use chains); control-flow merges give gating terms ``ite``, loop-carried
variables give ``mu`` terms.  Every call, store, return and raise is recorded as an *event* with the
terms it uses, the conditions that control it (guards) and the loops around it.  Rules are queries
over events.  Nothing of the analysed code is executed and no path is enumerated or solved: merges
are joins, loops are summarised by one fix-point step."""
from __future__ import annotations
import ast
import itertools
import re
from collections import defaultdict
from dataclasses import dataclass, field
from typing import Callable, Dict, List, Optional, Tuple

from .model import Program, Func, Class, Module, AnalysisBroken, _dotted


# ------------------------------------------------------------------ terms
class T:
    __slots__ = ('op', 'a', '_h', '__weakref__')
    _tab: Dict = {}

    def __new__(cls, op, *a):
        k = (op, a) if not (op == 'const') else (op, type(a[0]).__name__, a)
        t = cls._tab.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op, t.a = op, a
            t._h = hash(k)
            cls._tab[k] = t
        return t

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def const(v):
    return T('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = T('undef')


ALIAS: Dict['T', str] = {}          # short names of call results, for listings only


def show(t, d=0) -> str:
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, d) for x in t) + ')'
        return repr(t)
    if d > 14:
        return '…'
    if t in ALIAS:
        return ALIAS[t]
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.a
    if o == 'const':
        return repr(a[0])
    if o == 'param':
        return a[0]
    if o == 'ref':
        return a[0].replace('klayout_pex_protobuf.', 'PB.').replace('klayout_pex.', '~')
    if o == 'attr':
        return f"{s(a[0])}.{a[1]}"
    if o == 'item':
        return f"{s(a[0])}[{s(a[1])}]"
    if o == 'slice':
        return f"{s(a[0])}[{':'.join(s(x) for x in a[1:])}]"
    if o in ('call', 'new'):
        args = [s(x) for x in a[1]] + [f"{k}={s(v)}" for k, v in a[2]]
        u = f"#{a[3]}" if o == 'new' else ''
        f = s(a[0]) if isinstance(a[0], T) else str(a[0]).replace('klayout_pex.', '~')
        return f"{f}{u}({', '.join(args)})"
    if o == 'bin':
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == 'un':
        return f"({a[0]} {s(a[1])})"
    if o == 'cmp':
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == 'not':
        return f"¬{s(a[0])}"
    if o in ('and', 'or'):
        return '(' + (' ∧ ' if o == 'and' else ' ∨ ').join(s(x) for x in a) + ')'
    if o == 'ite':
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if o == 'fstr':
        return 'f"' + ''.join(x.a[0] if x.op == 'const' and isinstance(x.a[0], str) else '{' + s(x) + '}' for x in a) + '"'
    if o == 'tuple':
        return '(' + ', '.join(s(x) for x in a) + ',)'
    if o == 'lit':
        if a[0] == 'dict':
            return '{' + ', '.join(f"{s(k)}: {s(v)}" for k, v in a[1]) + f"}}#{a[2]}"
        return f"{a[0]}[{', '.join(s(x) for x in a[1])}]#{a[2]}"
    if o in ('elem', 'index', 'key', 'val'):
        return f"{o}<{s(a[0])}>#{a[1]}"
    if o == 'mu':
        return f"mu#{a[0]}.{a[1] if not isinstance(a[1], tuple) else show(a[1])}"
    if o == 'comp':
        return f"{a[0]}comp#{a[1]}"
    if o == 'exists':
        return f"∃#{a[1]}∈{s(a[0])}:{s(a[2])}"
    if o == 'bound':
        return f"{s(a[0])}.{a[1].rsplit('.', 1)[-1]}"
    return f"{o}({', '.join(show(x, d + 1) for x in a)})"


def subterms(t, seen=None):
    """All terms inside t (pre-order)."""
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.a)


def is_const(t, *vals):
    return t is not None and t.op == 'const' and (not vals or any(t.a[0] == v and type(t.a[0]) is type(v) for v in vals))


# ------------------------------------------------------------------ conditions
_NOT: Dict[T, T] = {}


def mk_not(t):
    """negation normal form: 'not' stands only in front of atoms"""
    if t.op == 'not':
        return t.a[0]
    if t.op == 'const':
        return FALSE if t.a[0] else TRUE
    if t.op in ('and', 'or'):
        r = _NOT.get(t)
        if r is None:
            r = (mk_or if t.op == 'and' else mk_and)([mk_not(x) for x in t.a])
            _NOT[t] = r
        return r
    return T('not', t)


_SWAP = {'>': '<', '>=': '<='}


def mk_cmp(op, a, b):
    """canonical comparison operators: '==', '<', 'in', 'is' (negation outside)"""
    if op in ('>', '>='):
        a, b = b, a
        op = _SWAP[op]
    if op == '<=':
        return mk_not(mk_cmp('<', b, a))
    if op == '!=':
        return mk_not(mk_cmp('==', a, b))
    if op == 'is not':
        return mk_not(mk_cmp('is', a, b))
    if op == 'not in':
        return mk_not(mk_cmp('in', a, b))
    # len(x) tests -> truthiness
    if op == '<' and is_const(a, 0) and b.op == 'call' and b.a[0] == 'len':
        return truthy(b.a[1][0])
    if op == '<' and is_const(b, 1) and a.op == 'call' and a.a[0] == 'len':
        return mk_not(truthy(a.a[1][0]))
    if op == '==' and is_const(b, 0) and a.op == 'call' and a.a[0] == 'len':
        return mk_not(truthy(a.a[1][0]))
    if op == '==' and is_const(a, 0) and b.op == 'call' and b.a[0] == 'len':
        return mk_not(truthy(b.a[1][0]))
    if op in ('==', 'is'):
        if a is b and a.op != 'mu':
            return TRUE
        if a.op == 'const' and b.op == 'const':
            return const(a.a[0] == b.a[0] and type(a.a[0]) is type(b.a[0]))
        if NONE in (a, b) or (op == 'is' and (a.op in ('const', 'ref') or b.op in ('const', 'ref'))):
            op = '=='
            x = b if a is NONE else a
            if x.op in ('new', 'lit', 'tuple', 'fstr', 'comp', 'closure') and NONE in (a, b):
                return FALSE
        if a.op == 'ref' and b.op == 'ref' and a is not b and _enumlike(a) and _enumlike(b):
            return FALSE
        if op == '==' and TRUE in (a, b):
            pass
        if a._h > b._h or (b.op not in ('const', 'ref') and a.op in ('const', 'ref')):
            if not (a.op not in ('const', 'ref') and b.op in ('const', 'ref')):
                a, b = b, a
        # comparison of a gated value with a constant
        if a.op == 'ite' and b.op in ('const', 'ref'):
            p, q = mk_cmp('==', a.a[1], b), mk_cmp('==', a.a[2], b)
            if p in (TRUE, FALSE) or q in (TRUE, FALSE):
                return mk_ite(a.a[0], p, q)
    if op == '<' and a.op == 'const' and b.op == 'const':
        try:
            return const(a.a[0] < b.a[0])
        except TypeError:
            pass
    if op == 'in' and b.op in ('tuple', 'lit'):
        elts = b.a if b.op == 'tuple' else (b.a[1] if b.a[0] != 'dict' else tuple(k for k, _ in b.a[1]))
        if elts or b.op == 'tuple':
            return mk_or([mk_cmp('==', a, e) for e in elts])
    return T('cmp', op, a, b)


def _enumlike(t):
    last = t.a[0].split('.')[-1]
    return last.isupper() or last[:1].isupper()


def truthy(t):
    if t.op == 'const':
        return const(bool(t.a[0]))
    if t.op == 'call' and t.a[0] == 'bool' and len(t.a[1]) == 1:
        return truthy(t.a[1][0])
    if t.op == 'call' and t.a[0] == 'len' and len(t.a[1]) == 1:
        return truthy(t.a[1][0])
    if t.op == 'lit' and t.a[1]:
        return t
    if t.op == 'bin' and t.a[0] == '|':
        # booleans, numbers and collections alike: true if one of them is
        return mk_or([truthy(t.a[1]), truthy(t.a[2])])
    if t.op == 'bin' and t.a[0] == '&' and all(x.op in ('cmp', 'not', 'and', 'or') or x in (TRUE, FALSE) for x in t.a[1:]):
        return mk_and(list(t.a[1:]))
    if t.op == 'ite':
        # only the truth value counts here, so a gated value becomes a connective where it can
        c, x, y = t.a[0], truthy(t.a[1]), truthy(t.a[2])
        if x is c or x is TRUE:
            return mk_or([c, y])
        if y is c or y is FALSE:
            return mk_and([c, x])
        if x is FALSE:
            return mk_and([mk_not(c), y])
        if y is TRUE:
            return mk_or([mk_not(c), x])
        return mk_ite(c, x, y)
    return t


def _junction(ts, op, dual, neutral, absorbing):
    out = []
    for t in ts:
        if t.op == op:
            out.extend(t.a)
        elif t is neutral:
            continue
        elif t is absorbing:
            return absorbing
        else:
            out.append(t)
    u = dict.fromkeys(out)
    for t in u:
        if t.op not in (op, dual) and mk_not(t) in u:
            return absorbing
    again = any(t.op == dual for t in u)
    while again:
        again = False
        for t in list(u):
            if t.op != dual:
                continue
            if any(x in u for x in t.a):          # absorption
                del u[t]
                continue
            keep = [x for x in t.a if mk_not(x) not in u]
            if len(keep) < len(t.a):
                del u[t]
                if not keep:
                    return absorbing
                n = (mk_and if dual == 'and' else mk_or)(keep)
                if n.op == op:
                    u.update(dict.fromkeys(n.a))
                else:
                    u[n] = None
                if any(mk_not(x) in u for x in (n.a if n.op == op else (n,)) if x.op not in (op, dual)):
                    return absorbing
                again = True
    if not u:
        return neutral
    if len(u) == 1:
        return next(iter(u))
    return T(op, *sorted(u, key=lambda x: x._h))


def mk_and(ts):
    return _junction(ts, 'and', 'or', TRUE, FALSE)


def mk_or(ts):
    return _junction(ts, 'or', 'and', FALSE, TRUE)


def mk_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op in ('not', 'or'):
        return mk_ite(mk_not(c), b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mk_not(c)
    isb = lambda t: t.op in ('cmp', 'not', 'and', 'or', 'exists') or t in (TRUE, FALSE)
    if a is FALSE and isb(b):
        return mk_and([mk_not(c), b])
    if b is FALSE and isb(a):
        return mk_and([c, a])
    if a is TRUE and isb(b):
        return mk_or([c, b])
    if b is TRUE and isb(a):
        return mk_or([mk_not(c), a])
    # ite(c, ite(c, x, y), z)
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return T('ite', c, a, b)


Lit = Tuple[T, bool]


def literals(t: T, pol: bool = True) -> Optional[List[Lit]]:
    """conjunction of literals equivalent to (t == pol); None when it is contradictory"""
    t = truthy(t)
    if t.op == 'not':
        return literals(t.a[0], not pol)
    if t.op == 'const':
        return [] if bool(t.a[0]) == pol else None
    if (t.op == 'and' and pol) or (t.op == 'or' and not pol):
        out = []
        for x in t.a:
            l = literals(x, pol)
            if l is None:
                return None
            for q in l:
                if (q[0], not q[1]) in out:
                    return None
                if q not in out:
                    out.append(q)
        return out
    if t.op in ('and', 'or') and not (t.op == 'or' and pol):
        return [(mk_not(t), True)]
    return [(t, pol)]


def lit_term(l: Lit) -> T:
    return l[0] if l[1] else mk_not(l[0])


def simplify_dnf(conjs: List[Tuple[Lit, ...]]) -> List[Lit]:
    """disjunction of conjunctions -> conjunction of literals (exact; may give one or-literal)"""
    cs = [frozenset(c) for c in conjs]
    changed = True
    while changed:
        changed = False
        # absorption
        cs2 = []
        for c in cs:
            if any(o < c for o in cs) or c in cs2:
                changed = changed or any(o < c for o in cs)
                continue
            cs2.append(c)
        cs = cs2
        for i, j in itertools.permutations(range(len(cs)), 2):
            ci, cj = cs[i], cs[j]
            for (t, p) in ci:
                if t.op == 'or' and p:
                    neg = frozenset(x for d in t.a for x in (literals(d, False) or ()))
                    if neg and neg <= cj and ci - {(t, p)} <= cj - neg:
                        cs[j] = cj - neg
                        changed = True
                        break
                if (t, not p) in cj:
                    ri, rj = ci - {(t, p)}, cj - {(t, not p)}
                    if ri <= rj:
                        # ci or cj == ci or rj
                        cs[j] = rj
                        changed = True
                        break
            if changed:
                break
    if any(not c for c in cs):
        return []
    if len(cs) == 1:
        order = {l: n for n, l in enumerate(conjs[0])}
        return sorted(cs[0], key=lambda l: order.get(l, 99))
    common = frozenset.intersection(*cs)
    out = [l for l in conjs[0] if l in common] if common else []
    rest = [c - common for c in cs]
    out.append((mk_or([mk_and(sorted((lit_term(l) for l in c), key=lambda x: x._h)) for c in rest]), True))
    return out


# ------------------------------------------------------------------ events
@dataclass(eq=False)
class Loop:
    uid: int
    iter: Optional[T]           # iterated term (None: while loop)
    cond: Optional[T] = None
    elem: Optional[T] = None
    node: object = None
    copied: bool = False        # walks a copy of what is iterated over
    exits: List = field(default_factory=list)     # ('break'|'return'|'raise'|'continue', guards, loc)

    def __repr__(self):
        return f"for#{self.uid} in {self.iter}" if self.iter is not None else f"while#{self.uid} {self.cond}"


class KW(dict):
    """keyword arguments of a call; those given by position are found by their names too"""
    pos: Dict = {}

    def get(self, k, d=None):
        return dict.get(self, k, self.pos.get(k, d))

    def __getitem__(self, k):
        return dict.__getitem__(self, k) if dict.__contains__(self, k) else self.pos[k]

    def __contains__(self, k):
        return dict.__contains__(self, k) or k in self.pos


CURRENT = [None]


def param_names(prog, q, bound=None):
    """names of the parameters that can be given by position, without the receiver; None: not known"""
    f = prog.funcs.get(q)
    if f is None:
        c = prog.classes.get(q)
        if c is None or c.is_enum:
            return None
        f = prog.find_method(q, '__init__')
        if f is None:
            if not c.is_dataclass:
                return None
            out = []
            for b in [prog.classes[x] for x in reversed(list(prog._all_bases(c))) if x in prog.classes] + [c]:
                out += [x for x in b.ann_order if x not in out]
            return out
        skip = 1
    else:
        skip = len(bound) if bound is not None else 1 if f.kind in ('method', 'classmethod', 'property') else 0
    a = f.node.args
    if a.vararg or a.posonlyargs:
        return None
    return [x.arg for x in a.args][skip:]


def by_position(prog, q, args, kw, bound=None):
    """the arguments of a call, by position as far as they can be"""
    ps = param_names(prog, q, bound)
    if ps is None or any(getattr(x, 'op', '') == 'star' for x in args) or len(args) > len(ps) or '**' in kw or None in kw:
        return list(args), KW(kw)
    args, kw = list(args), KW(kw)
    while len(args) < len(ps) and dict.__contains__(kw, ps[len(args)]):
        args.append(kw.pop(ps[len(args)]))
    kw.pos = dict(zip(ps, args))
    return args, kw


@dataclass(eq=False)
class Event:
    idx: int
    kind: str               # call | store | setitem | delitem | return | raise | assert | yield
    callee: str             # resolved dotted name, or '.method' of an unresolved receiver
    recv: Optional[T]
    args: Tuple[T, ...]
    kw: Dict[str, T]
    guards: Tuple[Lit, ...]
    loops: Tuple[Loop, ...]
    loc: str
    ctx: Tuple[str, ...]    # inlining stack (qualnames), root first
    result: Optional[T] = None
    node: object = None
    recv_type: object = None
    deferred: bool = False
    after: frozenset = frozenset()      # loops whose elements had all been collected before

    @property
    def name(self):
        return self.callee.rsplit('.', 1)[-1]

    @property
    def func(self):
        return self.ctx[-1]

    def arg(self, i, name=None):
        if name is not None and name in self.kw:
            return self.kw[name]
        if i is not None and i < len(self.args):
            return self.args[i]
        return None

    def has(self, t, pol=True):
        return (t, pol) in self.guards

    def __repr__(self):
        g = ' ∧ '.join(('' if p else '¬') + show(t) for t, p in self.guards)
        L = ' '.join(repr(l) for l in self.loops)
        return (f"[{self.idx}] {self.kind} {show(self.recv) + ' ' if self.recv is not None else ''}{self.callee}"
                f"({', '.join([show(x) for x in self.args] + [f'{k}={show(v)}' for k, v in self.kw.items()])})"
                f"\n      @ {self.loc} in {self.func.split('.')[-1]}  L[{L}]\n      G[{g}]")


class _State:
    __slots__ = ('envs', 'heap', 'guards')

    def __init__(self, envs, heap, guards):
        self.envs, self.heap, self.guards = envs, heap, guards

    def fork(self):
        return _State({k: dict(v) for k, v in self.envs.items()}, dict(self.heap), self.guards)


@dataclass(eq=False)
class _Frame:
    id: int
    func: Optional[Func]
    module: Module
    cls: Optional[Class]
    parent: Optional['_Frame'] = None
    returns: List = field(default_factory=list)
    loop_depth: int = 0
    entry_guards: Tuple = ()
    nonlocals: set = field(default_factory=set)
    globals_: set = field(default_factory=set)
    yields: Optional[list] = None
    assigned: set = field(default_factory=set)
    base_loops: int = 0


WATCHED_LOADS = {'returncode'}
FOLDED = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'casefold', 'startswith', 'endswith', 'capitalize', 'title', 'swapcase', 'isdigit'}
# calls whose value at module level depends on their arguments only
PURE_CALLS = {'re.compile', 'frozenset', 'set', 'tuple', 'dict', 'list', 'float', 'int', 'str', 'Path', 'pathlib.Path'}
MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'pop', 'popitem', 'remove', 'discard', 'clear', 'sort', 'reverse', 'setdefault'}
FRESH_METHODS = {'add', 'dup', 'create_category', 'create_item', 'create_cell', 'create_net', 'create_pin',
                 'create_device', 'create_node', 'add_argument_group', 'begin_shapes_rec', 'each_shape'}
BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__.keys())


class Engine:
    def __init__(self, prog: Program, opaque: Callable[[str], bool] = lambda q: False, max_depth=10,
                 max_events=60000, unroll=True):
        self.prog = prog
        CURRENT[0] = prog
        self.opaque = opaque
        self.max_depth = max_depth
        self.max_events = max_events
        self.events: List[Event] = []
        self.types: Dict[T, object] = {}
        self.loops: List[Loop] = []
        self.loop_by_uid: Dict[int, Loop] = {}
        self.collected: List[tuple] = []
        self.frames: List[_Frame] = []
        self.uid = itertools.count(1)
        self.mu_info: Dict[T, Tuple[T, T]] = {}
        self.comps: Dict[int, dict] = {}
        self.created: Dict[T, Tuple[Loop, ...]] = {}
        self.closures: Dict[T, Tuple] = {}
        self.unroll = unroll
        self.warn: List[str] = []
        self._const_stack: List[str] = []
        self._discard = 0
        self.mutated: set = set()
        self.try_alive: Dict[int, list] = {}    # try uid -> handlers that continue
        self.inlined: set = set()
        self.by_recv: Dict[T, List[Event]] = defaultdict(list)

    # ---------------------------------------------------------------- entry
    def run(self, qual: str, args: Optional[Dict[str, T]] = None, init=False) -> 'Engine':
        f = self.prog.funcs.get(qual)
        if f is None:
            raise AnalysisBroken(f"anchor {qual} is gone from the source")
        st = _State({}, {}, ())
        if f.cls is not None and f.kind in ('method', 'property'):
            selft = T('param', 'self')
            self.types[selft] = ('cls', f.cls.qual)
            if init:
                fi = self.prog.find_method(f.cls.qual, '__init__')
                if fi is not None:
                    iargs = {p: T('param', f"init.{p}") for p in fi.params if p != 'self'}
                    self._param_types(fi, iargs)
                    iargs['self'] = selft
                    _, end = self._inline(fi, None, None, st, bound=iargs, node=fi.node)
                    if end is not None:
                        kept = self._settled_fields(f.cls, fi)
                        st = _State({}, {k: v for k, v in end.heap.items() if k[0] is selft and k[1] in kept}, ())
        a = dict(args or {})
        for p in f.params:
            if p in a:
                continue
            t = T('param', p)
            a[p] = t
        self._param_types(f, a)
        if f.cls is not None and f.kind in ('method', 'property') and 'self' in a:
            self.types[a['self']] = ('cls', f.cls.qual)
        if f.cls is not None and f.kind == 'classmethod':
            a[f.params[0]] = T('ref', f.cls.qual)
        self.result, self.final = self._inline(f, None, None, st, bound=a, node=f.node)
        return self

    def _constructed_types(self, q) -> dict:
        """types of the fields of an object, as its constructor leaves them"""
        memo = self.prog.__dict__.setdefault('_ctor_types', {})
        if q not in memo:
            memo[q] = {}
            fi = self.prog.find_method(q, '__init__')
            if fi is not None and fi.cls is not None and fi.cls.qual in self.prog.classes:
                m = fi.module.name
                e = Engine(self.prog, opaque=lambda x: not x.startswith(m + '.'), max_depth=4)
                try:
                    e.run(fi.qual)
                    for (o, n), v in (e.final.heap if e.final is not None else {}).items():
                        if o.op == 'param' and o.a[0] == fi.params[0] and isinstance(n, str):
                            ty = e.type_of(v)
                            if ty:
                                memo[q][n] = ty
                except AnalysisBroken:
                    pass
        return memo[q]

    def _settled_fields(self, cls, fi) -> set:
        """the fields of an object that only its constructor sets or changes"""
        part = [fi]

        def touched(g):
            for n in ast.walk(g.node):
                x = None
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    x = n
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    x = n.value
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    x = n.func.value
                if isinstance(x, ast.Attribute):
                    mine = isinstance(x.value, ast.Name) and x.value.id == 'self'
                    if not mine or g.cls is cls or g in part:
                        yield x.attr
        # functions that nobody but the constructor calls are part of it
        for h in part:
            for n in ast.walk(h.node):
                if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                    if isinstance(n.func, ast.Name):
                        g = self.prog.funcs.get(self.prog.resolve_expr_name(n.func, h.module, h.cls) or '')
                        gs = [g] if g is not None else []
                        mods = [m for m in self.prog.modules.values() if gs and (m is g.module or g.qual in m.imports.values())]
                    else:
                        gs = [g for g in self.prog.funcs.values() if g.name == n.func.attr]
                        mods = list(self.prog.modules.values())
                    if len(gs) == 1 and gs[0] not in part and not self._named_outside(gs[0].name, part + gs, mods):
                        part.append(gs[0])
        own = set().union(*(touched(h) for h in part))
        for g in self.prog.funcs.values():
            if g not in part:
                own -= set(touched(g))
        return own

    def _named_outside(self, nm, funcs, mods):
        """is the name used in these modules anywhere but in these functions"""
        skip = {id(g.node) for g in funcs}

        def walk(n):
            if id(n) in skip:
                return False
            if isinstance(n, ast.Name) and n.id == nm or isinstance(n, ast.Attribute) and n.attr == nm or isinstance(n, ast.Constant) and n.value == nm:
                return True
            return any(walk(c) for c in ast.iter_child_nodes(n))
        return any(walk(m.tree) for m in mods)

    def _param_types(self, f: Func, a):
        ar = f.node.args
        for p in ar.posonlyargs + ar.args + ar.kwonlyargs:
            if p.annotation is not None and p.arg in a and a[p.arg] not in self.types:
                ty = self.prog.parse_type(p.annotation, f.module, f.cls)
                if ty:
                    self.types[a[p.arg]] = ty

    # ---------------------------------------------------------------- types
    def type_of(self, t: T):
        if t in self.types:
            return self.types[t]
        r = None
        if t.op == 'attr':
            bt = self.type_of(t.a[0])
            r = self.prog.attr_type(bt, t.a[1])
            if r is None and t.a[0].op == 'ref':
                q = f"{t.a[0].a[0]}.{t.a[1]}"
                if q in self.prog.classes:
                    r = None
            if r is None and bt and bt[0] == 'cls' and bt[1] in self.prog.classes:
                r = self._constructed_types(bt[1]).get(t.a[1])
        elif t.op == 'item':
            bt = self.type_of(t.a[0])
            if bt:
                if bt[0] == 'list':
                    r = bt[1]
                elif bt[0] == 'dict':
                    r = bt[2]
                elif bt[0] == 'tuple' and t.a[1].op == 'const' and isinstance(t.a[1].a[0], int):
                    i = t.a[1].a[0]
                    r = bt[1][i] if -len(bt[1]) <= i < len(bt[1]) else None
        elif t.op in ('elem', 'key'):
            bt = self.type_of(t.a[0])
            if bt and bt[0] in ('list', 'set'):
                r = bt[1]
            elif bt and bt[0] == 'dict':
                r = bt[1]
            elif bt and bt[0] == 'cls' and bt[1] in self.prog.classes and self.prog.classes[bt[1]].is_enum:
                r = bt
            elif t.a[0].op == 'ref' and t.a[0].a[0] in self.prog.classes:
                r = ('cls', t.a[0].a[0])
        elif t.op == 'val':
            bt = self.type_of(t.a[0])
            if bt and bt[0] == 'dict':
                r = bt[2]
        elif t.op == 'new':
            r = ('cls', t.a[0]) if isinstance(t.a[0], str) and not t.a[0].startswith('.') else None
            if isinstance(t.a[0], str) and t.a[0] == '.add':
                # protobuf repeated field .add()
                bt = self.type_of(t.a[1][0]) if t.a[1] else None
                if bt and bt[0] == 'list':
                    r = bt[1]
            elif isinstance(t.a[0], str) and t.a[0] == '.dup' and t.a[1]:
                r = self.type_of(t.a[1][0])
            elif isinstance(t.a[0], str) and t.a[0].split('.')[-1] in ('deepcopy', 'copy') and t.a[1]:
                r = self.type_of(t.a[1][0])
        elif t.op == 'call':
            fn = t.a[0]
            if isinstance(fn, str):
                if fn in self.prog.funcs:
                    r = self.prog.return_type(self.prog.funcs[fn])
                elif fn in ('sorted', 'list', 'reversed', 'tuple') and t.a[1]:
                    bt = self.type_of(t.a[1][0])
                    if bt and bt[0] in ('list', 'set', 'dict'):
                        r = ('list', bt[1])
                elif fn in ('.get', '.pop', '.setdefault') and t.a[1]:
                    bt = self.type_of(t.a[1][0])
                    if bt and bt[0] == 'dict':
                        r = bt[2]
                    elif bt and bt[0] == 'list':
                        r = bt[1]
                elif fn in ('.values', '.keys') and t.a[1]:
                    bt = self.type_of(t.a[1][0])
                    if bt and bt[0] == 'dict':
                        r = ('list', bt[2] if fn == '.values' else bt[1])
                elif fn in ('len', 'int'):
                    r = ('cls', 'int')
        elif t.op == 'ref':
            q = t.a[0]
            p = q.rsplit('.', 1)
            if len(p) == 2 and p[0] in self.prog.classes and self.prog.classes[p[0]].is_enum:
                r = ('cls', p[0])
        elif t.op == 'ite':
            r = self.type_of(t.a[1]) or self.type_of(t.a[2])
        elif t.op == 'mu':
            i = self.mu_info.get(t)
            if i:
                self.types[t] = None
                r = self.type_of(i[0]) or (self.type_of(i[1]) if i[1] is not None else None)
                del self.types[t]
        elif t.op == 'slice':
            r = self.type_of(t.a[0])
        elif t.op == 'const':
            r = ('cls', type(t.a[0]).__name__)
        elif t.op == 'fstr':
            r = ('cls', 'str')
        elif t.op == 'lit':
            r = ('list' if t.a[0] in ('list',) else t.a[0], None, None)
            if t.a[0] == 'list' and t.a[1]:
                r = ('list', self.type_of(t.a[1][0]))
        elif t.op == 'comp':
            info = self.comps.get(t.a[1])
            if info:
                et = self.type_of(info['elt'])
                r = ('dict', self.type_of(info['key']), et) if t.a[0] == 'dict' else \
                    ('set' if t.a[0] == 'set' else 'list', et)
        if r is not None:
            self.types[t] = r
        return r

    def cls_of(self, t: T) -> Optional[str]:
        ty = self.type_of(t)
        return ty[1] if ty and ty[0] == 'cls' else None

    # ---------------------------------------------------------------- events
    def emit(self, kind, callee, recv, args, kw, st, node, result=None):
        fr = self.frames[-1]
        e = Event(len(self.events), kind, callee, recv, tuple(args), kw if isinstance(kw, KW) else KW(kw), st.guards, tuple(self.loops),
                  f"{fr.module.rel}:{getattr(node, 'lineno', 0)}",
                  tuple(f.func.qual if f.func else f.module.name + '.<module>' for f in self.frames), result, node)
        if self.collected:
            e.after = frozenset(u for us in self.collected for u in us)
        if recv is not None:
            e.recv_type = self.type_of(recv)
            self.by_recv[recv].append(e)
        self.events.append(e)
        if len(self.events) > self.max_events:
            raise AnalysisBroken(f"event budget exceeded while analysing {e.ctx[0]}")
        return e

    # ---------------------------------------------------------------- env
    def _lookup(self, name, st):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            env = st.envs.get(f.id)
            if env is not None and name in env:
                return env[name]
            f = f.parent
        return self._global(name, fr)

    def _global(self, name, fr):
        m = fr.module
        c = fr.cls
        q = self.prog.resolve_name(name, m)
        if q is None:
            if name in ('True', 'False', 'None'):
                return const({'True': True, 'False': False, 'None': None}[name])
            return T('ref', name if name in BUILTINS else f"{m.name}.{name}")
        return self._ref(q)

    def _ref(self, q: str) -> T:
        """term of a dotted global; simple module constants are folded"""
        q = self.prog.canonical(q)
        if q in self.prog.funcs or q in self.prog.classes:
            return T('ref', q)
        parts = q.rsplit('.', 1)
        if len(parts) == 2 and parts[0] in self.prog.modules:
            m = self.prog.modules[parts[0]]
            if parts[1] in m.consts:
                v = m.consts[parts[1]]
                if self._simple(v) and q not in self._const_stack:
                    self._const_stack.append(q)
                    try:
                        return self._eval_in_module(v, m)
                    finally:
                        self._const_stack.pop()
        if len(parts) == 2 and parts[0] in self.prog.classes:
            c = self.prog.classes[parts[0]]
            r = self.prog.find_const(parts[0], parts[1])
            if r and not c.is_enum and self._simple(r[1]) and q not in self._const_stack:
                self._const_stack.append(q)
                try:
                    return self._eval_in_module(r[1], r[0].module)
                finally:
                    self._const_stack.pop()
        return T('ref', q)

    def _simple(self, v):
        return all(isinstance(n, ast.Call) and ast.unparse(n.func) in PURE_CALLS or isinstance(n, ast.keyword) or
                   isinstance(n, (ast.Constant, ast.Tuple, ast.List, ast.Set, ast.Dict, ast.BinOp, ast.UnaryOp, ast.operator,
                                  ast.unaryop, ast.expr_context, ast.Name, ast.Attribute, ast.JoinedStr,
                                  ast.FormattedValue, ast.Load)) for n in ast.walk(v))

    def _eval_in_module(self, v, m):
        fr = _Frame(next(self.uid), None, m, None)
        self.frames.append(fr)
        try:
            st = _State({fr.id: {}}, {}, ())
            n = len(self.events)
            t = self.eval(v, st)
            del self.events[n:]
            return t
        finally:
            self.frames.pop()

    def _bind(self, name, val, st):
        fr = self.frames[-1]
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in st.envs.get(f.id, {}):
                f = f.parent
            f = f or fr
        st.envs.setdefault(f.id, {})[name] = val

    # ---------------------------------------------------------------- joining
    def join(self, states: List[_State], conds: Optional[List[T]] = None) -> Optional[_State]:
        """join alternatives that started from one common state"""
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        # common guard prefix
        k = 0
        while all(len(s.guards) > k for s in states) and len({s.guards[k] for s in states}) == 1:
            k += 1
        pre = states[0].guards[:k]
        rels = [s.guards[k:] for s in states]
        guards = pre + tuple(l for l in simplify_dnf(list(rels)) if l not in pre)
        sel = [mk_and([lit_term(l) for l in r]) for r in rels]
        # fold from the last; conditions made relative
        res = states[-1]
        envs = {k2: dict(v) for k2, v in res.envs.items()}
        heap = dict(res.heap)
        for s, c in zip(reversed(states[:-1]), reversed(sel[:-1])):
            for fid, env in s.envs.items():
                tgt = envs.setdefault(fid, {})
                for n in set(env) | set(tgt):
                    a, b = env.get(n, UNDEF), tgt.get(n, UNDEF)
                    if a is b:
                        continue
                    tgt[n] = b if a is UNDEF else a if b is UNDEF else mk_ite(c, a, b)
            for key in set(s.heap) | set(heap):
                a, b = s.heap.get(key), heap.get(key)
                if a is b:
                    continue
                if a is None:
                    a = self._heap_default(key)
                if b is None:
                    b = self._heap_default(key)
                heap[key] = mk_ite(c, a, b)
        return _State(envs, heap, guards)

    def _heap_default(self, key):
        base, sel = key
        if isinstance(sel, str):
            return T('attr', base, sel)
        return T('item', base, sel)

    # ---------------------------------------------------------------- statements
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def _assume(self, st, cond: T, pol=True):
        ls = literals(cond, pol)
        if ls is None:
            return None
        s = st.fork()
        add = []
        for l in ls:
            if (l[0], not l[1]) in s.guards:
                return None
            if l[0].op == 'or' and l[1] and all(
                    (q := literals(d, False)) and all(x in s.guards for x in q) for d in l[0].a):
                return None
            if l not in s.guards and l not in add:
                add.append(l)
        s.guards = s.guards + tuple(add)
        return s

    def stmt(self, s, st: _State) -> Optional[_State]:
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken(f"unsupported statement {type(s).__name__} at "
                                 f"{self.frames[-1].module.rel}:{s.lineno}")
        return m(s, st)

    def s_Pass(self, s, st):
        return st

    def s_Global(self, s, st):
        self.frames[-1].globals_.update(s.names)
        return st

    def s_Nonlocal(self, s, st):
        self.frames[-1].nonlocals.update(s.names)
        return st

    def s_Import(self, s, st):
        for a in s.names:
            n = a.asname or a.name.split('.')[0]
            self._bind(n, self._ref(a.name if a.asname else n), st)
        return st

    def s_ImportFrom(self, s, st):
        m = self.frames[-1].module
        tmp = Module.__new__(Module)
        tmp.name, tmp.is_pkg, tmp.imports, tmp.star = m.name, m.is_pkg, {}, []
        self.prog._add_import(tmp, s)
        for k, v in tmp.imports.items():
            self._bind(k, self._ref(v), st)
        return st

    def s_FunctionDef(self, s, st):
        fr = self.frames[-1]
        q = f"{fr.func.qual if fr.func else fr.module.name}.<locals>.{s.name}"
        f = Func(q, s.name, s, fr.module, fr.cls, 'closure')
        t = T('closure', q, s.lineno, next(self.uid))
        self.closures[t] = (f, fr)
        self._bind(s.name, t, st)
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st):
        fr = self.frames[-1]
        q = f"{fr.func.qual if fr.func else fr.module.name}.<locals>.{s.name}"
        if q not in self.prog.classes:
            c = self.prog._index_class(fr.module, s, q.rsplit('.', 1)[0])
            c.bases = [self.prog.resolve_expr_name(b, fr.module) or '?' for b in s.bases]
        self._bind(s.name, T('ref', q), st)
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            return self._yield(s.value, st)
        self._dead = False
        v = self.eval(s.value, st)
        return None if st.guards is None else self._post(st)

    def _post(self, st):
        return None if st.guards is None else st

    def _yield(self, n, st):
        fr = self.frames[-1]
        v = self.eval(n.value, st) if n.value is not None else NONE
        if isinstance(n, ast.YieldFrom):
            lp = self._open_loop(v, n)
            v = lp.elem
            if fr.yields is not None:
                fr.yields.append((v, st.guards, tuple(self.loops), None))
            self.emit('yield', 'yield', None, (v,), {}, st, n)
            self.loops.pop()
        else:
            if fr.yields is not None:
                fr.yields.append((v, st.guards, tuple(self.loops), None))
            self.emit('yield', 'yield', None, (v,), {}, st, n)
        return self._post(st)

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        if st.guards is None:
            return None
        for t in s.targets:
            self.assign(t, v, st, s)
        return self._post(st)

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return st
        v = self.eval(s.value, st)
        if st.guards is None:
            return None
        ty = self.prog.parse_type(s.annotation, self.frames[-1].module, self.frames[-1].cls)
        if ty and v.op == 'lit' and not v.a[1]:
            self.types[v] = ty
        elif ty and v.op not in ('const', 'param'):
            self.types[v] = self.prog.refined(self.type_of(v), ty)
        self.assign(s.target, v, st, s)
        return self._post(st)

    def s_AugAssign(self, s, st):
        load = ast.copy_location(ast.parse(ast.unparse(s.target), mode='eval').body, s.target)
        for n in ast.walk(load):
            ast.copy_location(n, s.target) if hasattr(n, 'lineno') else None
        cur = self.eval(load, st)
        v = self.eval(s.value, st)
        if st.guards is None:
            return None
        op = _BINOPS[type(s.op)]
        # in-place mutation of containers
        if cur.op == 'lit' and cur.a[0] in ('list', 'set') or (self.type_of(cur) or ('',))[0] in ('list', 'set'):
            if op in ('+', '|'):
                self.emit('call', '.extend' if op == '+' else '.update', cur, (v,), {}, st, s)
                self.mutated.add(cur)
                return st
        ct = self.cls_of(cur)
        if ct and ct not in ('int', 'float', 'str', 'bool') and cur.op in ('new', 'param', 'attr', 'mu', 'call', 'item', 'ite', 'elem', 'val'):
            self.emit('call', f'.__i{op}__', cur, (v,), {}, st, s)
        r = self.mk_bin(op, cur, v)
        self.assign(s.target, r, st, s)
        return self._post(st)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.eval(t.value, st)
                i = self.eval(t.slice, st)
                self.emit('delitem', 'del', b, (i,), {}, st, s)
                st.heap.pop((b, i), None)
                self.mutated.add(b)
            elif isinstance(t, ast.Attribute):
                b = self.eval(t.value, st)
                self.emit('delattr', t.attr, b, (), {}, st, s)
            elif isinstance(t, ast.Name):
                st.envs[self.frames[-1].id].pop(t.id, None)
        return st

    def assign(self, tgt, v, st, node):
        if isinstance(tgt, ast.Name):
            self._bind(tgt.id, v, st)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            n = len(tgt.elts)
            star = [i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(tgt.elts):
                if isinstance(e, ast.Starred):
                    k = n - i - 1
                    self.assign(e.value, T('slice', v, const(i), const(-k) if k else NONE, NONE), st, node)
                else:
                    idx = i if not star or i < star[0] else i - n
                    self.assign(e, self.mk_item(v, const(idx), st), st, node)
        elif isinstance(tgt, ast.Attribute):
            b = self.eval(tgt.value, st)
            self.emit('store', tgt.attr, b, (v,), {}, st, node)
            if b.op == 'ite':
                pass
            st.heap[(b, tgt.attr)] = v
            c = self.cls_of(b)
        elif isinstance(tgt, ast.Subscript):
            b = self._item_target(self.eval(tgt.value, st), '__setitem__', st)
            i = self.eval(tgt.slice, st)
            self.emit('setitem', '[]=', b, (i, v), {}, st, node)
            st.heap[(b, i)] = v
            self.mutated.add(b)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, v, st, node)
        else:
            raise AnalysisBroken(f"unsupported assignment target at {self.frames[-1].module.rel}:{node.lineno}")

    def s_If(self, s, st):
        c = truthy(self.eval(s.test, st))
        if st.guards is None:
            return None
        sa = self._assume(st, c, True)
        sb = self._assume(st, c, False)
        ra = self.block(s.body, sa) if sa is not None else None
        rb = (self.block(s.orelse, sb) if s.orelse else sb) if sb is not None else None
        return self._rejoin(st, [ra, rb])

    def _rejoin(self, st0, states):
        r = self.join(states)
        return r

    def s_Match(self, s, st):
        subj = self.eval(s.subject, st)
        if st.guards is None:
            return None
        rest = st
        outs = []
        for case in s.cases:
            if rest is None:
                break
            binds = []
            c = self._pattern(case.pattern, subj, rest, binds)
            sa = self._assume(rest, c, True)
            nrest = self._assume(rest, c, False)
            if sa is not None:
                for n, v in binds:
                    self._bind(n, v, sa)
                if case.guard is not None:
                    g = truthy(self.eval(case.guard, sa))
                    nr2 = self._assume(sa, g, False)
                    sa = self._assume(sa, g, True)
                    nrest = self.join([x for x in (nrest, nr2) if x is not None])
                if sa is not None:
                    r = self.block(case.body, sa)
                    if r is not None:
                        outs.append(r)
            rest = nrest
        if rest is not None and not self._enum_exhausted(subj, rest):
            outs.append(rest)
        return self.join(outs)

    def _enum_exhausted(self, subj, st):
        c = self.cls_of(subj)
        if c and c in self.prog.classes and self.prog.classes[c].is_enum:
            mem = {T('ref', f"{c}.{m}") for m in self.prog.enum_members(c)}
            neg = {t.a[2] for t, p in st.guards if not p and t.op == 'cmp' and t.a[0] == '==' and t.a[1] is subj}
            neg |= {t.a[1] for t, p in st.guards if not p and t.op == 'cmp' and t.a[0] == '==' and t.a[2] is subj}
            return mem <= neg
        return False

    def _pattern(self, p, subj, st, binds) -> T:
        if isinstance(p, ast.MatchValue):
            return mk_cmp('==', subj, self.eval(p.value, st))
        if isinstance(p, ast.MatchSingleton):
            return mk_cmp('is', subj, const(p.value))
        if isinstance(p, ast.MatchOr):
            return mk_or([self._pattern(x, subj, st, binds) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            c = self._pattern(p.pattern, subj, st, binds) if p.pattern is not None else TRUE
            if p.name:
                binds.append((p.name, subj))
            return c
        if isinstance(p, ast.MatchSequence):
            cs = [mk_cmp('==', T('call', 'len', (subj,), ()), const(len(p.patterns)))] \
                if not (subj.op == 'tuple' and len(subj.a) == len(p.patterns)) else []
            for i, x in enumerate(p.patterns):
                if isinstance(x, ast.MatchStar):
                    continue
                cs.append(self._pattern(x, self.mk_item(subj, const(i), st), st, binds))
            return mk_and(cs)
        if isinstance(p, ast.MatchClass):
            c = self.eval(p.cls, st)
            cs = [T('call', 'isinstance', (subj, c), ())]
            for k, x in zip(p.kwd_attrs, p.kwd_patterns):
                cs.append(self._pattern(x, self.mk_attr(subj, k, st), st, binds))
            return mk_and(cs)
        return T('call', 'match?', (subj, const(ast.unparse(p))), ())

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        if st.guards is None:
            return None
        fr = self.frames[-1]
        self.emit('return', 'return', None, (v,), {}, st, s)
        self._exit('return', st, s)
        g = self._collapse(st.guards, fr)
        ns = st.fork()
        ns.guards = g
        fr.returns.append((ns, v))
        return None

    def _collapse(self, guards, fr):
        """guards of an exit inside loops of this frame -> existential literal over the loop"""
        inner = self.loops[fr.base_loops:]
        if not inner:
            return guards
        lp = inner[0]
        k = lp.entry_len if hasattr(lp, 'entry_len') else len(fr.entry_guards)
        cond = mk_and([lit_term(l) for l in guards[k:]])
        return guards[:k] + ((T('exists', lp.iter if lp.iter is not None else (lp.cond or TRUE), lp.uid, cond), True),)

    def _exit(self, kind, st, node):
        fr = self.frames[-1]
        if self.loops:
            for lp in (self.loops[-1:] if kind in ('break', 'continue') else
                       self.loops[fr.base_loops:] if kind == 'return' else self.loops):
                lp.exits.append((kind, st.guards, f"{fr.module.rel}:{node.lineno}", tuple(self.loops)))

    def s_Raise(self, s, st):
        v = self.eval(s.exc, st) if s.exc is not None else NONE
        if st.guards is None:
            return None
        self.emit('raise', 'raise', None, (v,), {}, st, s)
        self._exit('raise', st, s)
        return None

    def s_Assert(self, s, st):
        c = truthy(self.eval(s.test, st))
        if st.guards is None:
            return None
        self.emit('assert', 'assert', None, (c,), {}, st, s)
        r = self._assume(st, c, True)
        return r

    def s_Break(self, s, st):
        self._exit('break', st, s)
        self.loops[-1].brk_states.append(st)
        return None

    def s_Continue(self, s, st):
        self._exit('continue', st, s)
        self.loops[-1].cont_states.append(st)
        return None

    def s_With(self, s, st):
        managers = []
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if st.guards is None:
                return None
            self.emit('with', 'with', v, (), {}, st, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
            managers.append(v)
        after = self.block(s.body, st)
        if after is not None and after.guards is not None:
            for v in reversed(managers):
                self.emit('withexit', 'withexit', v, (), {}, after, s)
        return after

    s_AsyncWith = s_With

    def s_Try(self, s, st):
        u = next(self.uid)
        entry = st.fork()
        tok = T('tryok', u)
        body = st.fork()
        if s.handlers:
            body.guards = body.guards + ((tok, True),)
        rb = self.block(s.body, body)
        if rb is not None and s.orelse:
            rb = self.block(s.orelse, rb)
        outs = [rb]
        self.try_alive[u] = []
        for h in s.handlers:
            hs = entry.fork()
            # values assigned in the body may or may not be visible: keep the entry values
            hs.guards = hs.guards + ((tok, False),)
            ty = None
            if h.type is not None:
                ty = self.eval(h.type, hs)
                hs.guards = hs.guards + ((T('exc', u, ty), True),)
            if h.name:
                self._bind(h.name, T('excval', u, ty if ty is not None else NONE), hs)
            ho = self.block(h.body, hs)
            outs.append(ho)
            if ho is not None and ho.guards is not None:
                self.try_alive[u].append(h)
        r = self.join([o for o in outs if o is not None])
        if r is None and not s.finalbody:
            return None
        if s.finalbody:
            dead = r is None
            base = r if r is not None else entry.fork()
            r = self.block(s.finalbody, base)
            if dead:
                return None
        if r is not None and s.handlers:
            # the exception-type literals do not survive the join
            r.guards = tuple(l for l in r.guards if not _only_try(l, u))
        return r

    s_TryStar = s_Try

    # ---------------------------------------------------------------- loops
    def _open_loop(self, it: Optional[T], node, cond=None):
        copied = False
        while it is not None and it.op == 'call' and it.a[0] in ('list', 'tuple', 'iter') and len(it.a[1]) == 1 and not it.a[2]:
            copied, it = copied or it.a[0] != 'iter', it.a[1][0]     # the elements of a copy
        lp = Loop(next(self.uid), it, cond, None, node)
        lp.copied = copied
        lp.brk_states, lp.cont_states = [], []
        self.loops.append(lp)
        self.loop_by_uid[lp.uid] = lp
        if it is not None:
            lp.elem = self._elem_of(it, lp.uid)
        return lp

    def _elem_of(self, it: T, uid: int) -> T:
        if it.op == 'call' and isinstance(it.a[0], str):
            fn, args = it.a[0], it.a[1]
            if fn == 'enumerate' and args:
                start = args[1] if len(args) > 1 else dict(it.a[2]).get('start')
                idx = T('index', args[0], uid)
                if start is not None and not is_const(start, 0):
                    idx = self.mk_bin('+', idx, start)
                return T('tuple', idx, self._elem_of(args[0], uid))
            if fn == 'zip':
                return T('tuple', *[self._elem_of(a, uid) for a in args])
            if fn == '.items' and args:
                return T('tuple', T('key', args[0], uid), T('val', args[0], uid))
            if fn == '.keys' and args:
                return T('key', args[0], uid)
            if fn == '.values' and args:
                return T('val', args[0], uid)
            if fn in ('list', 'tuple', 'iter', 'sorted', 'reversed', 'set') and len(args) >= 1:
                return self._elem_of(args[0], uid)
            if fn == 'range':
                lo, hi = (const(0), args[0]) if len(args) == 1 else (args[0], args[1])
                if len(args) <= 2 and is_const(lo, 0) and hi.op == 'call' and hi.a[0] == 'len':
                    return T('index', hi.a[1][0], uid)
        if (self.type_of(it) or ('',))[0] == 'dict':
            return T('key', it, uid)
        return T('elem', it, uid)

    def _iter_shape(self, it: T):
        """('unroll', [terms]) | ('nest', [(loops, guards, elt)]) | None"""
        if it.op == 'tuple':
            return ('unroll', list(it.a)) if len(it.a) <= 16 else None
        if it.op == 'lit' and it.a[0] in ('list', 'tuple', 'set') and it not in self.mutated:
            if it.a[1] and len(it.a[1]) <= 16:
                return ('unroll', list(it.a[1]))
        if it.op == 'call' and it.a[0] in ('list', 'tuple', 'iter') and len(it.a[1]) == 1:
            return self._iter_shape(it.a[1][0])
        if it.op == 'call' and it.a[0] == 'enumerate' and len(it.a[1]) >= 1:
            sh = self._iter_shape(it.a[1][0])
            if sh and sh[0] == 'unroll':
                start = it.a[1][1] if len(it.a[1]) > 1 else dict(it.a[2]).get('start', const(0))
                return ('unroll', [T('tuple', self.mk_bin('+', const(i), start), x) for i, x in enumerate(sh[1])])
        if it.op == 'call' and it.a[0] in ('.items', '.keys', '.values') and len(it.a[1]) == 1 \
                and it.a[1][0].op == 'lit' and it.a[1][0].a[0] == 'dict' and it.a[1][0] not in self.mutated \
                and 0 < len(it.a[1][0].a[1]) <= 16:
            kv = it.a[1][0].a[1]
            return ('unroll', [T('tuple', k, v) if it.a[0] == '.items' else k if it.a[0] == '.keys' else v
                               for k, v in kv])
        if it.op == 'call' and it.a[0] == 'zip' and it.a[1]:
            shs = [self._iter_shape(x) for x in it.a[1]]
            if all(s and s[0] == 'unroll' for s in shs):
                n = min(len(s[1]) for s in shs)
                return ('unroll', [T('tuple', *[s[1][i] for s in shs]) for i in range(n)])
        if it.op == 'comp' and it.a[0] in ('list', 'gen', 'set'):
            c = self.comps[it.a[1]]
            return ('nest', [(c['loops'], c['guards'], c['elt'])])
        if it.op == 'genf':
            c = self.comps[it.a[0]]
            alts = c['yields']
            if len(alts) == 1:
                return ('nest', alts)
        if it.op == 'lit' and it.a[0] == 'list' and not it.a[1] and it in self.mutated:
            evs = self.by_recv.get(it, [])
            mut = [e for e in evs if e.kind in ('call', 'setitem', 'delitem') and
                   e.callee in ('.append', '.extend', '.insert', '.remove', '.pop', '.clear', '[]=', 'del', '.sort', '.reverse', '.update')]
            if len(mut) == 1 and mut[0].callee == '.append':
                e = mut[0]
                base = self.created.get(it, ())
                rel = e.loops[len(base):]
                if e.loops[:len(base)] == tuple(base) and not any(l in self.loops for l in rel) \
                        and all(l in self.loops for l in base):
                    if not any(x[0] in ('break', 'return') for l in rel for x in l.exits):
                        return ('nest', [(rel, e, e.args[0])])
        return None

    def _run_loop_body(self, st, node, body_fn, lp, desc):
        """one abstract iteration with loop-carried variables as mu terms"""
        entry = st
        lp.entry_len = len(entry.guards)
        # syntactic set of assigned names
        names = _assigned_names(node)
        fr = self.frames[-1]
        env0 = entry.envs[fr.id]
        carried = {n for n in names if self._visible(n, entry)}

        def prepare(heap_keys):
            s = entry.fork()
            for n in carried:
                m = T('mu', lp.uid, n)
                self.mu_info[m] = (self._lookup_in(n, entry), None)
                self._rebind(n, m, s)
            for k in heap_keys:
                m = T('mu', lp.uid, k)
                self.mu_info[m] = (entry.heap.get(k) or self._heap_default(k), None)
                ty = self.type_of(self.mu_info[m][0])
                if ty:
                    self.types[m] = ty
                s.heap[k] = m
            return s

        def one(heap_keys):
            lp.brk_states, lp.cont_states, lp.exits = [], [], []
            s = prepare(heap_keys)
            end = body_fn(s)
            return end, [x for x in [end] + lp.cont_states if x is not None]

        n_ev = len(self.events)
        save_ret = list(fr.returns)
        save_yields = list(fr.yields) if fr.yields is not None else None
        save_mut = set(self.mutated)
        snapshot_recv = {k: len(v) for k, v in self.by_recv.items()}
        uid_save = self.uid
        end, ends = one([])
        keys = set()
        for s in ends + lp.brk_states:
            for k, v in s.heap.items():
                if entry.heap.get(k) is not v and self._heap_known_before(k, entry):
                    keys.add(k)
        fresh_mut = any(t.op == 'lit' and t in self.created and lp not in self.created[t] for t in self.mutated - save_mut)
        if keys or fresh_mut:
            # discard and redo with the heap cells as loop-carried values (and with the containers filled by earlier iterations)
            del self.events[n_ev:]
            for k, v in list(self.by_recv.items()):
                v[snapshot_recv.get(k, 0):] = []
            fr.returns[:] = save_ret
            if fr.yields is not None:
                fr.yields[:] = save_yields
            end, ends = one(sorted(keys, key=lambda k: str(k)))
        j = self.join(ends) if ends else None
        after = entry.fork()
        fin = j if j is not None else None
        for n in names:
            m = T('mu', lp.uid, n)
            if fin is None and not lp.brk_states:
                continue
            nxt = self._lookup_in(n, fin) if fin is not None else None
            init = self._lookup_in(n, entry) if n in carried else UNDEF
            if nxt is None or nxt is m:
                if n in carried and nxt is m:
                    self.mu_info[m] = (init, m)
                nxt = m
            else:
                self.mu_info[m] = (init, nxt)
            val = m if nxt is not m or n not in carried else init
            if nxt is m and n not in carried:
                val = UNDEF
            for b in lp.brk_states:
                bv = self._lookup_in(n, b)
                if bv is not None and bv is not m and bv is not UNDEF:
                    lits = b.guards[lp.entry_len:]
                    ex = T('exists', lp.iter if lp.iter is not None else (lp.cond or TRUE), lp.uid,
                           mk_and([lit_term(l) for l in lits]))
                    val = mk_ite(ex, bv, val) if val is not UNDEF else bv
            if val is not UNDEF:
                self._rebind(n, val, after)
        for s in ends + lp.brk_states:
            for k, v in s.heap.items():
                if entry.heap.get(k) is v:
                    continue
                if k in keys:
                    m = T('mu', lp.uid, k)
                    self.mu_info[m] = (self.mu_info[m][0], v)
                    if v is not m:
                        after.heap[k] = m
                else:
                    after.heap[k] = v
        # facts from exits that leave the loop for good
        extra = []
        for kind, g, _, ls in lp.exits:
            if kind in ('return', 'raise'):
                cond = mk_and([lit_term(l) for l in g[lp.entry_len:]])
                if kind == 'return' and lp in self.loops[:fr.base_loops]:
                    continue
                extra.append((T('exists', lp.iter if lp.iter is not None else (lp.cond or TRUE), lp.uid, cond), False))
        for l in extra:
            if l not in after.guards:
                after.guards = after.guards + (l,)
        return after

    def _heap_known_before(self, key, entry):
        base, sel = key
        if (base, sel) in entry.heap:
            return True
        # attributes of objects that exist before the loop
        if base.op in ('param', 'ref'):
            return True
        for x in subterms(base):
            if x.op in ('elem', 'index', 'key', 'val', 'mu'):
                return False
            if x.op in ('new', 'lit', 'comp') and x not in self.created:
                return False
            if x.op in ('new', 'lit') and self.loops and self.created.get(x) and \
                    self.loops[-1] in self.created[x]:
                return False
        for x in subterms(sel) if isinstance(sel, T) else ():
            if x.op in ('elem', 'index', 'key', 'val', 'mu'):
                return False
        return True

    def _visible(self, n, st):
        return self._lookup_in(n, st) is not None

    def _lookup_in(self, n, st):
        f = self.frames[-1]
        while f is not None:
            env = st.envs.get(f.id)
            if env is not None and n in env:
                return env[n]
            f = f.parent
        return None

    def _rebind(self, n, v, st):
        f = self.frames[-1]
        while f is not None:
            env = st.envs.get(f.id)
            if env is not None and n in env:
                env[n] = v
                return
            f = f.parent
        st.envs[self.frames[-1].id][n] = v

    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        if st.guards is None:
            return None
        sh = self._iter_shape(it) if self.unroll else None
        if sh and sh[0] == 'unroll' and not any(isinstance(n, (ast.Break,)) for n in ast.walk(s)):
            cur = st
            for x in sh[1]:
                if cur is None:
                    return None
                lp = Loop(next(self.uid), None)
                lp.brk_states, lp.cont_states, lp.entry_len = [], [], len(cur.guards)
                self.assign(s.target, x, cur, s)
                # a pseudo-loop only to catch 'continue'
                self.loops.append(lp)
                n_ev = len(self.events)
                end = self.block(s.body, cur)
                self.loops.remove(lp)
                for e in self.events[n_ev:]:
                    if lp in e.loops:
                        e.loops = tuple(l for l in e.loops if l is not lp)
                for i, (ns, v) in enumerate(self.frames[-1].returns):
                    pass
                cur = self.join([x2 for x2 in [end] + lp.cont_states if x2 is not None])
            if cur is not None and s.orelse:
                cur = self.block(s.orelse, cur)
            return cur
        if sh and sh[0] == 'nest':
            loops, rel, elt = sh[1][0]
            lazy = (it.op == 'comp' and it.a[0] == 'gen') or it.op == 'genf'
            self.collected.append(() if lazy else tuple(l.uid for l in loops))
            try:
                return self._nested_loop(s, st, loops, rel, elt)
            finally:
                self.collected.pop()
        lp = self._open_loop(it, s)

        def body(bs):
            self.assign(s.target, lp.elem, bs, s)
            return self.block(s.body, bs)
        try:
            after = self._run_loop_body(st, s, body, lp, it)
        finally:
            self.loops.remove(lp)
        if s.orelse and after is not None:
            after = self.block(s.orelse, after)
        return after

    s_AsyncFor = s_For

    def _nested_loop(self, s, st, loops, rel, elt):
        """iterate over a filtered/mapped sequence: reopen its loops and filter conditions"""
        if isinstance(rel, Event):
            # guards of the append event relative to the guards of the state that created the list
            rel = tuple(l for l in rel.guards if l not in st.guards)
        loops = [l for l in loops]
        if not loops:
            lp = Loop(next(self.uid), None)
        else:
            lp = loops[-1]
        outer = loops[:-1]
        saved = (getattr(lp, 'brk_states', []), getattr(lp, 'cont_states', []), lp.exits, getattr(lp, 'entry_len', 0))
        self.loops.extend(outer)
        self.loops.append(lp)

        def body(bs):
            add = tuple(l for l in rel if l not in bs.guards)
            bs.guards = bs.guards + add
            self.assign(s.target, elt, bs, s)
            r = self.block(s.body, bs)
            return r
        try:
            after = self._run_loop_body(st, s, body, lp, None)
        finally:
            for l in [lp] + list(reversed(outer)):
                self.loops.remove(l)
        if s.orelse and after is not None:
            after = self.block(s.orelse, after)
        return after

    def s_While(self, s, st):
        c0 = self.eval(s.test, st.fork())
        lp = self._open_loop(None, s, cond=TRUE)

        def body(bs):
            c = truthy(self.eval(s.test, bs))
            lp.cond = c
            b2 = self._assume(bs, c, True)
            if b2 is None:
                return None
            return self.block(s.body, b2)
        try:
            after = self._run_loop_body(st, s, body, lp, None)
        finally:
            self.loops.remove(lp)
        if lp.cond is not None and lp.cond is not TRUE and not any(x[0] == 'break' for x in lp.exits):
            a2 = self._assume(after, lp.cond, False)
            after = a2 if a2 is not None else after
        elif lp.cond is TRUE and not any(x[0] == 'break' for x in lp.exits):
            return None
        if s.orelse:
            after = self.block(s.orelse, after)
        return after

    # ---------------------------------------------------------------- expressions
    def eval(self, n, st) -> T:
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return T('expr', ast.unparse(n))
        return m(n, st)

    def e_Constant(self, n, st):
        if n.value is Ellipsis:
            return T('ref', 'Ellipsis')
        return const(n.value)

    def e_Name(self, n, st):
        return self._lookup(n.id, st)

    def e_NamedExpr(self, n, st):
        v = self.eval(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Attribute(self, n, st):
        b = self.eval(n.value, st)
        if st.guards is None:
            return UNDEF
        return self.mk_attr(b, n.attr, st, n)

    def mk_attr(self, b: T, name: str, st, node=None) -> T:
        v = st.heap.get((b, name))
        if v is not None:
            return v
        if b.op == 'ref':
            q = b.a[0]
            if q in self.prog.classes:
                c = self.prog.classes[q]
                f = self.prog.find_method(q, name)
                if f is not None:
                    if f.kind == 'classmethod':
                        return T('bound', b, f.qual)
                    return T('ref', f.qual)
                if name in c.inner:
                    return T('ref', c.inner[name].qual)
                if c.is_enum and name == '__members__':
                    return T('attr', b, name)
                if c.is_enum:
                    return T('ref', f"{q}.{name}")
            pq = q.rsplit('.', 1)
            if len(pq) == 2 and pq[0] in self.prog.classes and self.prog.classes[pq[0]].is_enum:
                # attribute of an enum member
                f = self.prog.find_method(pq[0], name)
                if f is not None and f.kind == 'property':
                    return self._call_func(f, [], {}, st, node, bound={f.params[0]: b})
                if f is not None:
                    return T('bound', b, f.qual)
                if name == 'value':
                    r = self.prog.find_const(pq[0], pq[1])
                    if r and isinstance(r[1], ast.Constant):
                        return const(r[1].value)
                if name == 'name':
                    return const(pq[1])
                return T('attr', b, name)
            if q in self.prog.funcs:
                return T('attr', b, name)
            return self._ref(f"{q}.{name}")
        if b.op == 'ite':
            xa, xb = b.a[1], b.a[2]
            if (xa, name) in st.heap or (xb, name) in st.heap or (xa.op == 'ref' and xb.op == 'ref') \
                    or xa.op == 'new' or xb.op == 'new':
                if xa is NONE:
                    return self.mk_attr(xb, name, st, node)
                if xb is NONE:
                    return self.mk_attr(xa, name, st, node)
                return mk_ite(b.a[0], self.mk_attr(xa, name, st, node), self.mk_attr(xb, name, st, node))
            if xb is NONE:
                b = xa
            elif xa is NONE:
                b = xb
        if name in WATCHED_LOADS and node is not None and self.frames:
            self.emit('load', name, b, (), {}, st, node)
        cq = self.cls_of(b)
        if cq and cq in self.prog.classes:
            f = self.prog.find_method(cq, name)
            if f is not None:
                if f.kind == 'property':
                    return self._call_func(f, [], {}, st, node, bound={f.params[0]: b})
                if f.kind in ('staticmethod',):
                    return T('ref', f.qual)
                return T('bound', b, f.qual)
            c = self.prog.classes[cq]
            if name in c.inner:
                return T('ref', c.inner[name].qual)
            if b.op == 'new':
                r = self.prog.find_const(cq, name)
                if r is not None:
                    return self._eval_in_module(r[1], r[0].module) if self._simple(r[1]) else T('attr', b, name)
        return T('attr', b, name)

    def e_Subscript(self, n, st):
        b = self.eval(n.value, st)
        if isinstance(n.slice, ast.Slice):
            f = lambda x: self.eval(x, st) if x is not None else NONE
            lo, hi, stp = f(n.slice.lower), f(n.slice.upper), f(n.slice.step)
            if b.op == 'tuple' or (b.op == 'lit' and b.a[0] == 'list' and b not in self.mutated):
                elts = b.a if b.op == 'tuple' else b.a[1]
                if all(x.op == 'const' for x in (lo, hi, stp)):
                    sl = elts[slice(lo.a[0], hi.a[0], stp.a[0])]
                    return T('tuple', *sl) if b.op == 'tuple' else self.new_lit('list', tuple(sl))
            return T('slice', b, lo, hi, stp)
        i = self.eval(n.slice, st)
        return self.mk_item(b, i, st)

    def _item_target(self, b, dunder, st):
        """x[i] of a class whose __getitem__/__setitem__ hands over to one of its attributes"""
        if b.op in ('tuple', 'lit', 'const', 'item'):
            return b
        c = self.cls_of(b)
        f = self.prog.find_method(c, dunder) if c in self.prog.classes else None
        if f is None:
            return b
        a = self._delegate(f, dunder)
        return self.mk_attr(b, a, st) if a else b

    def _delegate(self, f, dunder):
        """attribute of self that an item access of this method reads or writes, and nothing else"""
        memo = self.prog.__dict__.setdefault('_delegates', {})
        if f.qual in memo:
            return memo[f.qual]
        memo[f.qual] = None
        if len(f.params) != (2 if dunder == '__getitem__' else 3):
            return None
        e = Engine(self.prog, opaque=self.opaque, max_depth=3)
        try:
            e.run(f.qual)
        except AnalysisBroken:
            return None
        ps = [T('param', x) for x in f.params]
        evs = [x for x in e.events if x.kind not in ('return', 'load')]
        t = None
        if any(x.guards or x.loops for x in e.events):
            return None
        if dunder == '__getitem__':
            r = e.result
            evs = [x for x in evs if not (x.kind == 'call' and x.callee in ('.__getitem__', 'operator.getitem'))]
            if r is not None and not evs:
                if r.op == 'item' and r.a[1] is ps[1]:
                    t = r.a[0]
                elif r.op == 'call' and r.a[0] in ('.__getitem__', 'operator.getitem') and len(r.a[1]) == 2 and r.a[1][1] is ps[1]:
                    t = r.a[1][0]
        elif len(evs) == 1:
            x = evs[0]
            if x.kind == 'setitem' and list(x.args) == ps[1:] or x.kind == 'call' and x.callee == '.__setitem__' and list(x.args) == ps[1:]:
                t = x.recv
            elif x.kind == 'call' and x.callee == 'operator.setitem' and len(x.args) == 3 and list(x.args[1:]) == ps[1:]:
                t = x.args[0]
        if t is not None and t.op == 'attr' and t.a[0] is ps[0]:
            memo[f.qual] = t.a[1]
        return memo[f.qual]

    def mk_item(self, b, i, st):
        b = self._item_target(b, '__getitem__', st)
        v = st.heap.get((b, i))
        if v is not None:
            return v
        if i.op == 'const' and isinstance(i.a[0], int) and not isinstance(i.a[0], bool):
            k = i.a[0]
            elts = None
            if b.op == 'tuple':
                elts = b.a
            elif b.op == 'lit' and b.a[0] == 'list' and b not in self.mutated:
                elts = b.a[1]
            elif b.op == 'ite' and b.a[1].op == b.a[2].op == 'tuple' and len(b.a[1].a) == len(b.a[2].a):
                return mk_ite(b.a[0], self.mk_item(b.a[1], i, st), self.mk_item(b.a[2], i, st))
            if elts is not None and -len(elts) <= k < len(elts):
                return elts[k]
        if b.op == 'lit' and b.a[0] == 'dict' and b not in self.mutated:
            if i.op in ('const', 'ref'):
                for k, v in b.a[1]:
                    if k is i:
                        return v
            elif b.a[1]:
                # table lookup with a symbolic key: gate over the entries
                r = T('item', b, i)
                for k, v in reversed(b.a[1]):
                    r = mk_ite(mk_cmp('==', i, k), v, r) if r.op != 'item' else mk_ite(mk_cmp('==', i, k), v, T('nokey', i))
                return r
        if b.op == 'call' and b.a[0] == 'os.path.split' and i.op == 'const' and i.a[0] in (0, 1, -1, -2):
            return T('call', 'os.path.dirname' if i.a[0] in (0, -2) else 'os.path.basename', b.a[1], b.a[2])
        # element by running index
        if i.op == 'index' and i.a[0] is b:
            return self._elem_of(b, i.a[1])
        if i.op == 'key' and i.a[0] is b:
            return T('val', b, i.a[1])
        return T('item', b, i)

    def e_Slice(self, n, st):
        f = lambda x: self.eval(x, st) if x is not None else NONE
        return T('call', 'slice', (f(n.lower), f(n.upper), f(n.step)), ())

    def e_Tuple(self, n, st):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, st)
                if v.op == 'tuple':
                    out.extend(v.a)
                elif v.op == 'lit' and v.a[0] == 'list' and v not in self.mutated:
                    out.extend(v.a[1])
                else:
                    out.append(T('star', v))
            else:
                out.append(self.eval(e, st))
        return T('tuple', *out)

    def new_lit(self, kind, elts):
        t = T('lit', kind, elts, next(self.uid))
        self.created[t] = tuple(self.loops)
        return t

    def e_List(self, n, st):
        return self.new_lit('list', self.e_Tuple(n, st).a)

    def e_Set(self, n, st):
        return self.new_lit('set', self.e_Tuple(n, st).a)

    def e_Dict(self, n, st):
        kv = []
        for k, v in zip(n.keys, n.values):
            if k is None:
                d = self.eval(v, st)
                if d.op == 'lit' and d.a[0] == 'dict' and d not in self.mutated:
                    kv.extend(d.a[1])
                else:
                    kv.append((T('star', d), T('star', d)))
            else:
                kv.append((self.eval(k, st), self.eval(v, st)))
        return self.new_lit('dict', tuple(kv))

    def e_JoinedStr(self, n, st):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                parts.append(self.e_FormattedValue(v, st))
        return mk_str(parts)

    def e_FormattedValue(self, v, st):
        x = self.eval(v.value, st)
        if v.conversion not in (-1, 115) or v.format_spec is not None:
            spec = self.eval(v.format_spec, st) if v.format_spec is not None else const('')
            if v.conversion == 114:
                x = T('call', 'repr', (x,), ())
            if v.format_spec is not None:
                return T('call', 'format', (x, spec), ())
        return x

    def e_BinOp(self, n, st):
        a = self.eval(n.left, st)
        b = self.eval(n.right, st)
        return self.mk_bin(_BINOPS[type(n.op)], a, b)

    def mk_bin(self, op, a, b):
        if a.op == 'const' and b.op == 'const' and isinstance(a.a[0], (int, float, str)) \
                and isinstance(b.a[0], (int, float, str)):
            try:
                x, y = a.a[0], b.a[0]
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y,
                     '**': lambda: x ** y if abs(y) < 64 else None, '//': lambda: x // y, '%': lambda: x % y}.get(op, lambda: None)()
                if r is not None:
                    return const(r)
            except Exception:
                pass
        if op == '+':
            sa = a.op == 'fstr' or (a.op == 'const' and isinstance(a.a[0], str))
            sb = b.op == 'fstr' or (b.op == 'const' and isinstance(b.a[0], str))
            if sa or sb:
                return mk_str([a, b])
            la = a.op == 'lit' and a.a[0] == 'list' and a not in self.mutated
            lb = b.op == 'lit' and b.a[0] == 'list' and b not in self.mutated
            if la and lb:
                return self.new_lit('list', a.a[1] + b.a[1])
            if a.op == 'tuple' and b.op == 'tuple':
                return T('tuple', *(a.a + b.a))
        if op == '%' and a.op == 'const' and isinstance(a.a[0], str):
            parts = re.split(r'(%%|%s)', a.a[0])
            vals = list(b.a) if b.op == 'tuple' else [b]
            if parts.count('%s') == len(vals) and not any('%' in x for x in parts if x not in ('%%', '%s')):
                return mk_str([vals.pop(0) if x == '%s' else const('%' if x == '%%' else x) for x in parts if x])
            return T('call', '%fmt', (a, b), ())
        return T('bin', op, a, b)

    def e_UnaryOp(self, n, st):
        v = self.eval(n.operand, st)
        if isinstance(n.op, ast.Not):
            return mk_not(truthy(v))
        op = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(n.op)]
        if v.op == 'const' and op == '-' and isinstance(v.a[0], (int, float)):
            return const(-v.a[0])
        return T('un', op, v)

    def e_BoolOp(self, n, st):
        """value of and/or; later operands are evaluated under the guard of the earlier ones"""
        isand = isinstance(n.op, ast.And)
        vals = []
        cur = st
        base = st.guards
        for i, v in enumerate(n.values):
            t = self.eval(v, cur)
            vals.append(t)
            if i < len(n.values) - 1:
                ls = literals(truthy(t), isand)
                if ls is None:
                    break
                cur.guards = cur.guards + tuple(l for l in ls if l not in cur.guards)
        st.guards = base
        boolish = lambda t: t.op in ('cmp', 'not', 'and', 'or', 'exists') or (t.op == 'const' and isinstance(t.a[0], bool)) \
            or (t.op == 'call' and t.a[0] in ('isinstance', 'bool', 'any', 'all', 'callable', 'hasattr'))
        if all(boolish(t) for t in vals[:-1]):
            return mk_and([truthy(t) for t in vals]) if isand else mk_or([truthy(t) for t in vals]) \
                if boolish(vals[-1]) else (mk_and(vals) if isand else mk_or(vals))
        r = vals[-1]
        for t in reversed(vals[:-1]):
            r = T('ite', truthy(t), r, t) if isand else T('ite', truthy(t), t, r)
            if r.a[0].op == 'not':
                r = T('ite', r.a[0].a[0], r.a[2], r.a[1])
            if r.a[0].op == 'const':
                r = r.a[1] if r.a[0].a[0] else r.a[2]
        # as a condition: and/or of the operands
        if isand:
            self_cond = mk_and([truthy(t) for t in vals])
        else:
            self_cond = mk_or([truthy(t) for t in vals])
        self._cond_of[r] = self_cond if r.op == 'ite' else None
        return T('boolop', 'and' if isand else 'or', *vals) if False else self._bool_or_value(r, self_cond, n)

    _cond_of: Dict = {}

    def _bool_or_value(self, r, cond, n):
        return cond if getattr(n, '_as_cond', False) else r

    def e_Compare(self, n, st):
        left = self.eval(n.left, st)
        cs = []
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, st)
            cs.append(mk_cmp(_CMPOPS[type(op)], left, right))
            left = right
        return mk_and(cs)

    def e_IfExp(self, n, st):
        c = truthy(self.eval(n.test, st))
        base = st.guards
        la, lb = literals(c, True), literals(c, False)
        a = b = None
        if la is not None:
            st.guards = base + tuple(l for l in la if l not in base)
            a = self.eval(n.body, st)
        if lb is not None:
            st.guards = base + tuple(l for l in lb if l not in base)
            b = self.eval(n.orelse, st)
        st.guards = base
        if a is None:
            return b
        if b is None:
            return a
        return mk_ite(c, a, b)

    def e_Lambda(self, n, st):
        fr = self.frames[-1]
        q = f"{fr.func.qual if fr.func else fr.module.name}.<lambda>"
        f = Func(q, '<lambda>', n, fr.module, fr.cls, 'closure')
        t = T('closure', q, n.lineno, n.col_offset, next(self.uid))
        self.closures[t] = (f, fr)
        return t

    def e_Starred(self, n, st):
        return T('star', self.eval(n.value, st))

    def e_Await(self, n, st):
        return self.eval(n.value, st)

    def e_Yield(self, n, st):
        self._yield(n, st)
        return T('sent', next(self.uid))

    e_YieldFrom = e_Yield

    # comprehensions
    def _comp(self, kind, n, elt_fn, st):
        fr = self.frames[-1]
        cf = _Frame(next(self.uid), fr.func, fr.module, fr.cls, parent=fr)
        cf.base_loops = len(self.loops)
        cf.entry_guards = st.guards
        self.frames.append(cf)
        s = st.fork()
        s.envs[cf.id] = {}
        opened = []
        base = s.guards
        uid = next(self.uid)
        try:
            # full unrolling over literal sequences
            if len(n.generators) == 1 and self.unroll:
                g = n.generators[0]
                it = self.eval(g.iter, s)
                sh = self._iter_shape(it)
                if sh and sh[0] == 'unroll' and not g.ifs:
                    out = []
                    for x in sh[1]:
                        self.assign(g.target, x, s, n)
                        out.append(elt_fn(s))
                    if kind == 'dict':
                        return self.new_lit('dict', tuple(out))
                    return self.new_lit('list' if kind in ('list', 'gen') else kind, tuple(out))
            dead = False
            for gi, g in enumerate(n.generators):
                it = self.eval(g.iter, s) if not (gi == 0 and len(n.generators) == 1 and self.unroll) else it
                sh = self._iter_shape(it)
                if sh and sh[0] == 'nest':
                    loops, rel, elt = sh[1][0]
                    if isinstance(rel, Event):
                        rel = tuple(l for l in rel.guards if l not in s.guards)
                    for l in loops:
                        self.loops.append(l)
                        opened.append(l)
                    s.guards = s.guards + tuple(l for l in rel if l not in s.guards)
                    self.assign(g.target, elt, s, n)
                else:
                    lp = self._open_loop(it, n)
                    lp.entry_len = len(s.guards)
                    opened.append(lp)
                    self.assign(g.target, lp.elem, s, n)
                for c in g.ifs:
                    t = truthy(self.eval(c, s))
                    ls = literals(t, True)
                    if ls is None:
                        dead = True
                        ls = [(FALSE, True)]
                    s.guards = s.guards + tuple(l for l in ls if l not in s.guards)
            r = elt_fn(s)
            key, elt = r if kind == 'dict' else (None, r)
            t = T('comp', kind, uid)
            self.comps[uid] = dict(kind=kind, key=key, elt=elt, loops=tuple(opened), guards=s.guards[len(base):],
                                   node=n, loc=f"{fr.module.rel}:{n.lineno}")
            self.created[t] = tuple(l for l in self.loops if l not in opened)
            st.heap.update({k: v for k, v in s.heap.items() if k not in st.heap})
            return t
        finally:
            for l in reversed(opened):
                for i in range(len(self.loops) - 1, -1, -1):
                    if self.loops[i] is l:
                        del self.loops[i]
                        break
            self.frames.pop()

    def e_ListComp(self, n, st):
        return self._comp('list', n, lambda s: self.eval(n.elt, s), st)

    def e_SetComp(self, n, st):
        return self._comp('set', n, lambda s: self.eval(n.elt, s), st)

    def e_GeneratorExp(self, n, st):
        return self._comp('gen', n, lambda s: self.eval(n.elt, s), st)

    def e_DictComp(self, n, st):
        return self._comp('dict', n, lambda s: (self.eval(n.key, s), self.eval(n.value, s)), st)

    # ---------------------------------------------------------------- calls
    def e_Call(self, n, st):
        # super().__init__
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and \
                isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
            fr = self.frames[-1]
            args, kw = self._args(n, st)
            if fr.cls is not None:
                for b in fr.cls.bases:
                    f = self.prog.find_method(b, n.func.attr)
                    if f is not None:
                        selft = self._lookup(fr.func.params[0], st)
                        return self._call_func(f, args, kw, st, n, bound={f.params[0]: selft})
            self.emit('call', f'super.{n.func.attr}', None, args, kw, st, n)
            return T('call', f'super.{n.func.attr}', tuple(args), tuple(sorted(kw.items())))
        recv = None
        if isinstance(n.func, ast.Attribute):
            b = self.eval(n.func.value, st)
            if st.guards is None:
                return UNDEF
            if b.op in ('tuple',) and n.func.attr == '_asdict':
                pass
            fn = self.mk_attr(b, n.func.attr, st, n)
            if fn.op == 'attr' and fn.a[0] is b:
                recv = b
            elif fn.op == 'attr' and b.op == 'ite':
                recv = fn.a[0]
        else:
            fn = self.eval(n.func, st)
        if st.guards is None:
            return UNDEF
        args, kw = self._args(n, st)
        if st.guards is None:
            return UNDEF
        return self.call(fn, recv, n.func.attr if isinstance(n.func, ast.Attribute) else None, args, kw, st, n)

    def _args(self, n, st):
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st)
                if v.op == 'tuple':
                    args.extend(v.a)
                elif v.op == 'lit' and v.a[0] == 'list' and v not in self.mutated:
                    args.extend(v.a[1])
                else:
                    args.append(T('star', v))
            else:
                args.append(self.eval(a, st))
        for k in n.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                if v.op == 'lit' and v.a[0] == 'dict' and v not in self.mutated and \
                        all(x.op == 'const' for x, _ in v.a[1]):
                    for kk, vv in v.a[1]:
                        kw[kk.a[0]] = vv
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return args, kw

    def call(self, fn: T, recv, mname, args, kw, st, n) -> T:
        if fn.op == 'closure':
            f, parent = self.closures[fn]
            return self._call_func(f, args, kw, st, n, closure=parent)
        if fn.op == 'bound':
            f = self.prog.funcs[fn.a[1]]
            return self._call_func(f, args, kw, st, n, bound={f.params[0]: fn.a[0]})
        if fn.op == 'partial':
            f, pa, pk = fn.a
            return self.call(f, None, mname, list(pa) + list(args), {**dict(pk), **kw}, st, n)
        if fn.op == 'ite' and (fn.a[1].op in ('closure', 'bound', 'ref') and fn.a[2].op in ('closure', 'bound', 'ref')):
            sa, sb = self._assume(st, fn.a[0], True), self._assume(st, fn.a[0], False)
            va = self.call(fn.a[1], recv, mname, args, kw, sa, n) if sa is not None else UNDEF
            vb = self.call(fn.a[2], recv, mname, args, kw, sb, n) if sb is not None else UNDEF
            outs = [s for s in (sa, sb) if s is not None and s.guards is not None]
            j = self.join(outs)
            if j is None:
                st.guards = None
                return UNDEF
            st.envs, st.heap, st.guards = j.envs, j.heap, j.guards
            return mk_ite(fn.a[0], va, vb)
        if fn.op == 'ref':
            q = fn.a[0]
            if q in self.prog.funcs:
                f = self.prog.funcs[q]
                return self._call_func(f, args, kw, st, n)
            if q in self.prog.classes:
                return self._construct(q, args, kw, st, n)
            return self._external(q, None, args, kw, st, n)
        if recv is not None:
            return self._external('.' + mname, recv, args, kw, st, n)
        if fn.op == 'attr':
            return self._external('.' + fn.a[1], fn.a[0], args, kw, st, n)
        r = T('call', fn, tuple(args), tuple(sorted(kw.items())))
        self.emit('call', '?', fn, args, kw, st, n, r)
        return r

    def _construct(self, q, args, kw, st, n):
        c = self.prog.classes[q]
        args, kw = by_position(self.prog, q, args, kw)
        if c.is_enum:
            r = T('call', q, tuple(args), tuple(sorted(kw.items())))
            self.types[r] = ('cls', q)
            self.emit('call', q, None, args, kw, st, n, r)
            return r
        obj = T('new', q, tuple(args), tuple(sorted(kw.items())), next(self.uid))
        self.created[obj] = tuple(self.loops)
        self.types[obj] = ('cls', q)
        self.emit('call', q, None, args, kw, st, n, obj)
        init = self.prog.find_method(q, '__init__')
        if init is not None:
            if not self.opaque(init.qual) and not self.opaque(q):
                self._call_func(init, args, kw, st, n, bound={init.params[0]: obj}, quiet=True)
        elif c.is_dataclass or any('NamedTuple' in b for b in c.bases):
            fields = []
            for b in reversed(list(self.prog._all_bases(c))):
                if b in self.prog.classes:
                    fields += [x for x in self.prog.classes[b].ann_order if x not in fields]
            fields += [x for x in c.ann_order if x not in fields]
            vals = dict(zip(fields, args))
            vals.update(kw)
            for fl in fields:
                if fl in vals:
                    st.heap[(obj, fl)] = vals[fl]
                else:
                    r = self.prog.find_const(q, fl)
                    if r is not None:
                        st.heap[(obj, fl)] = self._field_default(r[1], r[0].module, st)
            pi = self.prog.find_method(q, '__post_init__')
            if pi is not None and not self.opaque(q):
                self._call_func(pi, [], {}, st, n, bound={pi.params[0]: obj}, quiet=True)
        return obj

    def _field_default(self, v, m, st):
        if isinstance(v, ast.Call) and (_dotted(v.func) or '').split('.')[-1] == 'field':
            for k in v.keywords:
                if k.arg == 'default_factory':
                    d = _dotted(k.value)
                    if d in ('dict', 'list', 'set'):
                        return self.new_lit(d, ())
                    if isinstance(k.value, ast.Lambda):
                        v = k.value.body
                        break
                    call = ast.Call(func=k.value, args=[], keywords=[])
                    ast.copy_location(call, v)
                    ast.fix_missing_locations(call)
                    v = call
                    break
                if k.arg == 'default':
                    v = k.value
                    break
            else:
                return UNDEF
        fr = _Frame(next(self.uid), None, m, None)
        self.frames.append(fr)
        try:
            st.envs[fr.id] = {}
            return self.eval(v, st)
        finally:
            st.envs.pop(fr.id, None)
            self.frames.pop()

    def _external(self, q, recv, args, kw, st, n) -> T:
        """call that is not analysed: known builtins are folded, the rest is an event"""
        if recv is None:
            r = self._builtin(q, args, kw, st, n)
            if r is not None:
                return r
        kwt = tuple(sorted(kw.items()))
        last = q.rsplit('.', 1)[-1]
        all_args = ((recv,) if recv is not None else ()) + tuple(args)
        if recv is not None:
            r = self._method(last, recv, args, kw, st, n)
            if r is not None:
                return r
        fresh = (recv is None and (last[:1].isupper() or last in ('deepcopy', 'copy', 'defaultdict', 'mkdtemp'))) or \
                (recv is not None and last in FRESH_METHODS)
        if fresh:
            r = T('new', q, all_args, kwt, next(self.uid))
            self.created[r] = tuple(self.loops)
        else:
            r = T('call', q, all_args, kwt)
        self.emit('call', q, recv, args, kw, st, n, r)
        if recv is not None and last in ('append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update',
                                         'add', 'discard', 'setdefault'):
            self.mutated.add(recv)
        if q in ('sys.exit', 'exit', 'quit', 'os._exit', 'os.abort'):
            self._exit('raise', st, n)
            st.guards = None
        return r

    def _method(self, name, recv, args, kw, st, n):
        if recv.op == 'const' and isinstance(recv.a[0], str) and not kw and name in FOLDED and all(a.op == 'const' for a in args):
            try:
                return const(getattr(recv.a[0], name)(*[a.a[0] for a in args]))
            except (TypeError, ValueError):
                return None
        if name == 'join' and len(args) == 1 and recv.op == 'const' and isinstance(recv.a[0], str):
            x = args[0]
            if x.op in ('lit', 'tuple') and x not in self.mutated:
                elts = x.a if x.op == 'tuple' else x.a[1]
                out = []
                for i, e in enumerate(elts):
                    if i:
                        out.append(recv)
                    out.append(e)
                r = mk_str(out)
                self.emit('call', '.join', recv, args, kw, st, n, r)
                return r
        if name == 'format' and recv.op == 'const' and isinstance(recv.a[0], str) and not kw:
            import string
            try:
                parts = []
                auto = 0
                for lit, fld, spec, conv in string.Formatter().parse(recv.a[0]):
                    if lit:
                        parts.append(const(lit))
                    if fld is not None:
                        idx = int(fld) if fld else auto
                        auto += 1
                        x = args[idx]
                        parts.append(T('call', 'format', (x, const(spec)), ()) if spec else x)
                return mk_str(parts)
            except Exception:
                return None
        if name == 'get' and recv.op == 'lit' and recv.a[0] == 'dict' and recv not in self.mutated and args:
            d = args[1] if len(args) > 1 else NONE
            r = d
            for k, v in reversed(recv.a[1]):
                r = mk_ite(mk_cmp('==', args[0], k), v, r)
            return r
        return None

    def _builtin(self, q, args, kw, st, n):
        if q == 'functools.partial' and args:
            return T('partial', args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        if q in ('dict', 'list', 'set', 'tuple') and not args and not kw:
            return T('tuple') if q == 'tuple' else self.new_lit(q, ())
        if q == 'dict' and not args:
            return self.new_lit('dict', tuple((const(k), v) for k, v in kw.items()))
        if q == 'len' and len(args) == 1:
            x = args[0]
            if x.op == 'tuple' and not any(e.op == 'star' for e in x.a):
                return const(len(x.a))
            if x.op == 'lit' and x not in self.mutated and x.a[1] and not any(
                    isinstance(e, T) and e.op == 'star' for e in x.a[1]):
                return const(len(x.a[1]))
            return T('call', 'len', (x,), ())
        if q == 'bool' and len(args) == 1:
            return truthy(args[0])
        if q == 'isinstance' and len(args) == 2 and args[0].op == 'const':
            ts = args[1].a if args[1].op == 'tuple' else (args[1],)
            tys = {'bool': bool, 'str': str, 'int': int, 'float': float}
            if all(t.op == 'ref' and t.a[0].split('.')[-1] in tys for t in ts):
                return const(isinstance(args[0].a[0], tuple(tys[t.a[0].split('.')[-1]] for t in ts)))
        if q == 'hasattr' and len(args) == 2 and args[1].op == 'const':
            cur = st.heap.get((args[0], args[1].a[0]))
            miss = T('attr', args[0], args[1].a[0])

            def has(v):
                if v is miss:
                    return T('call', 'hasattr', tuple(args), ())
                if v.op == 'ite':
                    return mk_ite(v.a[0], has(v.a[1]), has(v.a[2]))
                return TRUE
            if cur is not None:
                return has(cur)
        if q == 'getattr' and len(args) >= 2 and args[1].op == 'const':
            return self.mk_attr(args[0], args[1].a[0], st, n)
        if q == 'setattr' and len(args) == 3 and args[1].op == 'const':
            self.emit('store', args[1].a[0], args[0], (args[2],), {}, st, n)
            st.heap[(args[0], args[1].a[0])] = args[2]
            return NONE
        if q in ('any', 'all') and len(args) == 1:
            x = args[0]
            if x.op == 'comp':
                c = self.comps[x.a[1]]
                if c['loops']:
                    lp = c['loops'][0]
                    g = [lit_term(l) for l in c['guards']]
                    e = truthy(c['elt'])
                    if q == 'any':
                        return T('exists', lp.iter if lp.iter is not None else TRUE, lp.uid, mk_and(g + [e]))
                    return mk_not(T('exists', lp.iter if lp.iter is not None else TRUE, lp.uid, mk_and(g + [mk_not(e)])))
            if x.op in ('lit', 'tuple') and x not in self.mutated:
                elts = [truthy(e) for e in (x.a if x.op == 'tuple' else x.a[1])]
                return mk_or(elts) if q == 'any' else mk_and(elts)
        if q == 'next' and args and args[0].op == 'comp':
            c = self.comps[args[0].a[1]]
            if c['loops']:
                lp = c['loops'][0]
                ex = T('exists', lp.iter if lp.iter is not None else TRUE, lp.uid, mk_and([lit_term(l) for l in c['guards']]))
                return mk_ite(ex, c['elt'], args[1]) if len(args) > 1 else c['elt']
        if q == 'str' and len(args) == 1:
            return mk_str([args[0]]) if args[0].op in ('const', 'fstr') else T('fstr', args[0])
        if q in ('os.path.join',) and args:
            flat = []
            for a in args:
                if a.op == 'call' and a.a[0] == 'os.path.join':
                    flat.extend(a.a[1])
                else:
                    flat.append(a)
            return T('call', 'os.path.join', tuple(flat), ())
        if q in ('isinstance', 'float', 'int', 'abs', 'min', 'max', 'sum', 'round', 'sorted', 'reversed', 'enumerate', 'zip',
                 'range', 'repr', 'format', 'type', 'id', 'hash', 'list', 'tuple', 'set', 'frozenset', 'map', 'filter', 'iter',
                 'callable', 'hasattr', 'issubclass', 'divmod', 'pow', 'chr', 'ord', 'os.path.basename', 'os.path.dirname',
                 'os.path.abspath', 'os.path.realpath', 'os.path.splitext', 'os.path.exists', 'os.path.isfile',
                 'os.path.isdir', 'os.path.getmtime', 'os.path.getsize', 'os.path.expanduser', 'os.path.isabs',
                 'math.floor', 'math.ceil', 'math.sqrt', 'math.pow', 'next', 'any', 'all', 'vars', 'super', 'dict'):
            if q == 'map' and len(args) == 2:
                fnt, x = args
                lp = self._open_loop(x, n)
                lp.entry_len = len(st.guards)
                try:
                    elt = self.call(fnt, None, None, [lp.elem], {}, st, n)
                finally:
                    self.loops.pop()
                uid = next(self.uid)
                self.comps[uid] = dict(kind='gen', key=None, elt=elt, loops=(lp,), guards=(), node=n, loc='')
                return T('comp', 'gen', uid)
            if q == 'filter' and len(args) == 2 and args[0].op in ('closure', 'bound', 'ref'):
                fnt, x = args
                lp = self._open_loop(x, n)
                lp.entry_len = len(st.guards)
                try:
                    c = self.call(fnt, None, None, [lp.elem], {}, st, n)
                finally:
                    self.loops.pop()
                uid = next(self.uid)
                self.comps[uid] = dict(kind='gen', key=None, elt=lp.elem, loops=(lp,),
                                       guards=tuple(literals(truthy(c)) or [(FALSE, True)]), node=n, loc='')
                return T('comp', 'gen', uid)
            if q in ('list', 'tuple', 'set') and len(args) == 1 and args[0].op == 'comp' and args[0].a[0] == 'gen':
                c = dict(self.comps[args[0].a[1]])
                uid = next(self.uid)
                self.comps[uid] = c
                r = T('comp', 'set' if q == 'set' else 'list', uid)
                self.created[r] = tuple(self.loops)
                return r
            r = T('call', q, tuple(args), tuple(sorted(kw.items())))
            self.emit('call', q, None, args, kw, st, n, r)
            return r
        return None

    def _call_func(self, f: Func, args, kw, st, n, bound=None, closure=None, quiet=False) -> T:
        q = f.qual
        b = dict(bound or {})
        if args is not None:
            args, kw = by_position(self.prog, q, args, kw or {}, b)
        stack = [fr.func.qual for fr in self.frames if fr.func is not None and fr.returns is not None]
        depth = len(self.frames)
        recv = next(iter(bound.values())) if bound else None
        if self.opaque(q) or depth > self.max_depth or sum(1 for x in stack if x == q) >= (2 if f.kind == 'closure' else 1):
            r = T('call', q, ((recv,) if recv is not None else ()) + tuple(args), tuple(sorted(kw.items())))
            self.emit('call', q, recv, args, kw, st, n, r)
            if depth > self.max_depth:
                self.warn.append(f"inlining bound reached at {q}")
            return r
        if not quiet:
            ev = self.emit('call', q, recv, args, kw, st, n, None)
        r, ns = self._inline(f, args, kw, st, bound=b, node=n, closure=closure)
        if not quiet:
            ev.result = r
        if ns is None:
            st.guards = None
            return UNDEF
        st.envs, st.heap, st.guards = ns.envs, ns.heap, ns.guards
        return r

    def _inline(self, f: Func, args, kw, st, bound=None, node=None, closure=None):
        a = f.node.args
        fr = _Frame(next(self.uid), f, f.module, f.cls, parent=closure)
        fr.entry_guards = st.guards
        fr.base_loops = len(self.loops)
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        env.update(bound or {})
        if args is not None:
            free = [p for p in pos if p not in env]
            rest = []
            for i, v in enumerate(args):
                if i < len(free):
                    env[free[i]] = v if v.op != 'star' else T('item', v.a[0], const(i))
                else:
                    rest.append(v)
            if a.vararg:
                env[a.vararg.arg] = T('tuple', *rest)
            extra = {}
            for k, v in (kw or {}).items():
                if k in pos or k in [x.arg for x in a.kwonlyargs]:
                    env[k] = v
                else:
                    extra[k] = v
            if a.kwarg:
                env[a.kwarg.arg] = self.new_lit('dict', tuple((const(k), v) for k, v in extra.items()))
        # defaults
        self.frames.append(fr)
        st2 = st.fork()
        st2.envs[fr.id] = env
        try:
            dpos = a.posonlyargs + a.args
            for p, d in zip(dpos[len(dpos) - len(a.defaults):], a.defaults):
                if p.arg not in env:
                    env[p.arg] = self.eval(d, st2)
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if p.arg not in env and d is not None:
                    env[p.arg] = self.eval(d, st2)
            for p in pos + [x.arg for x in a.kwonlyargs]:
                if p not in env:
                    env[p] = T('param', p)
            for p in dpos + a.kwonlyargs:
                if p.annotation is not None:
                    v = env[p.arg]
                    if v.op != 'const' and (v not in self.types or self.types[v] is None):
                        ty = self.prog.parse_type(p.annotation, f.module, f.cls)
                        if ty and not (v.op == 'ref'):
                            self.types[v] = ty
                    elif v.op == 'lit' and self.types.get(v, (None, None))[1:] == (None, None):
                        ty = self.prog.parse_type(p.annotation, f.module, f.cls)
                        if ty:
                            self.types[v] = ty
            self.inlined.add(f.qual)
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body, st2)
                if st2.guards is None:
                    return UNDEF, None
                st2.envs.pop(fr.id, None)
                return v, st2
            isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _own_nodes(f.node))
            if isgen:
                fr.yields = []
            end = self.block(f.node.body, st2)
            rets = list(fr.returns)
            if isgen:
                uid = next(self.uid)
                alts = []
                for v, g, loops, _ in fr.yields:
                    alts.append((loops[fr.base_loops:], tuple(l for l in g if l not in fr.entry_guards), v))
                self.comps[uid] = dict(kind='genf', yields=alts, loops=(), guards=(), elt=alts[0][2] if alts else UNDEF,
                                       key=None, node=f.node, loc=f.loc)
                t = T('genf', uid)
                out = end if end is not None else (rets[0][0] if rets else None)
                if out is None:
                    return t, st
                return t, out
            if end is not None:
                rets.append((end, NONE))
            if not rets:
                return UNDEF, None
            if len(rets) == 1:
                s, v = rets[0]
                s.envs.pop(fr.id, None) if not self._captured(fr) else None
                return v, s
            RET = '\0ret'
            for s, v in rets:
                s.envs.setdefault(fr.id, {})[RET] = v
            j = self.join([s for s, _ in rets])
            v = j.envs[fr.id].pop(RET)
            if not self._captured(fr):
                j.envs.pop(fr.id, None)
            return v, j
        finally:
            self.frames.pop()

    def _captured(self, fr):
        return any(p is fr for _, p in self.closures.values())

    # ---------------------------------------------------------------- applying values
    def apply(self, fn: T, args: List[T], st=None):
        """analyse a callback value on symbolic arguments"""
        st = st or self.final or _State({}, {}, ())
        st = st.fork()
        f = self.closures[fn][0] if fn.op == 'closure' else self.prog.funcs.get(fn.a[-1] if fn.op == 'bound' else fn.a[0])
        if f is None:
            return None
        # frames are needed for closures
        root = _Frame(next(self.uid), f, f.module, f.cls)
        st.envs[root.id] = {}
        self.frames.append(root)
        try:
            return self.call(fn, None, None, list(args), {}, st, f.node)
        finally:
            self.frames.pop()


def _only_try(l, u):
    t = l[0]
    return (t.op in ('tryok', 'exc') and t.a[0] == u) or \
        (t.op in ('or', 'and') and all((x.a[0] if x.op == 'not' else x).op in ('tryok', 'exc', 'and', 'or') for x in t.a))


def mk_str(parts):
    out = []
    for p in parts:
        if p.op == 'fstr':
            xs = list(p.a)
        else:
            xs = [p]
        for x in xs:
            if x.op == 'const' and not isinstance(x.a[0], str):
                x = const(str(x.a[0])) if not isinstance(x.a[0], float) else const(str(x.a[0]))
            if out and out[-1].op == 'const' and x.op == 'const':
                out[-1] = const(out[-1].a[0] + x.a[0])
            else:
                out.append(x)
    out = [x for x in out if not (x.op == 'const' and x.a[0] == '')]
    if not out:
        return const('')
    if len(out) == 1 and out[0].op == 'const':
        return out[0]
    return T('fstr', *out)


_BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
           ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
_CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is',
           ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}


def _own_nodes(fn):
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def _assigned_names(node) -> List[str]:
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    stack = list(node.body) + list(getattr(node, 'orelse', []))
    if isinstance(node, ast.For):
        tgt(node.target)
    while stack:
        n = stack.pop(0)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            if not isinstance(n, ast.Lambda) and n.name not in out:
                out.append(n.name)
            # closures may rebind through nonlocal
            nl = {x for y in ast.walk(n) if isinstance(y, ast.Nonlocal) for x in y.names}
            for x in nl:
                if x not in out:
                    out.append(x)
            continue
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name and n.name not in out:
            out.append(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                x = a.asname or a.name.split('.')[0]
                if x not in out:
                    out.append(x)
        elif isinstance(n, (ast.MatchAs,)) and n.name and n.name not in out:
            out.append(n.name)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for y in ast.walk(n):
                if isinstance(y, ast.NamedExpr):
                    tgt(y.target)
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out
