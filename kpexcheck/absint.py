"""Abstract interpretation of the analysed source over boolean functions.

Regions are abstracted to their indicator at one arbitrary place (exact for the set operations), what cannot be known there
(is a region empty? how large is it? coordinates) stays open, and the values of joining paths are combined under their
conditions (decision diagrams).  Nothing of the analysed code is imported or executed: the interpreter walks the syntax
tree, every branch that is not decided is taken both ways, and calls into KLayout are given by the model classes."""
from __future__ import annotations
import ast
import math
import re
from typing import *
from .bools import Bdd
from .model import AnalysisBroken, Program, Func, Class
from .vfa import T, const


class SB:
    """a truth value given by a boolean function"""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


class Union_:
    """alternatives under disjoint conditions"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class LObj:
    kind = 'list'

    def __init__(self, items=()):
        self.items = [list(x) for x in items]      # [condition, value]


class DObj:
    def __init__(self, factory=None):
        self.items: Dict[object, list] = {}         # hkey -> [condition, key, value]
        self.factory = factory


class SObj(DObj):
    pass


class Inst:
    def __init__(self, cls: Class):
        self.cls = cls
        self.fields: Dict[str, object] = {}


class FuncV:
    def __init__(self, func: Optional[Func], node, module, cls, env=None, self_=None):
        self.func, self.node, self.module, self.cls, self.env, self.self_ = func, node, module, cls, env, self_


class ClassV:
    def __init__(self, cls: Class):
        self.cls = cls


class ExtV:
    """something of another package"""
    def __init__(self, name):
        self.name = name


class Meth:
    """a bound operation given by a Python function f(interp, args, kw, pc)"""
    def __init__(self, f, name=''):
        self.f, self.name = f, name


class Frame:
    def __init__(self, module, cls, base, parent=None):
        self.module, self.cls, self.base, self.parent = module, cls, base, parent
        self.env: Dict[str, object] = {}
        self.rets: List[Tuple[int, object]] = []
        self.yields: Optional[LObj] = None
        self.loops: List[dict] = []
        self.nonlocals: Set[str] = set()


BUILTINS = {'len', 'range', 'list', 'tuple', 'dict', 'set', 'frozenset', 'map', 'filter', 'enumerate', 'zip', 'sorted',
            'reversed', 'min', 'max', 'sum', 'any', 'all', 'isinstance', 'issubclass', 'hasattr', 'getattr', 'str', 'int',
            'float', 'bool', 'abs', 'round', 'print', 'next', 'iter', 'repr', 'type', 'super', 'id', 'object', 'pow',
            'Exception', 'ValueError', 'KeyError', 'IndexError', 'RuntimeError', 'NotImplementedError', 'AssertionError',
            'NotImplemented', 'TypeError', 'AttributeError', 'StopIteration', 'open'}

NUM = (int, float)


class Interp:
    def __init__(self, prog: Program, domain, ignore=('klayout_pex.log.',)):
        self.prog, self.domain, self.ignore = prog, domain, tuple(ignore)
        self.b = Bdd()
        self.b.limit = 6_000_000
        self.fresh_n = 0
        self.depth = 0
        self.raised: List[Tuple[int, str]] = []
        self.inlined: Set[str] = set()
        self.positive: Set[T] = set()               # numbers that are known to be greater than zero
        self.steps = 0
        self.consts: Dict[str, object] = {}
        self.where = ''

    # ------------------------------------------------------------ conditions
    def var(self, key):
        return self.b.var(key)

    def fresh(self, what='?'):
        self.fresh_n += 1
        return self.b.var(('open', what, self.fresh_n))

    def And(self, *xs):
        r = 1
        for x in xs:
            r = self.b.ite(r, x, 0)
        return r

    def Or(self, *xs):
        r = 0
        for x in xs:
            r = self.b.ite(r, 1, x)
        return r

    def Not(self, x):
        return self.b.ite(x, 0, 1)

    def Ite(self, c, a, b):
        return self.b.ite(c, a, b)

    def implies(self, a, b):
        return self.And(a, self.Not(b)) == 0

    # ------------------------------------------------------------ values
    def broken(self, node, what):
        raise AnalysisBroken(f"{self.where}:{getattr(node, 'lineno', '?')}: {what}")

    def merge(self, g, a, b):
        """a where g, else b"""
        if g == 1 or a is b:
            return a
        if g == 0:
            return b
        if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
            return self.sb(self.Ite(g, self.node(a), self.node(b)))
        if type(a) is type(b) and isinstance(a, (int, float, str, bytes, type(None))) and a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and type(a) is tuple and type(b) is tuple:
            return tuple(self.merge(g, x, y) for x, y in zip(a, b))
        alts: List[list] = []

        def put(c, v):
            if c == 0:
                return
            for x in alts:
                if self.same(x[1], v):
                    x[0] = self.Or(x[0], c)
                    return
            alts.append([c, v])
        for c, v in (a.alts if isinstance(a, Union_) else [(1, a)]):
            put(self.And(g, c), v)
        for c, v in (b.alts if isinstance(b, Union_) else [(1, b)]):
            put(self.And(self.Not(g), c), v)
        if len(alts) == 1:
            return alts[0][1]
        return Union_([tuple(x) for x in alts])

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (int, float, str, bytes, type(None))) and type(a) is type(b):
            return a == b
        if isinstance(a, SB) and isinstance(b, SB):
            return a.n == b.n
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, (ExtV,)) and isinstance(b, ExtV):
            return a.name == b.name
        if hasattr(a, 'hkey') and type(a) is type(b):
            return a.hkey() == b.hkey()
        if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls and a.cls.frozen:
            return self.hkey(a) == self.hkey(b)
        return False

    def sb(self, n):
        return True if n == 1 else False if n == 0 else SB(n)

    def node(self, v):
        return v.n if isinstance(v, SB) else int(bool(v))

    def alts(self, v, pc):
        if isinstance(v, Union_):
            for c, x in v.alts:
                g = self.And(pc, c)
                if g:
                    yield g, x
        elif pc:
            yield pc, v

    def join(self, parts):
        """value of [(condition, value)] under disjoint conditions"""
        r, first = None, True
        for g, v in parts:
            r = v if first else self.merge(g, v, r)
            first = False
        return r

    def lift(self, f, pc, *vals):
        """apply f(pc, *vals) to the alternatives"""
        combos = [(pc, ())]
        for v in vals:
            if isinstance(v, Union_):
                combos = [(g2, xs + (x,)) for g, xs in combos for g2, x in self.alts(v, g)]
            else:
                combos = [(g, xs + (v,)) for g, xs in combos]
        if len(combos) == 1:
            return f(combos[0][0], *combos[0][1])
        return self.join([(g, f(g, *xs)) for g, xs in combos])

    def truth(self, v, pc) -> int:
        if isinstance(v, Unmodelled):
            raise AnalysisBroken(v.msg)
        if isinstance(v, SB):
            return v.n
        if isinstance(v, Union_):
            return self.Or(*[self.And(c, self.truth(x, self.And(pc, c))) for c, x in v.alts])
        if isinstance(v, (bool, int, float, str, bytes, tuple, type(None))):
            return int(bool(v))
        if isinstance(v, (LObj, DObj)):
            it = v.items.values() if isinstance(v, DObj) else v.items
            return self.Or(*[x[0] for x in it])
        if isinstance(v, T):
            if v in self.positive:
                return 1
            return self.b.of(T('call', 'bool', (v,), ()))
        if isinstance(v, Inst):
            m = self.prog.find_method(v.cls.qual, '__bool__') or self.prog.find_method(v.cls.qual, '__len__')
            if m:
                return self.truth(self.call_func(self.bound(m, v), [], {}, pc, None), pc)
            return 1
        if hasattr(v, 'truth'):
            return v.truth(self, pc)
        return 1

    def hkey(self, v):
        if isinstance(v, Unmodelled):
            raise AnalysisBroken(v.msg)
        if isinstance(v, (str, int, float, bool, bytes, type(None))):
            return ('c', v)
        if isinstance(v, tuple):
            return ('t',) + tuple(self.hkey(x) for x in v)
        if isinstance(v, Inst):
            if v.cls.frozen or v.cls.is_dataclass:
                return ('i', v.cls.qual) + tuple((k, self.hkey(x)) for k, x in sorted(v.fields.items()))
            return ('o', id(v))
        if isinstance(v, T):
            return ('T', v)
        if isinstance(v, ClassV):
            return ('k', v.cls.qual)
        if isinstance(v, ExtV):
            return ('x', v.name)
        if hasattr(v, 'hkey'):
            return v.hkey()
        if isinstance(v, (Union_, SB)):
            raise AnalysisBroken(f"{self.where}: a key that depends on an open condition")
        return ('o', id(v))

    # ------------------------------------------------------------ containers
    def iterate(self, v, pc, node=None):
        """[(condition, element)] in order"""
        if isinstance(v, Union_):
            out = []
            for g, x in self.alts(v, pc):
                out += [(self.And(g, c), e) for c, e in self.iterate(x, g, node)]
            return out
        if isinstance(v, LObj):
            return [(self.And(pc, c), e) for c, e in list(map(tuple, v.items))]
        if isinstance(v, DObj):
            return [(self.And(pc, c), k) for c, k, _ in list(map(tuple, v.items.values()))]
        if isinstance(v, (tuple, str)):
            return [(pc, x) for x in v]
        if isinstance(v, ClassV) and v.cls.is_enum:
            return [(pc, self.enum_member(v.cls, m)) for m in self.prog.enum_members(v.cls.qual)]
        if isinstance(v, Inst):
            m = self.prog.find_method(v.cls.qual, '__iter__')
            if m:
                return self.iterate(self.call_func(self.bound(m, v), [], {}, pc, node), pc, node)
        if hasattr(v, 'iterate'):
            return v.iterate(self, pc)
        self.broken(node, f"cannot iterate over {type(v).__name__}")

    def enum_member(self, cls, name):
        return ExtV(f"{cls.qual}.{name}")

    def seq(self, items):
        return LObj([(g, v) for g, v in items])

    def count(self, obj, pc):
        """how many elements: int, or alternatives"""
        items = list(obj.items.values()) if isinstance(obj, DObj) else obj.items
        cnt = {0: pc}
        for x in items:
            g = x[0]
            new: Dict[int, int] = {}
            for k, c in cnt.items():
                a, o = self.And(c, g), self.And(c, self.Not(g))
                if a:
                    new[k + 1] = self.Or(new.get(k + 1, 0), a)
                if o:
                    new[k] = self.Or(new.get(k, 0), o)
            cnt = new
        if len(cnt) == 1:
            return next(iter(cnt))
        return Union_([(c, k) for k, c in cnt.items()])

    def positions(self, obj: LObj, i: int, pc):
        """[(condition, item)] for index i"""
        items = obj.items
        if i < 0:
            return [(c, x) for c, x in self._pos(list(reversed(items)), -i - 1, pc)]
        return self._pos(items, i, pc)

    def _pos(self, items, i, pc):
        cnt = {0: pc}
        out = []
        for x in items:
            g = x[0]
            hit = self.And(cnt.get(i, 0), g)
            if hit:
                out.append((hit, x))
            new: Dict[int, int] = {}
            for k, c in cnt.items():
                a, o = self.And(c, g), self.And(c, self.Not(g))
                if a and k < i:
                    new[k + 1] = self.Or(new.get(k + 1, 0), a)
                if o:
                    new[k] = self.Or(new.get(k, 0), o)
            cnt = new
        return out

    def getitem(self, o, k, pc, node=None):
        def one(g, o, k):
            if isinstance(o, LObj):
                if isinstance(k, bool) or not isinstance(k, int):
                    if isinstance(k, slice):
                        its = [(c, v) for c, v in o.items if self.And(g, c)]
                        if not all(self.implies(g, c) for c, _ in its):
                            self.broken(node, 'slice of a list of open length')
                        return self.seq([(1, v) for _, v in its[k]])
                    self.broken(node, f"list index {type(k).__name__}")
                ps = self.positions(o, k, g)
                miss = self.And(g, self.Not(self.Or(*[c for c, _ in ps])))
                if miss:
                    self.raised.append((miss, 'IndexError'))
                return self.join([(c, x[1]) for c, x in ps])
            if isinstance(o, tuple) or isinstance(o, str):
                if isinstance(k, (int, slice)):
                    try:
                        return o[k]
                    except IndexError:
                        self.raised.append((g, 'IndexError'))
                        return None
                self.broken(node, 'index of a tuple')
            if isinstance(o, DObj):
                h = self.hkey(k)
                it = o.items.get(h)
                if o.factory is not None and (it is None or not self.implies(g, it[0])):
                    v = self.call(o.factory, [], {}, g, node)
                    if it is None:
                        o.items[h] = [g, k, v]
                        return v
                    it[2] = self.merge(it[0], it[2], v)
                    it[0] = self.Or(it[0], g)
                    return it[2]
                if it is None:
                    self.raised.append((g, f"KeyError {k}"))
                    return None
                miss = self.And(g, self.Not(it[0]))
                if miss:
                    self.raised.append((miss, f"KeyError {k}"))
                return it[2]
            if isinstance(o, Inst):
                m = self.prog.find_method(o.cls.qual, '__getitem__')
                if m:
                    return self.call_func(self.bound(m, o), [k], {}, g, node)
            if hasattr(o, 'getitem'):
                return o.getitem(self, k, g)
            if isinstance(o, (ClassV, ExtV)):
                return o            # generic alias
            self.broken(node, f"index of {type(o).__name__}")
        return self.lift(one, pc, o, k)

    def setitem(self, o, k, v, pc, node=None):
        def one(g, o, k):
            if isinstance(o, LObj):
                for c, x in self.positions(o, k, g):
                    x[1] = self.merge(c, v, x[1])
            elif isinstance(o, DObj):
                self.dict_put(o, k, v, g)
            elif hasattr(o, 'setitem'):
                o.setitem(self, k, v, g)
            else:
                self.broken(node, f"store into {type(o).__name__}")
        self.lift(one, pc, o, k)

    def dict_put(self, o, k, v, g):
        h = self.hkey(k)
        it = o.items.get(h)
        if it is None:
            o.items[h] = [g, k, v]
        elif self.And(it[0], g) == 0 and self.unused(v, 1) and self.unused(it[2], g):
            it[0] = self.Or(it[0], g)       # two empty containers of disjoint worlds may share one object
        else:
            it[2] = self.merge(g, v, it[2]) if self.And(it[0], self.Not(g)) else v
            it[0] = self.Or(it[0], g)

    def unused(self, v, g):
        """a container that holds nothing where g"""
        if isinstance(v, LObj):
            return all(self.And(c, g) == 0 for c, _ in v.items)
        if type(v) is DObj:
            return all(self.And(x[0], g) == 0 for x in v.items.values())
        return hasattr(v, 'unused') and v.unused(self, g)

    # ------------------------------------------------------------ attributes
    def bound(self, m: Func, self_):
        return FuncV(m, m.node, m.module, m.cls, None, self_)

    def getattr(self, o, name, pc, node=None):
        def one(g, o):
            if isinstance(o, Inst):
                if name in o.fields:
                    return o.fields[name]
                m = self.prog.find_method(o.cls.qual, name)
                if m:
                    if m.kind == 'property' or any(self._deco(d) in ('property', 'cached_property')
                                                  for d in m.node.decorator_list):
                        return self.call_func(self.bound(m, o), [], {}, g, node)
                    if m.kind == 'staticmethod':
                        return FuncV(m, m.node, m.module, m.cls)
                    if m.kind == 'classmethod':
                        return self.bound(m, ClassV(o.cls))
                    return self.bound(m, o)
                if name == '__class__':
                    return ClassV(o.cls)
                c = self.prog.find_const(o.cls.qual, name)
                if c is not None:
                    return self.const_of(o.cls, name, c)
                self.broken(node, f"{o.cls.name} has no attribute {name}")
            if isinstance(o, ClassV):
                if o.cls.is_enum and name in self.prog.enum_members(o.cls.qual):
                    return self.enum_member(o.cls, name)
                if name in o.cls.inner:
                    return ClassV(o.cls.inner[name])
                m = self.prog.find_method(o.cls.qual, name)
                if m:
                    return self.bound(m, o) if m.kind == 'classmethod' else FuncV(m, m.node, m.module, m.cls)
                c = self.prog.find_const(o.cls.qual, name)
                if c is not None:
                    return self.const_of(o.cls, name, c)
                if name == '__name__':
                    return o.cls.name
                self.broken(node, f"{o.cls.name} has no attribute {name}")
            if isinstance(o, ExtV):
                q = self.prog.canonical(f"{o.name}.{name}")
                return self.global_value(q)
            if isinstance(o, Unmodelled):
                return o
            if isinstance(o, (LObj, DObj, str, tuple)):
                return Meth(lambda I, a, k, p: I.container_method(o, name, a, k, p, node), name)
            if hasattr(o, 'getattr'):
                return o.getattr(self, name, g)
            self.broken(node, f"attribute {name} of {type(o).__name__}")
        return self.lift(one, pc, o)

    def _deco(self, d):
        return d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ''

    def const_of(self, cls, name, node):
        k = f"{cls.qual}.{name}"
        if k not in self.consts:
            self.consts[k] = self.eval(node, Frame(cls.module, cls, 1), 1)
        return self.consts[k]

    def setattr(self, o, name, v, pc, node=None):
        def one(g, o):
            if isinstance(o, Inst):
                if name in o.fields and g != 1:
                    o.fields[name] = self.merge(g, v, o.fields[name])
                else:
                    o.fields[name] = v
            elif hasattr(o, 'setattr'):
                o.setattr(self, name, v, g)
            else:
                self.broken(node, f"store into attribute {name} of {type(o).__name__}")
        self.lift(one, pc, o)

    # ------------------------------------------------------------ names
    def global_value(self, q):
        if q in self.prog.classes:
            return ClassV(self.prog.classes[q])
        if q in self.prog.funcs:
            f = self.prog.funcs[q]
            return FuncV(f, f.node, f.module, f.cls)
        mod, _, n = q.rpartition('.')
        if mod in self.prog.protos.enums and n in self.prog.protos.enums[mod]:
            return self.prog.protos.enums[mod][n]
        if mod in self.prog.protos.messages:
            for e, vals in self.prog.protos.enums.items():
                if e.rpartition('.')[0] == mod and n in vals:
                    return vals[n]
        m = self.prog.modules.get(mod)
        if m is not None and n in m.consts:
            if q not in self.consts:
                self.consts[q] = self.eval(m.consts[n], Frame(m, None, 1), 1)
            return self.consts[q]
        return ExtV(q)

    def lookup(self, name, fr: Frame, node):
        f = fr
        while f is not None:
            if name in f.env:
                return f.env[name]
            f = f.parent
        if fr.cls is not None and name in fr.cls.inner:
            return ClassV(fr.cls.inner[name])
        q = self.prog.resolve_name(name, fr.module)
        if q:
            return self.global_value(q)
        if name in BUILTINS:
            return ExtV(name)
        self.broken(node, f"unknown name {name}")

    def assign(self, name, v, fr: Frame, pc):
        f = fr
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None and name not in f.env:
                f = f.parent
            f = f or fr
        if name in f.env and pc != f.base:
            f.env[name] = self.merge(pc, v, f.env[name])
        else:
            f.env[name] = v

    def store(self, t, v, fr, pc):
        if isinstance(t, ast.Name):
            self.assign(t.id, v, fr, pc)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = next((i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)), None)
            if star is not None:
                its = self.iterate(v, pc, t)
                k = len(its) - (n - 1)
                vals = [x for _, x in its]
                vals = vals[:star] + [self.seq([(1, x) for x in vals[star:star + k]])] + vals[star + k:]
            elif isinstance(v, (tuple, str)):
                vals = list(v)
            else:
                vals = [self.getitem(v, i, pc, t) for i in range(n)]
            for e, x in zip(t.elts, vals):
                self.store(e.value if isinstance(e, ast.Starred) else e, x, fr, pc)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr, pc), t.attr, v, pc, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr, pc), self.eval(t.slice, fr, pc), v, pc, t)
        else:
            self.broken(t, f"assignment to {type(t).__name__}")

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr: Frame, pc) -> int:
        for s in stmts:
            if pc == 0:
                return 0
            self.steps += 1
            if self.steps > 3_000_000:
                raise AnalysisBroken('the interpretation does not end')
            pc = self.stmt(s, fr, pc)
        return pc

    def stmt(self, s, fr, pc) -> int:
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            self.broken(s, f"statement {k}")
        return m(s, fr, pc)

    def s_Pass(self, s, fr, pc):
        return pc
    s_Import = s_ImportFrom = s_Global = s_Pass

    def s_Nonlocal(self, s, fr, pc):
        fr.nonlocals |= set(s.names)
        return pc

    def s_Assert(self, s, fr, pc):
        return pc

    def s_Expr(self, s, fr, pc):
        if not isinstance(s.value, ast.Constant):
            self.eval(s.value, fr, pc)
        return pc

    def s_Assign(self, s, fr, pc):
        v = self.eval(s.value, fr, pc)
        for t in s.targets:
            self.store(t, v, fr, pc)
        return pc

    def s_AnnAssign(self, s, fr, pc):
        if s.value is not None:
            self.store(s.target, self.eval(s.value, fr, pc), fr, pc)
        return pc

    def s_AugAssign(self, s, fr, pc):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.restrict(self.lookup(t.id, fr, t), pc)
            put = lambda v: self.assign(t.id, v, fr, pc)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr, pc)
            cur = self.getattr(o, t.attr, pc, t)
            put = lambda v: self.setattr(o, t.attr, v, pc, t)
        else:
            o = self.eval(t.value, fr, pc)
            i = self.eval(t.slice, fr, pc)
            cur = self.getitem(o, i, pc, t)
            put = lambda v: self.setitem(o, i, v, pc, t)
        rhs = self.eval(s.value, fr, pc)

        def one(g, c):
            if isinstance(c, LObj) and op == 'Add':
                c.items += [list(x) for x in self.iterate(rhs, g, s)]
                return c
            if isinstance(c, DObj) and op == 'BitOr':
                self.container_method(c, 'update', [rhs], {}, g, s)
                return c
            if hasattr(c, 'iop'):
                r = self.lift(lambda g2, x: c.iop(self, op, x, g2) or c, g, rhs)
                return c
            return self.binop(op, c, rhs, g, s)
        put(self.lift(one, pc, cur))
        return pc

    def s_If(self, s, fr, pc):
        c = self.truth(self.eval(s.test, fr, pc), pc)
        a, b = self.And(pc, c), self.And(pc, self.Not(c))
        la = self.block(s.body, fr, a) if a else 0
        lb = self.block(s.orelse, fr, b) if b else 0
        return self.Or(la, lb)

    def s_For(self, s, fr, pc):
        it = self.eval(s.iter, fr, pc)
        brk_all, out = 0, 0
        for g, x in self.alts(it, pc):
            live = g
            loop = dict(brk=0, cont=0)
            fr.loops.append(loop)
            for c, e in self.iterate(x, g, s):
                gi = self.And(live, c)
                rest = self.And(live, self.Not(c))
                if gi == 0:
                    continue
                self.store(s.target, e, fr, gi)
                loop['cont'] = 0
                l2 = self.block(s.body, fr, gi)
                live = self.Or(rest, l2, loop['cont'])
                if live == 0:
                    break
            fr.loops.pop()
            if s.orelse and live:
                live = self.block(s.orelse, fr, live)
            out = self.Or(out, live, loop['brk'])
        return out

    def s_While(self, s, fr, pc):
        live, out = pc, 0
        loop = dict(brk=0, cont=0)
        fr.loops.append(loop)
        n = 0
        while live:
            n += 1
            if n > 64:
                self.broken(s, 'loop without a bound')
            c = self.truth(self.eval(s.test, fr, live), live)
            out = self.Or(out, self.And(live, self.Not(c)))
            live = self.And(live, c)
            if not live:
                break
            loop['cont'] = 0
            live = self.Or(self.block(s.body, fr, live), loop['cont'])
        fr.loops.pop()
        if s.orelse and out:
            out = self.block(s.orelse, fr, out)
        return self.Or(out, loop['brk'])

    def s_Break(self, s, fr, pc):
        fr.loops[-1]['brk'] = self.Or(fr.loops[-1]['brk'], pc)
        return 0

    def s_Continue(self, s, fr, pc):
        fr.loops[-1]['cont'] = self.Or(fr.loops[-1]['cont'], pc)
        return 0

    def s_Return(self, s, fr, pc):
        fr.rets.append((pc, self.eval(s.value, fr, pc) if s.value is not None else None))
        return 0

    def s_Raise(self, s, fr, pc):
        self.raised.append((pc, ast.unparse(s)[:60]))
        return 0

    def s_Delete(self, s, fr, pc):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr, pc)
                k = self.eval(t.slice, fr, pc)
                for g, x in self.alts(o, pc):
                    if not isinstance(x, DObj):
                        self.broken(s, 'del of a list element')
                    it = x.items.get(self.hkey(k))
                    if it:
                        it[0] = self.And(it[0], self.Not(g))
            elif isinstance(t, ast.Name):
                pass
            else:
                self.broken(s, 'del')
        return pc

    def s_With(self, s, fr, pc):
        for i in s.items:
            v = self.eval(i.context_expr, fr, pc)
            if i.optional_vars is not None:
                self.store(i.optional_vars, v, fr, pc)
        return self.block(s.body, fr, pc)

    def s_Try(self, s, fr, pc):
        l = self.block(s.body, fr, pc)
        if s.orelse and l:
            l = self.block(s.orelse, fr, l)
        if s.finalbody:
            l2 = self.block(s.finalbody, fr, pc)
            l = self.And(l, l2)
        return l

    def s_FunctionDef(self, s, fr, pc):
        self.assign(s.name, FuncV(None, s, fr.module, fr.cls, fr), fr, pc)
        return pc

    def s_Match(self, s, fr, pc):
        v = self.eval(s.subject, fr, pc)
        rest, out = pc, 0
        for case in s.cases:
            if not rest:
                break
            c = self.pattern(case.pattern, v, fr, rest)
            if case.guard is not None and self.And(rest, c):
                c = self.And(c, self.truth(self.eval(case.guard, fr, self.And(rest, c)), self.And(rest, c)))
            g = self.And(rest, c)
            if g:
                out = self.Or(out, self.block(case.body, fr, g))
            rest = self.And(rest, self.Not(c))
        return self.Or(out, rest)

    def pattern(self, p, v, fr, pc) -> int:
        if isinstance(p, ast.MatchValue):
            return self.node(self.compare('Eq', v, self.eval(p.value, fr, pc), pc, p))
        if isinstance(p, ast.MatchSingleton):
            return self.node(self.compare('Is', v, p.value, pc, p))
        if isinstance(p, ast.MatchAs):
            c = 1 if p.pattern is None else self.pattern(p.pattern, v, fr, pc)
            if p.name and self.And(pc, c):
                self.assign(p.name, v, fr, self.And(pc, c))
            return c
        if isinstance(p, ast.MatchOr):
            return self.Or(*[self.pattern(x, v, fr, pc) for x in p.patterns])
        if isinstance(p, ast.MatchSequence) and isinstance(v, tuple) and len(v) == len(p.patterns):
            return self.And(*[self.pattern(x, y, fr, pc) for x, y in zip(p.patterns, v)])
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.node(self.isinstance(v, self.eval(p.cls, fr, pc), p))
        self.broken(p, f"pattern {type(p).__name__}")

    # ------------------------------------------------------------ expressions
    def eval(self, n, fr, pc):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            self.broken(n, f"expression {type(n).__name__}")
        return m(n, fr, pc)

    def e_Constant(self, n, fr, pc):
        return n.value

    def e_Name(self, n, fr, pc):
        return self.restrict(self.lookup(n.id, fr, n), pc)

    def restrict(self, v, pc):
        if isinstance(v, Union_):
            xs = [(c, x) for c, x in v.alts if self.And(pc, c)]
            if len(xs) == 1:
                return xs[0][1]
            if len(xs) < len(v.alts):
                return Union_(xs)
        elif type(v) is tuple and any(isinstance(x, Union_) for x in v):
            return tuple(self.restrict(x, pc) for x in v)
        return v

    def e_Attribute(self, n, fr, pc):
        return self.getattr(self.eval(n.value, fr, pc), n.attr, pc, n)

    def e_Tuple(self, n, fr, pc):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out += [x for _, x in self.iterate(self.eval(e.value, fr, pc), pc, n)]
            else:
                out.append(self.eval(e, fr, pc))
        return tuple(out)

    def elements(self, elts, fr, pc, n):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out += self.iterate(self.eval(e.value, fr, pc), pc, n)
            else:
                out.append((1, self.eval(e, fr, pc)))
        return out

    def e_List(self, n, fr, pc):
        return self.seq(self.elements(n.elts, fr, pc, n))

    def e_Set(self, n, fr, pc):
        s = SObj()
        for g, v in self.elements(n.elts, fr, pc, n):
            self.dict_put(s, v, None, g)
        return s

    def e_Dict(self, n, fr, pc):
        d = DObj()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.container_method(d, 'update', [self.eval(v, fr, pc)], {}, pc, n)
            else:
                self.dict_put(d, self.eval(k, fr, pc), self.eval(v, fr, pc), 1)
        return d

    def e_Starred(self, n, fr, pc):
        return self.eval(n.value, fr, pc)

    def e_Slice(self, n, fr, pc):
        f = lambda x: None if x is None else self.eval(x, fr, pc)
        return slice(f(n.lower), f(n.upper), f(n.step))

    def e_Subscript(self, n, fr, pc):
        return self.getitem(self.eval(n.value, fr, pc), self.eval(n.slice, fr, pc), pc, n)

    def e_Lambda(self, n, fr, pc):
        return FuncV(None, n, fr.module, fr.cls, fr)

    def e_IfExp(self, n, fr, pc):
        c = self.truth(self.eval(n.test, fr, pc), pc)
        a, b = self.And(pc, c), self.And(pc, self.Not(c))
        if not b:
            return self.eval(n.body, fr, pc)
        if not a:
            return self.eval(n.orelse, fr, pc)
        return self.merge(c, self.eval(n.body, fr, a), self.eval(n.orelse, fr, b))

    def e_NamedExpr(self, n, fr, pc):
        v = self.eval(n.value, fr, pc)
        self.store(n.target, v, fr, pc)
        return v

    def e_BoolOp(self, n, fr, pc):
        v = self.eval(n.values[0], fr, pc)
        for x in n.values[1:]:
            c = self.truth(v, pc)
            go = c if isinstance(n.op, ast.And) else self.Not(c)
            g = self.And(pc, go)
            if not g:
                return v
            w = self.eval(x, fr, g)
            if isinstance(v, SB) and not isinstance(w, (bool, SB)) :
                w = self.sb(self.truth(w, g))
            v = w if self.implies(pc, go) else self.merge(go, w, v)
        return v

    def e_UnaryOp(self, n, fr, pc):
        v = self.eval(n.operand, fr, pc)
        op = type(n.op).__name__
        if op == 'Not':
            return self.sb(self.Not(self.truth(v, pc)))

        def one(g, x):
            if isinstance(x, NUM):
                return -x if op == 'USub' else +x if op == 'UAdd' else ~x
            if isinstance(x, T):
                return T('un', '-', x) if op == 'USub' else x
            if op == 'USub' and hasattr(x, 'binop'):
                return self.binop('Mult', x, -1, g, n)
            self.broken(n, f"{op} of {type(x).__name__}")
        return self.lift(one, pc, v)

    def e_BinOp(self, n, fr, pc):
        return self.binop(type(n.op).__name__, self.eval(n.left, fr, pc), self.eval(n.right, fr, pc), pc, n)

    def binop(self, op, a, b, pc, node=None):
        return self.lift(lambda g, x, y: self._binop(op, x, y, g, node), pc, a, b)

    SYM = dict(Add='+', Sub='-', Mult='*', Div='/', Pow='**', FloorDiv='//', Mod='%')

    def _binop(self, op, a, b, pc, node):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            try:
                return {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mult': lambda: a * b, 'Div': lambda: a / b,
                        'FloorDiv': lambda: a // b, 'Mod': lambda: a % b, 'Pow': lambda: a ** b, 'BitAnd': lambda: a & b,
                        'BitOr': lambda: a | b, 'BitXor': lambda: a ^ b, 'LShift': lambda: a << b,
                        'RShift': lambda: a >> b}[op]()
            except ZeroDivisionError:
                self.raised.append((pc, 'ZeroDivisionError'))
                return 0
        if isinstance(a, str):
            if op == 'Add' and isinstance(b, str):
                return a + b
            if op == 'Mult' and isinstance(b, int):
                return a * b
            if op == 'Mod':
                xs = b if isinstance(b, tuple) else (b,)
                if all(isinstance(x, (str, int, float)) for x in xs):
                    return a % b
                return self.percent(a, xs, pc, node)
            if op == 'Add' and isinstance(b, T):
                return text([a, b])
        if isinstance(a, T) and a.op in ('fstr', 'fmt') and op == 'Add' and isinstance(b, (str, T)):
            return text([a, b])
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, LObj) and op == 'Add':
            return self.seq([tuple(x) for x in a.items] + self.iterate(b, pc, node))
        if isinstance(a, LObj) and op == 'Mult' and isinstance(b, int):
            return self.seq([tuple(x) for x in a.items] * b)
        if isinstance(a, DObj) and isinstance(b, DObj) and op in ('BitOr', 'Sub', 'BitAnd'):
            r = type(a)() if isinstance(a, SObj) else DObj()
            for c, k, v in a.items.values():
                x = b.items.get(self.hkey(k))
                p = x[0] if x else 0
                g = c if op == 'BitOr' else self.And(c, self.Not(p)) if op == 'Sub' else self.And(c, p)
                if g:
                    self.dict_put(r, k, v, g)
            if op == 'BitOr':
                for c, k, v in b.items.values():
                    self.dict_put(r, k, v, c)
            return r
        if hasattr(a, 'binop'):
            r = a.binop(self, op, b, pc)
            if r is not NotImplemented:
                return r
        if hasattr(b, 'rbinop'):
            r = b.rbinop(self, op, a, pc)
            if r is not NotImplemented:
                return r
        if isinstance(a, (T, int, float)) and isinstance(b, (T, int, float)) and op in self.SYM:
            return T('bin', self.SYM[op], a if isinstance(a, T) else const(a), b if isinstance(b, T) else const(b))
        if isinstance(a, Inst):
            nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Div': '__truediv__', 'BitAnd': '__and__',
                  'BitOr': '__or__'}.get(op)
            m = nm and self.prog.find_method(a.cls.qual, nm)
            if m:
                return self.call_func(self.bound(m, a), [b], {}, pc, node)
        self.broken(node, f"{op} of {type(a).__name__} and {type(b).__name__}")

    def e_Compare(self, n, fr, pc):
        left = self.eval(n.left, fr, pc)
        r = 1
        for op, c in zip(n.ops, n.comparators):
            right = self.eval(c, fr, pc)
            r = self.And(r, self.node(self.compare(type(op).__name__, left, right, pc, n)))
            if r == 0:
                break
            left = right
        return self.sb(r)

    def compare(self, op, a, b, pc, node):
        r = self.lift(lambda g, x, y: self._compare(op, x, y, g, node), pc, a, b)
        if isinstance(r, Union_):
            return self.sb(self.truth(r, pc))
        return r

    def _compare(self, op, a, b, pc, node):
        for x in (a, b):
            if isinstance(x, Unmodelled):
                raise AnalysisBroken(x.msg)
        if op in ('NotEq', 'IsNot', 'NotIn'):
            return self.sb(self.Not(self.node(self._compare({'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}[op], a, b, pc, node))))
        if op == 'In':
            if isinstance(b, DObj):
                it = b.items.get(self.hkey(a))
                return self.sb(it[0]) if it else False
            if isinstance(b, (LObj, tuple)):
                return self.sb(self.Or(*[self.And(g, self.node(self.compare('Eq', a, x, pc, node)))
                                         for g, x in self.iterate(b, 1, node)]))
            if isinstance(b, str) and isinstance(a, str):
                return a in b
            if hasattr(b, 'contains'):
                return b.contains(self, a, pc)
            self.broken(node, f"in {type(b).__name__}")
        if op == 'Is':
            if a is b or (isinstance(a, (type(None), int)) and isinstance(b, (type(None), int)) and a == b) or \
                    (isinstance(a, ExtV) and isinstance(b, ExtV) and a.name == b.name):
                return True
            if isinstance(a, SB) or isinstance(b, SB):
                return self._compare('Eq', a, b, pc, node)
            return False
        if op == 'Eq':
            if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
                x, y = self.node(a), self.node(b)
                return self.sb(self.Ite(x, y, self.Not(y)))
            if isinstance(a, (int, float, str, bytes, type(None))) and isinstance(b, (int, float, str, bytes, type(None))):
                return a == b
            if a is None or b is None:
                return False
            if isinstance(a, T) or isinstance(b, T):
                if a is b:
                    return True
                if isinstance(a, (T, int, float, str)) and isinstance(b, (T, int, float, str)):
                    if a in self.positive and b == 0 or b in self.positive and a == 0:
                        return False
                    from .vfa import mk_cmp
                    x = mk_cmp('==', a if isinstance(a, T) else const(a), b if isinstance(b, T) else const(b))
                    return self.sb(self.b.of(x))
                return False
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return False
                return self.sb(self.And(*[self.node(self.compare('Eq', x, y, pc, node)) for x, y in zip(a, b)]))
            if isinstance(a, Inst) and isinstance(b, Inst):
                if a.cls is not b.cls:
                    return False
                if a.cls.is_dataclass:
                    return self.sb(self.And(*[self.node(self.compare('Eq', a.fields[k], b.fields.get(k), pc, node)) for k in a.fields]))
                return a is b
            if isinstance(a, (ExtV, ClassV)) or isinstance(b, (ExtV, ClassV)):
                return self.same(a, b)
            if isinstance(a, LObj) and isinstance(b, LObj):
                if all(g == 1 for g, _ in a.items + b.items):
                    if len(a.items) != len(b.items):
                        return False
                    return self.sb(self.And(*[self.node(self.compare('Eq', x[1], y[1], pc, node)) for x, y in zip(a.items, b.items)]))
            if hasattr(a, 'eq'):
                return a.eq(self, b, pc)
            return a is b
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) or isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        if isinstance(a, (T, int, float)) and isinstance(b, (T, int, float)):
            if a in self.positive and not isinstance(b, T) and b <= 0:
                return op in ('Gt', 'GtE')
            if b in self.positive and not isinstance(a, T) and a <= 0:
                return op in ('Lt', 'LtE')
            ta, tb = (x if isinstance(x, T) else const(x) for x in (a, b))
            if op in ('Gt', 'LtE'):
                x = T('cmp', '<', tb, ta)
            else:
                x = T('cmp', '<', ta, tb)
            n = self.b.of(x)
            return self.sb(n if op in ('Lt', 'Gt') else self.Not(n))
        if hasattr(a, 'rank') and hasattr(b, 'rank'):
            return {'Lt': a.rank < b.rank, 'LtE': a.rank <= b.rank, 'Gt': a.rank > b.rank, 'GtE': a.rank >= b.rank}[op]
        self.broken(node, f"{op} of {type(a).__name__} and {type(b).__name__}")

    def e_JoinedStr(self, n, fr, pc):
        parts = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                parts.append(self.formatted(self.eval(p.value, fr, pc), self.eval(p.format_spec, fr, pc) if p.format_spec is not None else '',
                                            p.conversion, n))
        return self.joined(parts, pc, n)

    def formatted(self, v, spec, conv, n):
        """part of a text: the value, formatted"""
        if isinstance(v, (str, int, float, bool, type(None))) and isinstance(spec, str):
            v = repr(v) if conv == 114 else str(v) if conv == 115 or v is None and not spec else v
            return format(v, spec)
        if isinstance(v, Union_) and not spec and all(isinstance(x, (str, int, float, type(None))) for _, x in v.alts):
            return v
        if isinstance(v, T):
            return T('fmt', spec, v) if spec else v if v.op in ('fstr', 'fmt') else T('fmt', '', v)
        return T('sym', 'text', getattr(n, 'lineno', 0))

    def joined(self, parts, pc, n):
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        if all(isinstance(p, (str, Union_)) for p in parts):
            return self.lift(lambda g, *xs: ''.join(str(x) for x in xs), pc, *parts)
        return text([p if isinstance(p, (T, str)) else T('sym', 'text', getattr(n, 'lineno', 0)) for p in parts])

    def str_format(self, fmt, a, kw, pc, n):
        import string
        auto = 0
        parts = []
        for lit, name, spec, conv in string.Formatter().parse(fmt):
            if lit:
                parts.append(lit)
            if name is None:
                continue
            m = re.match(r'(\w*)((?:\.\w+|\[[^\]]*\])*)$', name)
            if not m or '{' in (spec or ''):
                parts.append(T('sym', 'text', getattr(n, 'lineno', 0)))
                continue
            key = m.group(1)
            if not key:
                key, auto = str(auto), auto + 1
            if key.isdigit() and int(key) < len(a):
                v = a[int(key)]
            elif key in kw:
                v = kw[key]
            else:
                self.raised.append((pc, 'IndexError'))
                return None
            for x in re.findall(r'\.(\w+)|\[([^\]]*)\]', m.group(2)):
                v = self.getattr(v, x[0], pc, n) if x[0] else self.getitem(v, int(x[1]) if x[1].isdigit() else x[1], pc, n)
            parts.append(self.formatted(v, spec or '', ord(conv) if conv else -1, n))
        return self.joined(parts, pc, n)

    def percent(self, fmt, xs, pc, n):
        """'…' % xs with values that are not known"""
        xs = list(xs)
        parts = []
        pos = 0
        for m in re.finditer(r'%(?:%|[-#0 +]*\d*(?:\.\d+)?[a-zA-Z])', fmt):
            parts.append(fmt[pos:m.start()])
            pos = m.end()
            if m.group() == '%%':
                parts.append('%')
            elif not xs:
                raise AnalysisBroken('not enough arguments for format string')
            else:
                x = xs.pop(0)
                if m.group() in ('%s', '%r'):
                    parts.append(self.formatted(x, '', 114 if m.group() == '%r' else -1, n))
                else:
                    parts.append(m.group() % x if isinstance(x, (str, int, float)) else T('fmt', m.group(), x))
        parts.append(fmt[pos:])
        return self.joined(parts, pc, n)

    def comp(self, n, fr, pc, emit):
        f = Frame(fr.module, fr.cls, pc, fr)

        def rec(i, g):
            if i == len(n.generators):
                emit(f, g)
                return
            gen = n.generators[i]
            it = self.eval(gen.iter, f if i else fr, g)
            for c, e in self.iterate(it, g, n):
                if c == 0:
                    continue
                f.base = c
                self.store(gen.target, e, f, c)
                cc = c
                for t in gen.ifs:
                    cc = self.And(cc, self.truth(self.eval(t, f, cc), cc))
                    if cc == 0:
                        break
                if cc:
                    f.base = cc
                    rec(i + 1, cc)
        rec(0, pc)

    def e_ListComp(self, n, fr, pc):
        out: List[Tuple[int, object]] = []
        self.comp(n, fr, pc, lambda f, g: out.append((1 if g == pc else g, self.eval(n.elt, f, g))))
        return self.seq(out)
    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, fr, pc):
        s = SObj()
        self.comp(n, fr, pc, lambda f, g: self.dict_put(s, self.eval(n.elt, f, g), None, 1 if g == pc else g))
        return s

    def e_DictComp(self, n, fr, pc):
        d = DObj()
        self.comp(n, fr, pc, lambda f, g: self.dict_put(d, self.eval(n.key, f, g), self.eval(n.value, f, g), 1 if g == pc else g))
        return d

    def e_Yield(self, n, fr, pc):
        v = self.eval(n.value, fr, pc) if n.value is not None else None
        fr.yields.items.append([pc, v])
        return None

    def e_YieldFrom(self, n, fr, pc):
        fr.yields.items += [list(x) for x in self.iterate(self.eval(n.value, fr, pc), pc, n)]
        return None

    def e_Call(self, n, fr, pc):
        # logging is not part of the behaviour
        if isinstance(n.func, (ast.Name, ast.Attribute)):
            q = self.prog.resolve_expr_name(n.func, fr.module, fr.cls)
            if q and q.startswith(self.ignore) and not self._shadowed(n.func, fr):
                return None
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            return Meth(lambda I, a, k, p: None, 'super')
        f = self.eval(n.func, fr, pc)
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                args += [x for _, x in self.iterate(self.eval(a.value, fr, pc), pc, n)]
            else:
                args.append(self.eval(a, fr, pc))
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr, pc)
                for c, key, v in d.items.values():
                    kw[key] = v
            else:
                kw[k.arg] = self.eval(k.value, fr, pc)
        return self.call(f, args, kw, pc, n)

    def _shadowed(self, f, fr):
        while isinstance(f, ast.Attribute):
            f = f.value
        x = fr
        while isinstance(f, ast.Name) and x is not None:
            if f.id in x.env:
                return True
            x = x.parent
        return False

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, pc, node=None):
        def one(g, f):
            if isinstance(f, Unmodelled):
                # what it returns is not known either; what is handed to it could be changed
                if any(isinstance(x, (LObj, DObj, Inst)) for x in list(args) + list(kw.values())):
                    raise AnalysisBroken(f.msg)
                return f
            if isinstance(f, ExtV) and f.name.split('.')[-1] in ('list', 'tuple', 'map', 'sorted', 'str', 'repr', 'len', 'set', 'int', 'float',
                                                                 'enumerate', 'zip', 'reversed'):
                for x in args:
                    if isinstance(x, Unmodelled):
                        return x
            if isinstance(f, FuncV):
                return self.call_func(f, args, kw, g, node)
            if isinstance(f, ClassV):
                return self.construct(f.cls, args, kw, g, node)
            if isinstance(f, Meth):
                return f.f(self, args, kw, g)
            if isinstance(f, ExtV):
                return self.ext(f.name, args, kw, g, node)
            if isinstance(f, Inst):
                m = self.prog.find_method(f.cls.qual, '__call__')
                if m:
                    return self.call_func(self.bound(m, f), args, kw, g, node)
            self.broken(node, f"call of {type(f).__name__}")
        return self.lift(one, pc, f)

    def construct(self, cls: Class, args, kw, pc, node):
        h = self.domain.construct(self, cls, args, kw, pc)
        if h is not None:
            return h
        if cls.is_enum:
            self.broken(node, 'enum by value')
        o = Inst(cls)
        m = self.prog.find_method(cls.qual, '__init__')
        if m:
            self.call_func(self.bound(m, o), args, kw, pc, node)
            return o
        names: List[Tuple[str, Class]] = []
        for c in [cls] + [self.prog.classes[b] for b in self.prog._all_bases(cls) if b in self.prog.classes]:
            names = [(x, c) for x in c.ann_order if x not in [y for y, _ in names]] + names if c is not cls else [(x, c) for x in c.ann_order]
        for (x, c), v in zip(names, args):
            o.fields[x] = v
        for x, v in kw.items():
            o.fields[x] = v
        for x, c in names:
            if x not in o.fields:
                d = c.consts.get(x)
                if d is None:
                    self.broken(node, f"{cls.name}() without {x}")
                if isinstance(d, ast.Call) and self._deco(d.func) == 'field':
                    fac = next((k.value for k in d.keywords if k.arg == 'default_factory'), None)
                    dv = next((k.value for k in d.keywords if k.arg == 'default'), None)
                    fr = Frame(c.module, c, 1)
                    o.fields[x] = self.call(self.eval(fac, fr, pc), [], {}, pc, node) if fac is not None else self.eval(dv, fr, pc)
                else:
                    o.fields[x] = self.eval(d, Frame(c.module, c, 1), pc)
        m = self.prog.find_method(cls.qual, '__post_init__')
        if m:
            self.call_func(self.bound(m, o), [], {}, pc, node)
        return o

    def call_func(self, f: FuncV, args, kw, pc, node):
        if f.func is not None:
            if f.func.qual.startswith(self.ignore):
                return None
            r = self.domain.function(self, f, args, kw, pc)
            if r is not NotImplemented:
                return r
            self.inlined.add(f.func.qual)
        self.depth += 1
        if self.depth > 40:
            self.broken(node, 'recursion')
        fr = Frame(f.module, f.cls, pc, f.env)
        a = f.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        vals = ([f.self_] if f.self_ is not None else []) + list(args)
        for p, v in zip(ps, vals):
            fr.env[p] = v
        if len(vals) > len(ps):
            if not a.vararg:
                self.broken(node, 'too many arguments')
            fr.env[a.vararg.arg] = tuple(vals[len(ps):])
        elif a.vararg:
            fr.env[a.vararg.arg] = ()
        names = ps + [x.arg for x in a.kwonlyargs]
        extra = DObj()
        for k, v in kw.items():
            if k in names:
                fr.env[k] = v
            elif a.kwarg:
                self.dict_put(extra, k, v, 1)
            else:
                self.broken(node, f"unexpected argument {k}")
        if a.kwarg:
            fr.env[a.kwarg.arg] = extra
        dfr = f.env or Frame(f.module, f.cls, 1)
        for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            if p not in fr.env:
                fr.env[p] = self.eval(d, dfr, pc)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in fr.env and d is not None:
                fr.env[p.arg] = self.eval(d, dfr, pc)
        miss = [p for p in names if p not in fr.env]
        if miss:
            self.broken(node, f"argument {miss[0]} is missing")
        where = self.where
        self.where = f.module.rel
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr, pc)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in self._own(f.node)):
                fr.yields = LObj()
                self.block(f.node.body, fr, pc)
                return fr.yields
            live = self.block(f.node.body, fr, pc)
            rets = list(fr.rets)
            if live:
                rets.append((live, None))
            return self.join(rets)
        finally:
            self.where = where
            self.depth -= 1

    def _own(self, fn):
        st = list(fn.body)
        while st:
            x = st.pop()
            yield x
            if not isinstance(x, (ast.FunctionDef, ast.Lambda)):
                st.extend(ast.iter_child_nodes(x))

    def isinstance(self, v, c, node):
        if isinstance(c, tuple):
            return any(self.isinstance(v, x, node) for x in c)
        if isinstance(c, ClassV):
            return isinstance(v, Inst) and (v.cls is c.cls or c.cls.qual in self.prog._all_bases(v.cls))
        if isinstance(c, ExtV):
            m = dict(str=str, int=int, float=(float, int), bool=bool, tuple=tuple, list=LObj, dict=DObj, set=SObj)
            if c.name in m:
                return isinstance(v, m[c.name])
            if hasattr(v, 'klass'):
                return v.klass == c.name.split('.')[-1]
            return False
        self.broken(node, 'isinstance')

    def ext(self, name, args, kw, pc, node):
        r = self.domain.external(self, name, args, kw, pc)
        if r is not NotImplemented:
            return r
        base = name.split('.')[-1]
        if name in BUILTINS or name in ('functools.reduce', 'collections.defaultdict', 'math.floor', 'math.sqrt', 'math.ceil',
                                        'collections.OrderedDict', 'itertools.chain', 'copy.copy', 'typing.cast',
                                        'functools.partial', 'operator.add', 'operator.or_', 'itertools.product',
                                        'itertools.combinations', 'operator.iadd'):
            if any(isinstance(a, Union_) for a in args) and base not in ('list', 'tuple'):
                return self.lift(lambda g, *xs: self.builtin(base, list(xs), kw, g, node), pc, *args)
            return self.builtin(base, args, kw, pc, node)
        self.broken(node, f"call of {name}")

    def builtin(self, n, a, kw, pc, node):
        it = lambda x: self.iterate(x, pc, node)
        rel = lambda g: 1 if self.implies(pc, g) else g
        if n == 'len':
            x = a[0]
            if isinstance(x, (str, tuple)):
                return len(x)
            if isinstance(x, (LObj, DObj)):
                return self.count(x, pc)
            if isinstance(x, Inst):
                m = self.prog.find_method(x.cls.qual, '__len__')
                if m:
                    return self.call_func(self.bound(m, x), [], {}, pc, node)
            if hasattr(x, 'len'):
                return x.len(self, pc)
            self.broken(node, f"len of {type(x).__name__}")
        if n == 'range':
            if not all(isinstance(x, int) for x in a):
                self.broken(node, 'range of an open length')
            return LObj([(1, i) for i in range(*a)])
        if n in ('list', 'iter', 'copy', 'sorted') and n != 'sorted':
            if not a:
                return LObj()
            if n == 'iter':
                return a[0]
            if n == 'copy':
                x = a[0]
                if isinstance(x, LObj):
                    return self.seq([tuple(i) for i in x.items])
                if isinstance(x, DObj):
                    return self.container_method(x, 'copy', [], {}, pc, node)
                self.broken(node, 'copy')
            return self.seq([(rel(g), v) for g, v in it(a[0])])
        if n == 'tuple':
            if not a:
                return ()
            if isinstance(a[0], tuple):
                return a[0]
            xs = it(a[0])
            if all(self.implies(pc, g) for g, _ in xs):
                return tuple(v for _, v in xs)
            return self.seq([(rel(g), v) for g, v in xs])
        if n in ('dict', 'OrderedDict', 'defaultdict'):
            d = DObj()
            if n == 'defaultdict':
                d.factory = a[0] if a else None
                a = a[1:]
            if a:
                self.container_method(d, 'update', [a[0]], {}, pc, node)
            for k, v in kw.items():
                self.dict_put(d, k, v, 1)
            return d
        if n in ('set', 'frozenset'):
            s = SObj()
            if a:
                for g, v in it(a[0]):
                    self.dict_put(s, v, None, rel(g))
            return s
        if n == 'map':
            if len(a) == 2:
                return self.seq([(rel(g), self.call(a[0], [v], {}, g, node)) for g, v in it(a[1])])
            rows = list(zip(*[it(x) for x in a[1:]]))
            return self.seq([(rel(self.And(*[c for c, _ in r])), self.call(a[0], [v for _, v in r], {}, pc, node)) for r in rows])
        if n == 'filter':
            out = []
            for g, v in it(a[1]):
                c = self.truth(v if a[0] is None else self.call(a[0], [v], {}, g, node), g)
                if self.And(g, c):
                    out.append((rel(self.And(g, c)), v))
            return self.seq(out)
        if n == 'enumerate':
            start = a[1] if len(a) > 1 else kw.get('start', 0)
            xs = it(a[0])
            if all(self.implies(pc, g) for g, _ in xs):
                return self.seq([(1, (start + i, v)) for i, (g, v) in enumerate(xs)])
            # position of an element among those present
            out = []
            o = LObj(xs)
            for j, (g, v) in enumerate(xs):
                before = LObj(xs[:j])
                idx = self.count(before, g)
                idx = self.lift(lambda _, k: k + start, g, idx)
                out.append((g, (idx, v)))
            return self.seq(out)
        if n == 'zip':
            cols = [it(x) for x in a]
            if not all(self.implies(pc, g) for c in cols for g, _ in c):
                self.broken(node, 'zip of lists of open length')
            return self.seq([(1, tuple(v for _, v in r)) for r in zip(*cols)])
        if n in ('reversed',):
            return self.seq([(rel(g), v) for g, v in reversed(it(a[0]))])
        if n == 'sorted':
            xs = it(a[0])
            key = kw.get('key')
            ks = [(self.call(key, [v], {}, g, node) if key is not None else v) for g, v in xs]
            if ks and all(hasattr(k, 'rank') for k in ks):
                ks = [k.rank for k in ks]
            if all(isinstance(k, (int, float, str, tuple)) for k in ks):
                order = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(kw.get('reverse', False)))
                return self.seq([(rel(xs[i][0]), xs[i][1]) for i in order])
            self.broken(node, 'sort by an open key')
        if n == 'chain':
            return self.seq([(rel(g), v) for x in a for g, v in it(x)])
        if n == 'product':
            cols = [it(x) for x in a]
            out = [(pc, ())]
            for c in cols:
                out = [(self.And(g, h), t + (v,)) for g, t in out for h, v in c]
            return self.seq([(rel(g), t) for g, t in out if g])
        if n == 'combinations':
            xs = it(a[0])
            import itertools
            return self.seq([(rel(self.And(*[g for g, _ in c])), tuple(v for _, v in c)) for c in itertools.combinations(xs, a[1])])
        if n == 'reduce':
            xs = it(a[1])
            acc = a[2] if len(a) > 2 else None
            first = len(a) <= 2
            for g, v in xs:
                if first:
                    acc, first = v, False
                elif self.implies(pc, g):
                    acc = self.call(a[0], [acc, v], {}, g, node)
                else:
                    acc = self.merge(g, self.call(a[0], [acc, v], {}, g, node), acc)
            if first:
                self.raised.append((pc, 'reduce() of empty iterable'))
            return acc
        if n in ('min', 'max', 'sum'):
            xs = [v for _, v in (it(a[0]) if len(a) == 1 else [(pc, x) for x in a])]
            if all(isinstance(x, NUM) for x in xs):
                return {'min': min, 'max': max, 'sum': sum}[n](xs)
            if all(isinstance(x, (T,) + NUM) for x in xs):
                if n == 'sum':
                    r = xs[0]
                    for x in xs[1:]:
                        r = self.binop('Add', r, x, pc, node)
                    return r
                return T('call', n, tuple(x if isinstance(x, T) else const(x) for x in xs), ())
            if n == 'sum' and len(a) > 1:
                r = a[1]
                for _, x in it(a[0]):
                    r = self.binop('Add', r, x, pc, node)
                return r
            self.broken(node, n)
        if n in ('any', 'all'):
            r = 0 if n == 'any' else 1
            for g, v in it(a[0]):
                t = self.truth(v, g)
                r = self.Or(r, self.And(g, t)) if n == 'any' else self.And(r, self.Or(self.Not(g), t))
            return self.sb(r)
        if n == 'isinstance':
            return self.isinstance(a[0], a[1], node)
        if n == 'hasattr':
            x = a[0]
            if isinstance(x, Inst):
                return a[1] in x.fields or self.prog.find_method(x.cls.qual, a[1]) is not None
            if hasattr(x, 'has'):
                return x.has(a[1])
            return False
        if n == 'getattr':
            return self.getattr(a[0], a[1], pc, node)
        if n in ('str', 'repr'):
            if isinstance(a[0], (str, int, float, type(None))):
                return str(a[0]) if n == 'str' else repr(a[0])
            if isinstance(a[0], T):
                return a[0] if a[0].op in ('fstr', 'fmt') else T('fmt', '', a[0])
            return T('sym', 'text', getattr(node, 'lineno', 0))
        if n in ('int', 'float', 'abs', 'round', 'floor', 'ceil', 'sqrt', 'bool', 'pow'):
            if n == 'bool':
                return self.sb(self.truth(a[0], pc))
            if all(isinstance(x, NUM) for x in a):
                return {'int': int, 'float': float, 'abs': abs, 'round': round, 'floor': math.floor, 'ceil': math.ceil,
                        'sqrt': math.sqrt, 'pow': pow}[n](*a)
            if n == 'pow':
                return self.binop('Pow', a[0], a[1], pc, node)
            if isinstance(a[0], T):
                q = {'floor': 'math.floor', 'ceil': 'math.ceil', 'sqrt': 'math.sqrt'}.get(n, n)
                return a[0] if n == 'float' else T('call', q, tuple(x if isinstance(x, T) else const(x) for x in a), ())
            self.broken(node, f"{n} of {type(a[0]).__name__}")
        if n == 'next':
            xs = it(a[0])
            if xs and self.implies(pc, xs[0][0]):
                return xs[0][1]
            r = a[1] if len(a) > 1 else None
            for g, v in reversed(xs):
                r = self.merge(g, v, r)
            return r
        if n == 'partial':
            f, pa, pk = a[0], a[1:], dict(kw)
            return Meth(lambda I, x, k, p: I.call(f, list(pa) + x, {**pk, **k}, p, node), 'partial')
        if n == 'cast':
            return a[1]
        if n in ('add', 'or_'):
            return self.binop('Add' if n == 'add' else 'BitOr', a[0], a[1], pc, node)
        if n == 'print':
            return None
        if n == 'type':
            if isinstance(a[0], Inst):
                return ClassV(a[0].cls)
        if n in ('Exception', 'ValueError', 'KeyError', 'IndexError', 'RuntimeError', 'NotImplementedError', 'AssertionError',
                 'TypeError', 'AttributeError'):
            return ExtV(n)
        self.broken(node, f"builtin {n}")

    def container_method(self, o, name, a, kw, pc, node):
        rel = lambda g: 1 if self.implies(pc, g) else g
        if isinstance(o, str):
            if name in ('encode', 'decode'):
                return o
            if name == 'format':
                return self.str_format(o, a, kw, pc, node)
            if all(isinstance(x, (str, int)) for x in a):
                r = getattr(o, name)(*a)
                if r is not None:
                    return LObj([(1, x) for x in r]) if isinstance(r, list) else r
            if name == 'join':
                xs = self.iterate(a[0], pc, node)
                if all(isinstance(v, str) and self.implies(pc, g) for g, v in xs):
                    return o.join(v for _, v in xs)
                if all(isinstance(v, (str, T)) and self.implies(pc, g) for g, v in xs):
                    ps = []
                    for i, (_, v) in enumerate(xs):
                        ps += ([o] if i else []) + [v]
                    return text(ps)
                return T('sym', 'text', getattr(node, 'lineno', 0))
            self.broken(node, f"str.{name}")
        if isinstance(o, LObj):
            if name == 'append':
                o.items.append([pc, a[0]])
                return None
            if name == 'extend':
                o.items += [list(x) for x in self.iterate(a[0], pc, node)]
                return None
            if name == 'insert' and a[0] == 0:
                o.items.insert(0, [pc, a[1]])
                return None
            if name == 'copy':
                return self.seq([tuple(x) for x in o.items])
            if name == 'clear':
                for x in o.items:
                    x[0] = self.And(x[0], self.Not(pc))
                o.items = [x for x in o.items if x[0]]
                return None
            if name == 'pop':
                i = a[0] if a else -1
                ps = self.positions(o, i, pc)
                v = self.join([(c, x[1]) for c, x in ps])
                for c, x in ps:
                    x[0] = self.And(x[0], self.Not(c))
                o.items = [x for x in o.items if x[0]]
                return v
            if name == 'reverse' and pc == 1:
                o.items.reverse()
                return None
            if name == 'index' or name == 'count':
                self.broken(node, f"list.{name}")
        if isinstance(o, SObj):
            if name == 'add':
                self.dict_put(o, a[0], None, pc)
                return None
            if name in ('discard', 'remove'):
                it = o.items.get(self.hkey(a[0]))
                if it:
                    it[0] = self.And(it[0], self.Not(pc))
                return None
            if name in ('update', 'union'):
                t = o if name == 'update' else self.container_method(o, 'copy', [], {}, pc, node)
                for x in a:
                    for g, v in self.iterate(x, pc, node):
                        self.dict_put(t, v, None, rel(g))
                return None if name == 'update' else t
        if isinstance(o, DObj):
            if name == 'get':
                d = a[1] if len(a) > 1 else kw.get('default')
                def one(g, k):
                    it = o.items.get(self.hkey(k))
                    return d if it is None else self.merge(it[0], it[2], d)
                return self.lift(one, pc, a[0])
            if name in ('keys',):
                return self.seq([(rel(self.And(pc, c)), k) for c, k, v in o.items.values()])
            if name == 'values':
                return self.seq([(rel(self.And(pc, c)), v) for c, k, v in o.items.values()])
            if name == 'items':
                return self.seq([(rel(self.And(pc, c)), (k, v)) for c, k, v in o.items.values()])
            if name == 'setdefault':
                d = a[1] if len(a) > 1 else None
                def one(g, k):
                    it = o.items.get(self.hkey(k))
                    if it is None:
                        self.dict_put(o, k, d, g)
                    elif not self.implies(g, it[0]):
                        it[2] = self.merge(it[0], it[2], d)
                        it[0] = self.Or(it[0], g)
                    return o.items[self.hkey(k)][2]
                return self.lift(one, pc, a[0])
            if name == 'update':
                for x in a:
                    if isinstance(x, DObj):
                        for c, k, v in list(map(tuple, x.items.values())):
                            self.dict_put(o, k, v, rel(self.And(pc, c)))
                    else:
                        for g, kv in self.iterate(x, pc, node):
                            self.dict_put(o, self.getitem(kv, 0, g), self.getitem(kv, 1, g), rel(g))
                for k, v in kw.items():
                    self.dict_put(o, k, v, pc)
                return None
            if name == 'copy':
                r = type(o)() if isinstance(o, SObj) else DObj(o.factory)
                for h, x in o.items.items():
                    r.items[h] = list(x)
                return r
            if name == 'clear':
                for x in list(o.items.values()):
                    x[0] = self.And(x[0], self.Not(pc))
                return None
            if name == 'pop':
                it = o.items.get(self.hkey(a[0]))
                d = a[1] if len(a) > 1 else None
                if it is None:
                    return d
                v = self.merge(it[0], it[2], d)
                it[0] = self.And(it[0], self.Not(pc))
                return v
        self.broken(node, f"{type(o).__name__}.{name}")


def text(parts):
    """one text of strings and values: a str, or T('fstr', …)"""
    out = []
    for p in parts:
        if isinstance(p, T) and p.op == 'fstr':
            xs = [x.a[0] if x.op == 'const' else x for x in p.a]
        elif isinstance(p, T) and p.op == 'const':
            xs = [str(p.a[0])]
        else:
            xs = [p]
        for x in xs:
            if isinstance(x, str):
                if not x:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += x
                    continue
            out.append(x)
    if not out:
        return ''
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return T('fstr', *[const(x) if isinstance(x, str) else x for x in out])


class Unmodelled:
    """value of an attribute that the model does not have: it can be handed around and put into messages, not used"""

    def __init__(self, msg):
        self.msg = msg


class Domain:
    """what calls outside of the analysed package mean"""
    def construct(self, I, cls, args, kw, pc):
        return None

    def function(self, I, f, args, kw, pc):
        return NotImplemented

    def external(self, I, name, args, kw, pc):
        return NotImplemented
