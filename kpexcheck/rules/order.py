"""C47: nothing that ends up in a result is produced by iterating an unordered collection.

A dataflow over the syntax tree of every function: which expressions are unordered collections (sets, set algebra on
dict views, directory listings, completion-ordered executors), which sequences inherit an unordered iteration order
(list(s), comprehensions, dicts filled in such a loop), through variables, attributes, parameters and results of calls;
and every construct that observes the order."""
from __future__ import annotations
import ast
from typing import *

from ..core import check
from ..model import Func, Module


class V(NamedTuple):
    kind: Optional[str] = None       # 'S' unordered collection, 'U' sequence (or dict) in unordered order
    num: bool = False                # the elements hash by value, not by string or address: one order in all runs
    sub: Optional['V'] = None        # what the elements are

    @property
    def wild(self):
        return self.kind == 'U' or (self.kind == 'S' and not self.num)


NONE = V()


def vjoin(a: V, b: V) -> V:
    if a == b:
        return a
    k = 'S' if 'S' in (a.kind, b.kind) else 'U' if 'U' in (a.kind, b.kind) else None
    sub = a.sub if b.sub is None else b.sub if a.sub is None else vjoin(a.sub, b.sub)
    if a.kind == 'S' and b.kind == 'S':
        num = a.num and b.num
    elif 'U' in (a.kind, b.kind):
        num = False
    else:
        num = a.num if a.kind == 'S' else b.num
    if k == 'S' and 'U' in (a.kind, b.kind):
        k = 'U'
    return V(k, num, sub)


SANITIZE = {'set', 'frozenset', 'len', 'any', 'all', 'bool', 'isinstance', 'type', 'id'}
SEQ = {'list', 'tuple', 'iter', 'enumerate', 'reversed', 'zip', 'map', 'filter', 'chain', 'islice', 'combinations', 'permutations',
       'product', 'pairwise', 'cast', 'deque', 'OrderedDict', 'dict', 'defaultdict', 'Counter', 'accumulate', 'starmap',
       'from_iterable', 'array'}
SETOPS = {'union', 'intersection', 'difference', 'symmetric_difference', 'copy', '__or__', '__and__', '__sub__', '__xor__'}
LISTING = {'glob', 'rglob', 'iterdir', 'listdir', 'scandir', 'iglob', 'as_completed', 'imap_unordered', 'walk'}
LISTING_MOD = {'os', 'glob', 'futures', 'concurrent'}
UNSTABLE = {'uuid1', 'uuid4', 'getrandbits', 'randint', 'random', 'shuffle', 'choice', 'sample', 'urandom', 'token_hex', 'getpid'}
UNSTABLE_MOD = {'uuid', 'random', 'secrets', 'os', 'np', 'numpy'}
LOGS = {'info', 'warning', 'debug', 'error', 'subproc', 'rule', 'print', 'log', 'exception', 'critical'}


def _name(n) -> str:
    return n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else ''


class Order:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.prog
        self.attrs: Dict[Tuple[str, str], V] = {}
        self.byname: Dict[str, V] = {}
        self.rets: Dict[str, V] = {}
        self.params: Dict[Tuple[str, str], V] = {}
        self.methods: Dict[str, List[Func]] = {}
        for f in self.p.funcs.values():
            self.methods.setdefault(f.name, []).append(f)
        self.called: Set[str] = set()
        self.reports: Dict[Tuple[str, int, str], Tuple[str, str]] = {}
        self.sources: Dict[Tuple[str, int], str] = {}
        self.changed = False

    # ---------------------------------------------------------------- types whose hash is the same in every run
    def num_ann(self, a, m: Module, depth=0) -> bool:
        if a is None or depth > 6:
            return False
        if isinstance(a, ast.Constant):
            if isinstance(a.value, str):
                try:
                    return self.num_ann(ast.parse(a.value, mode='eval').body, m, depth + 1)
                except SyntaxError:
                    return False
            return a.value is None or a.value is Ellipsis
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            return self.num_ann(a.left, m, depth + 1) and self.num_ann(a.right, m, depth + 1)
        if isinstance(a, ast.Subscript):
            if _name(a.value) in ('Tuple', 'tuple', 'Optional', 'Union', 'FrozenSet', 'frozenset'):
                xs = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
                return all(self.num_ann(x, m, depth + 1) for x in xs)
            return False
        q = _name(a)
        if q in ('int', 'float', 'bool', 'complex'):
            return True
        full = self.p.resolve_expr_name(a, m)
        c = self.p.classes.get(full or '')
        if c is not None:
            if c.is_enum:
                return any(b.split('.')[-1] in ('IntEnum', 'IntFlag') for b in c.bases)
            named = any(b.split('.')[-1] in ('NamedTuple',) for b in c.bases)
            if not (c.is_dataclass or named) or not c.ann:
                return False
            if '__hash__' in c.methods:
                return False
            return all(self.num_ann(x, c.module, depth + 1) for x in c.ann.values())
        if full:
            mod, _, last = full.rpartition('.')
            mm = self.p.modules.get(mod)
            if mm is not None and last in mm.consts:
                return self.num_ann(mm.consts[last], mm, depth + 1)
        return False

    def ann(self, a, m: Module) -> V:
        """the collection kinds of an annotation"""
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try:
                return self.ann(ast.parse(a.value, mode='eval').body, m)
            except SyntaxError:
                return NONE
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            return vjoin(self.ann(a.left, m), self.ann(a.right, m))
        if isinstance(a, ast.Subscript):
            h = _name(a.value)
            xs = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if h in ('Set', 'set', 'FrozenSet', 'frozenset', 'AbstractSet', 'MutableSet'):
                return V('S', self.num_ann(xs[0], m))
            if h in ('Optional', 'Union', 'ClassVar', 'Final'):
                r = NONE
                for x in xs:
                    r = vjoin(r, self.ann(x, m))
                return r
            subs = [self.ann(x, m) for x in xs]
            s = next((s for s in subs if s != NONE), None)
            return V(None, False, s) if s else NONE
        if _name(a) in ('Set', 'set', 'FrozenSet', 'frozenset'):
            return V('S', False)
        return NONE

    # ---------------------------------------------------------------- tables
    def put(self, table, key, v: V):
        if v == NONE:
            return
        old = table.get(key, NONE)
        new = vjoin(old, v) if old != NONE else v
        if new != old:
            table[key] = new
            self.changed = True

    def run(self):
        for c in self.p.classes.values():
            for n, a in c.ann.items():
                self.put_attr(c.qual, n, self.ann(a, c.module))
        for _ in range(8):
            self.changed = False
            self.reports.clear()
            for f in self.p.funcs.values():
                if isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    Walk(self, f).run()
            for m in self.p.modules.values():
                Walk(self, None, m).run()
            if not self.changed:
                return

    def put_attr(self, cls, name, v):
        self.put(self.attrs, (cls, name), v)
        self.put(self.byname, name, v)


class Walk:
    def __init__(self, o: Order, f: Optional[Func], m: Optional[Module] = None):
        self.o, self.f = o, f
        self.m = f.module if f else m
        self.qual = f.qual if f else m.name
        self.env: Dict[str, V] = {}
        self.quiet = 0
        self.loops: List[ast.AST] = []
        body = f.node.body if f else [s for s in m.tree.body if not isinstance(s, (ast.ClassDef, ast.FunctionDef, ast.Import, ast.ImportFrom))]
        self.body = body
        self.all = [n for s in body for n in ast.walk(s)]
        self.numeric: Set[str] = set()
        if f:
            a = f.node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []):
                self.env[x.arg] = vjoin(o.ann(x.annotation, self.m) if x.annotation is not None else NONE, o.params.get((f.qual, x.arg), NONE))
                if x.annotation is not None and o.num_ann(x.annotation, self.m):
                    self.numeric.add(x.arg)
        for n in self.all:
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and o.num_ann(n.annotation, self.m):
                self.numeric.add(n.target.id)
        for _ in range(3):
            for n in self.all:
                if isinstance(n, (ast.For, ast.comprehension)):
                    it, t = n.iter, n.target
                    if isinstance(it, ast.Call) and _name(it.func) == 'range' and isinstance(t, ast.Name):
                        self.numeric.add(t.id)
                    elif isinstance(it, ast.Call) and _name(it.func) == 'enumerate' and isinstance(t, ast.Tuple) and isinstance(t.elts[0], ast.Name):
                        self.numeric.add(t.elts[0].id)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and self.is_num(n.value):
                    name = n.targets[0].id
                    if all(self.is_num(x.value) for x in self.all if isinstance(x, ast.Assign) and any(_name(t) == name for t in x.targets)):
                        self.numeric.add(name)

    def is_num(self, e) -> bool:
        if isinstance(e, ast.Constant):
            return isinstance(e.value, (int, float, bool)) or e.value is None
        if isinstance(e, ast.Name):
            return e.id in self.numeric
        if isinstance(e, ast.Tuple):
            return all(self.is_num(x) for x in e.elts)
        if isinstance(e, ast.UnaryOp):
            return isinstance(e.op, ast.Not) or self.is_num(e.operand)
        if isinstance(e, ast.BinOp):
            return self.is_num(e.left) and self.is_num(e.right)
        if isinstance(e, ast.Compare):
            return True
        if isinstance(e, ast.Call):
            if _name(e.func) in ('int', 'float', 'len', 'round', 'abs', 'ord', 'bool', 'floor', 'ceil', 'sqrt'):
                return True
            full = self.o.p.resolve_expr_name(e.func, self.m)
            c = self.o.p.classes.get(full or '')
            if c is not None:
                return self.o.num_ann(e.func, self.m)
            f = self.o.p.funcs.get(full or '')
            return bool(f is not None and self.o.num_ann(f.node.returns, f.module))
        if isinstance(e, ast.Attribute):
            cands = {id(a): (a, c) for c in self.o.p.classes.values() for n, a in c.ann.items() if n == e.attr}
            return bool(cands) and all(self.o.num_ann(a, c.module) for a, c in cands.values())
        return False

    def run(self):
        self.stmts(self.body)

    # ---------------------------------------------------------------- reports
    def sink(self, node, what):
        if not self.quiet:
            self.o.reports[(self.qual, getattr(node, 'lineno', 0), what)] = (f"{self.m.rel}:{getattr(node, 'lineno', 0)}", what)

    def src(self, node, what):
        self.o.sources[(self.qual, node.lineno)] = what

    # ---------------------------------------------------------------- statements
    def stmts(self, body):
        for s in body:
            self.stmt(s)

    def fork(self, bodies):
        e0 = dict(self.env)
        out = []
        for b in bodies:
            self.env = dict(e0)
            self.stmts(b)
            if not (b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))):
                out.append(self.env)
        if not out:
            out = [e0]
        r = dict(out[0])
        for e in out[1:]:
            for k in set(r) | set(e):
                r[k] = vjoin(r.get(k, NONE), e.get(k, NONE))
        self.env = r

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            if isinstance(s, ast.FunctionDef) and f"{self.qual}.{s.name}" not in self.o.p.funcs:
                env, self.env = self.env, dict(self.env)       # a nested function sees the variables around it
                for x in s.args.args:
                    self.env[x.arg] = NONE
                loops, self.loops = self.loops, []
                self.nested = getattr(self, 'nested', 0) + 1
                self.stmts(s.body)
                self.nested -= 1
                self.loops = loops
                self.env = env
            return
        if isinstance(s, ast.Assign):
            v = self.ev(s.value)
            for t in s.targets:
                self.assign(t, v, s.value)
        elif isinstance(s, ast.AnnAssign):
            v = self.o.ann(s.annotation, self.m)
            if s.value is not None:
                x = self.ev(s.value)
                v = V(x.kind, x.num or v.num, x.sub or v.sub) if v.kind == x.kind else x if x != NONE else V(None, False, v.sub)
            self.assign(s.target, v, s.value)
        elif isinstance(s, ast.AugAssign):
            v = self.ev(s.value)
            t = self.ev(s.target) if isinstance(s.target, (ast.Name, ast.Attribute)) else NONE
            if isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)) and (t.kind == 'S' or v.kind == 'S'):
                return self.assign(s.target, V('S', t.num and v.num), None)
            if v.wild:
                self.assign(s.target, V('U'), None)
            if self.loops and not self.is_int_const(s.value) and t.kind is None:
                if isinstance(s.op, ast.Add) and isinstance(s.value, (ast.List, ast.ListComp)) or isinstance(s.value, (ast.List, ast.ListComp)):
                    self.assign(s.target, V('U'), None)
                else:
                    self.sink(s, f"'{ast.unparse(s.target)}' is accumulated in the order of {self.loops[-1]}")
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            it = self.ev(s.iter)
            wild = it.wild
            self.assign(s.target, it.sub or NONE, None)
            if wild:
                self.loops.append(f"'{ast.unparse(s.iter)}'")
                inside = {n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
                inside |= {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
                self.live_after(s, inside)
            e0 = dict(self.env)
            for _ in range(2):
                self.stmts(s.body)
                for k in set(e0) | set(self.env):
                    self.env[k] = vjoin(e0.get(k, NONE), self.env.get(k, NONE))
            if wild:
                self.loops.pop()
            self.stmts(s.orelse)
        elif isinstance(s, ast.While):
            e0 = dict(self.env)
            for _ in range(2):
                self.ev(s.test)
                self.stmts(s.body)
                for k in set(e0) | set(self.env):
                    self.env[k] = vjoin(e0.get(k, NONE), self.env.get(k, NONE))
            self.stmts(s.orelse)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            self.fork([s.body, s.orelse])
        elif isinstance(s, ast.Match):
            self.ev(s.subject)
            self.fork([c.body for c in s.cases] + [[]])
        elif isinstance(s, ast.Try):
            self.stmts(s.body)
            self.fork([[]] + [h.body for h in s.handlers])
            self.stmts(s.orelse)
            self.stmts(s.finalbody)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.ev(i.context_expr)
            self.stmts(s.body)
        elif isinstance(s, ast.Return):
            v = self.ev(s.value) if s.value is not None else NONE
            if self.loops and s.value is not None and not isinstance(s.value, ast.Constant):
                self.sink(s, f"the result depends on which element of {self.loops[-1]} comes first")
            if self.f and not getattr(self, 'nested', 0):
                self.o.put(self.o.rets, self.f.qual, v)
        elif isinstance(s, ast.Raise):
            self.quiet += 1
            if s.exc is not None:
                self.ev(s.exc)
            self.quiet -= 1
        elif isinstance(s, ast.Assert):
            self.ev(s.test)
        elif isinstance(s, ast.Expr):
            self.ev(s.value, stmt=True)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.ev(t.value)

    def live_after(self, loop, names):
        if not self.f:
            return
        end = loop.end_lineno
        for name in names:
            if name == '_':
                continue
            loads = sorted((n.lineno, n.col_offset) for n in self.all if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load) and n.lineno > end)
            if not loads:
                continue
            stores = sorted((n.lineno, n.col_offset) for n in self.all if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and n.lineno > end)
            if stores and stores[0][0] <= loads[0][0]:
                continue
            vals = [n.value for b in loop.body for n in ast.walk(b) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets)]
            if vals and all(isinstance(v, ast.Constant) for v in vals) and len({repr(v.value) for v in vals}) == 1:
                continue
            aug = [n for b in loop.body for n in ast.walk(b) if isinstance(n, ast.AugAssign) and _name(n.target) == name]
            if aug and not vals:
                continue                              # judged as accumulation
            self.sink(loop, f"'{name}' keeps the value for whichever element of '{ast.unparse(loop.iter)}' comes last")

    def is_int_const(self, e):
        return isinstance(e, ast.Constant) and isinstance(e.value, int) or (isinstance(e, ast.Call) and _name(e.func) == 'len')

    def assign(self, t, v: V, value):
        if isinstance(t, ast.Name):
            if v.kind == 'S' and not v.num:
                v = V('S', self.only_num(t), v.sub)
            self.env[t.id] = v
            if not self.f:
                self.o.put(self.o.attrs, (self.m.name, t.id), v)
        elif isinstance(t, ast.Attribute):
            if v.kind == 'S' and not v.num:
                v = V('S', self.only_num(t), v.sub)
            cls = self.f.cls.qual if self.f and self.f.cls is not None and _name(t.value) == 'self' else '?'
            self.o.put_attr(cls, t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if v.wild:
                self.sink(t, f"'{ast.unparse(t)}' is unpacked from a collection without order")
            parts = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                self.assign(x, self.ev(parts[i]) if parts else (v.sub or NONE), parts[i] if parts else None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, None)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            if self.loops and b.kind != 'S':
                self.taint(t.value, V('U', False, b.sub))
            elif v != NONE:
                self.taint(t.value, V(b.kind, b.num, v if b.sub is None else vjoin(b.sub, v)))

    def only_num(self, target) -> bool:
        """every element that is ever added to this set hashes by value"""
        want = ast.unparse(target)
        scope = self.all
        if isinstance(target, ast.Attribute):
            scope = [n for m in self.o.p.modules.values() for n in ast.walk(m.tree)]
            match = lambda e: isinstance(e, ast.Attribute) and e.attr == target.attr
        else:
            match = lambda e: ast.unparse(e) == want
        ok, any_ = True, False
        for n in scope:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('add', 'update') and match(n.func.value):
                any_ = True
                if n.func.attr == 'update' or not all(self.is_num(a) for a in n.args):
                    ok = False
            elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(match(x) for x in ts):
                    v = n.value
                    if isinstance(v, ast.Call) and _name(v.func) in ('set', 'frozenset') and not v.args:
                        continue
                    if isinstance(v, (ast.Set,)) and all(self.is_num(x) for x in v.elts):
                        any_ = True
                        continue
                    if isinstance(v, ast.SetComp) and self.is_num(v.elt):
                        any_ = True
                        continue
                    ok = False
        return ok and any_

    def taint(self, target, v: V):
        if isinstance(target, ast.Name):
            self.env[target.id] = vjoin(self.env.get(target.id, NONE), v)
        elif isinstance(target, ast.Attribute):
            cls = self.f.cls.qual if self.f and self.f.cls is not None and _name(target.value) == 'self' else '?'
            self.o.put_attr(cls, target.attr, v)
        elif isinstance(target, ast.Subscript):
            b = self.ev(target.value)
            self.taint(target.value, V(b.kind, b.num, v if b.sub is None else vjoin(b.sub, v)))

    # ---------------------------------------------------------------- expressions
    def ev(self, n, stmt=False) -> V:
        if n is None:
            return NONE
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m:
            return m(n, stmt) if type(n).__name__ == 'Call' else m(n)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c)
        return NONE

    def x_Name(self, n):
        if n.id in self.env:
            return self.env[n.id]
        return self.o.attrs.get((self.m.name, n.id), NONE)

    def x_Attribute(self, n):
        self.ev(n.value)
        if self.f and self.f.cls is not None and _name(n.value) == 'self':
            r = self.o.attrs.get((self.f.cls.qual, n.attr))
            if r is not None:
                return r
            f = self.o.p.find_method(self.f.cls.qual, n.attr)
            if f is not None and f.kind == 'property':
                return self.o.rets.get(f.qual, NONE)
            return self.o.attrs.get(('?', n.attr), NONE)
        r = self.o.byname.get(n.attr, NONE)
        for f in self.o.methods.get(n.attr, []):
            if f.kind == 'property':
                r = vjoin(r, self.o.rets.get(f.qual, NONE))
        return r

    def x_Set(self, n):
        for e in n.elts:
            self.ev(e)
        if all(self.is_num(e) for e in n.elts):
            return V('S', True)
        if len(n.elts) == 1 and not isinstance(n.elts[0], ast.Starred):
            return V('S', False)
        self.src(n, ast.unparse(n)[:80])
        return V('S')

    def gens(self, n):
        wild, ids = False, []
        for g in n.generators:
            it = self.ev(g.iter)
            if it.wild:
                wild = True
                ids.append(ast.unparse(g.iter))
            self.assign(g.target, it.sub or NONE, None)
            for c in g.ifs:
                self.ev(c)
        return wild

    def x_SetComp(self, n):
        e0 = dict(self.env)
        self.gens(n)
        self.ev(n.elt)
        num = self.is_num(n.elt)
        self.env = e0
        self.src(n, ast.unparse(n)[:80])
        return V('S', num)

    def x_ListComp(self, n):
        e0 = dict(self.env)
        w = self.gens(n)
        s = self.ev(n.elt)
        self.env = e0
        return V('U' if w else None, False, s if s != NONE else None)

    x_GeneratorExp = x_ListComp

    def x_DictComp(self, n):
        e0 = dict(self.env)
        w = self.gens(n)
        self.ev(n.key)
        s = self.ev(n.value)
        self.env = e0
        return V('U' if w else None, False, s if s != NONE else None)

    def x_BinOp(self, n):
        a, b = self.ev(n.left), self.ev(n.right)
        if isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.BitXor, ast.Sub)):
            if a.kind == 'S' or b.kind == 'S' or self.view(n.left) or self.view(n.right):
                self.src(n, ast.unparse(n)[:80])
                num = a.num if isinstance(n.op, (ast.Sub, ast.BitAnd)) and a.kind == 'S' else a.num and b.num
                return V('S', num)
        if isinstance(n.op, ast.Add) and (a.wild or b.wild):
            return V('U')
        if isinstance(n.op, ast.Mod) and (b.wild or (isinstance(n.right, ast.Tuple) and any(self.ev(x).wild for x in n.right.elts))):
            self.sink(n, f"'{ast.unparse(n)[:80]}' formats a collection without order")
        return NONE

    def view(self, e):
        return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('keys', 'items') and not e.args

    def x_BoolOp(self, n):
        r = NONE
        for v in n.values:
            r = vjoin(r, self.ev(v))
        return r

    def x_IfExp(self, n):
        self.ev(n.test)
        return vjoin(self.ev(n.body), self.ev(n.orelse))

    def x_NamedExpr(self, n):
        v = self.ev(n.value)
        self.assign(n.target, v, n.value)
        return v

    def x_Lambda(self, n):
        self.ev(n.body)
        return NONE

    def x_Starred(self, n):
        return self.ev(n.value)

    def lit(self, n):
        w, s = False, None
        for e in n.elts:
            v = self.ev(e)
            if isinstance(e, ast.Starred):
                w |= v.wild
            elif v != NONE:
                s = v if s is None else vjoin(s, v)
        return V('U' if w else None, False, s)

    x_List = x_Tuple = lit

    def x_Dict(self, n):
        w, s = False, None
        for k, e in zip(n.keys, n.values):
            v = self.ev(e)
            if k is None:
                w |= v.wild
            else:
                self.ev(k)
                if v != NONE:
                    s = v if s is None else vjoin(s, v)
        return V('U' if w else None, False, s)

    def x_JoinedStr(self, n):
        for e in n.values:
            if isinstance(e, ast.FormattedValue) and self.ev(e.value).wild:
                self.sink(n, f"'{ast.unparse(e.value)}', a collection without order, is formatted")
        return NONE

    def x_Subscript(self, n):
        b = self.ev(n.value)
        self.ev(n.slice)
        if b.kind == 'U' and (isinstance(n.slice, (ast.Slice, ast.UnaryOp)) or (isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int))):
            self.sink(n, f"'{ast.unparse(n)}' selects by position from a sequence in no defined order")
        return b.sub or NONE

    def x_Compare(self, n):
        vs = [self.ev(x) for x in [n.left] + n.comparators]
        if any(isinstance(o, (ast.Eq, ast.NotEq)) for o in n.ops) and any(v.kind == 'U' for v in vs) and not any(isinstance(x, (ast.Constant,)) for x in n.comparators):
            self.sink(n, f"'{ast.unparse(n)[:80]}' compares a sequence in no defined order")
        return NONE

    def x_Yield(self, n):
        v = self.ev(n.value)
        if self.f:
            self.o.put(self.o.rets, self.f.qual, V('U' if self.loops else None, False, v if v != NONE else None))
        return NONE

    def x_YieldFrom(self, n):
        v = self.ev(n.value)
        if self.f:
            self.o.put(self.o.rets, self.f.qual, V('U' if self.loops or v.wild else None, False, v.sub))
        return NONE

    def injective(self, key) -> bool:
        """the sort key tells any two elements apart"""
        if key is None:
            return True
        if isinstance(key, ast.Name):
            return key.id in ('str', 'repr')
        if isinstance(key, ast.Lambda) and len(key.args.args) == 1:
            x = key.args.args[0].arg

            def inj(e):
                return (isinstance(e, ast.Name) and e.id == x) or (isinstance(e, (ast.Tuple, ast.List)) and any(inj(y) for y in e.elts)) or \
                    (isinstance(e, ast.Call) and _name(e.func) in ('str', 'repr', 'tuple') and len(e.args) == 1 and inj(e.args[0]))
            return inj(key.body)
        return False

    def x_Call(self, n, stmt=False):
        name = _name(n.func)
        is_attr = isinstance(n.func, ast.Attribute)
        base = ast.unparse(n.func.value) if is_attr else ''
        recv = self.ev(n.func.value) if is_attr else NONE
        kws = {k.arg: k.value for k in n.keywords}
        log = name in LOGS and not is_attr or (is_attr and base in ('log', 'logging', 'logger', 'console') and name in LOGS)
        self.quiet += log
        args = [self.ev(a) for a in n.args]
        kwv = {k: self.ev(v) for k, v in kws.items()}
        self.quiet -= log
        if log:
            return NONE
        wild = [a for a, v in zip(n.args, args) if v.wild] + [k for k, v in zip(kws.values(), kwv.values()) if v.wild]
        a0 = args[0] if args else NONE
        full = self.o.p.resolve_expr_name(n.func, self.m) if not (is_attr and base.split('.')[0] in self.env) else None
        # ---- sources
        if name in ('set', 'frozenset') and not is_attr:
            self.src(n, ast.unparse(n)[:80])
            num = a0.kind == 'S' and a0.num
            if not n.args:
                num = False
            elif isinstance(n.args[0], (ast.List, ast.Tuple)) and all(self.is_num(e) for e in n.args[0].elts):
                num = True
            elif isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and self.is_num(n.args[0].elt):
                num = True
            elif isinstance(n.args[0], ast.Call) and _name(n.args[0].func) == 'range':
                num = True
            return V('S', num)
        if name in LISTING and (is_attr and (name in ('glob', 'rglob', 'iterdir', 'as_completed', 'imap_unordered') or base.split('.')[-1] in LISTING_MOD) or
                                (not is_attr and (full or '').split('.')[0] in LISTING_MOD)):
            self.src(n, ast.unparse(n)[:80])
            return V('U')
        if name in ('hash', 'id') and not is_attr and name not in self.env:
            fn = self.f.name if self.f else ''
            if fn != '__hash__' and not stmt:
                self.sink(n, f"'{ast.unparse(n)}' differs from run to run")
            return NONE
        if name in UNSTABLE and (is_attr and base.split('.')[-1] in UNSTABLE_MOD or (not is_attr and (full or '').split('.')[0] in UNSTABLE_MOD)):
            self.sink(n, f"'{ast.unparse(n)[:60]}' differs from run to run")
            return NONE
        # ---- consumers
        if name == 'sorted' and not is_attr:
            if a0.wild and not self.injective(kws.get('key')):
                self.sink(n, f"'{ast.unparse(n)[:100]}': elements with equal keys keep the order of an unordered collection")
            return V(None, False, a0.sub)
        if name in ('min', 'max') and not is_attr:
            if a0.wild and len(args) == 1 and not self.injective(kws.get('key')):
                self.sink(n, f"'{ast.unparse(n)[:100]}': among equal keys, whichever comes first is chosen")
            return NONE
        if name == 'sum' and not is_attr:
            if a0.wild:
                g = n.args[0]
                if not (isinstance(g, (ast.GeneratorExp, ast.ListComp)) and self.is_int_const(g.elt)):
                    self.sink(n, f"'{ast.unparse(n)[:100]}' adds up in no defined order")
            return NONE
        if not is_attr and name in SANITIZE:
            return NONE
        if name in SEQ and not is_attr or (is_attr and name in SEQ and base in ('itertools', 'collections', 'chain', 'itertools.chain', 'typing')):
            sub = next((v.sub for v in args if v.sub is not None), None)
            if name in ('defaultdict',) and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == 'set':
                return V(None, False, V('S'))
            if name == 'enumerate' and sub is not None:
                sub = NONE
            if name in ('Counter',) and wild:
                return V('U')
            return V('U' if wild else None, False, sub)
        if name == 'next' and not is_attr:
            if a0.wild:
                self.sink(n, f"'{ast.unparse(n)[:100]}' takes whichever element comes first")
            return NONE
        if name in ('str', 'repr', 'format') and not is_attr:
            if wild:
                self.sink(n, f"'{ast.unparse(n)[:100]}' formats a collection without order")
            return NONE
        if is_attr:
            if name == 'join':
                if a0.wild:
                    self.sink(n, f"'{ast.unparse(n)[:100]}' joins in no defined order")
                return NONE
            if name == 'fromkeys':
                return V('U' if a0.wild else None)
            if recv.kind == 'S' and name in SETOPS:
                return V('S', recv.num and (name in ('difference', 'intersection', 'copy') or all(a.num for a in args)))
            if name == 'pop':
                if recv.kind == 'S' and not recv.num and not stmt:
                    self.sink(n, f"'{ast.unparse(n)}' takes an arbitrary element")
                elif recv.kind == 'U' and (not n.args or self.is_int_const(n.args[0])) and not stmt:
                    self.sink(n, f"'{ast.unparse(n)}' takes an element by position from a sequence in no defined order")
                return recv.sub or NONE
            if name == 'popitem' and recv.wild:
                self.sink(n, f"'{ast.unparse(n)}' takes an arbitrary element")
                return NONE
            if name == 'sort':
                if recv.wild and not self.injective(kws.get('key')):
                    self.sink(n, f"'{ast.unparse(n)[:100]}': elements with equal keys keep the order of an unordered collection")
                if isinstance(n.func.value, ast.Name):
                    self.env[n.func.value.id] = V(None, False, recv.sub)
                return NONE
            if name in ('keys', 'values', 'items', 'copy', '__iter__', 'most_common'):
                return V('U' if recv.wild else None, False, recv.sub)
            if name in ('get', 'setdefault', '__getitem__') and recv.sub is not None:
                return recv.sub
            if name in ('add', 'discard', 'remove', 'update', 'difference_update', 'intersection_update', 'symmetric_difference_update',
                        'clear', 'issubset', 'issuperset', 'isdisjoint', '__contains__', 'index', 'count') and (recv.kind is not None or not wild):
                if recv.kind == 'S' or not self.loops:
                    return NONE
            if name in ('append', 'extend', 'insert', 'appendleft', 'extendleft', 'setdefault', 'update'):
                if self.loops or wild and name in ('extend', 'update', 'extendleft'):
                    self.taint(n.func.value, V('U', False, recv.sub))
                elif name in ('append',) and a0 != NONE:
                    self.taint(n.func.value, V(recv.kind, recv.num, a0 if recv.sub is None else vjoin(recv.sub, a0)))
                return NONE
        # ---- calls into the program
        targets = []
        if full and full in self.o.p.funcs:
            targets = [self.o.p.funcs[full]]
        elif full and full in self.o.p.classes:
            return self.construct(full, n, args, kwv)
        elif is_attr:
            if self.f and self.f.cls is not None and base in ('self', 'cls'):
                f = self.o.p.find_method(self.f.cls.qual, name)
                targets = [f] if f is not None else []
            if not targets:
                targets = self.o.methods.get(name, [])
        r = NONE
        for f in targets:
            self.o.called.add(f.qual)
            ps = [x.arg for x in f.node.args.posonlyargs + f.node.args.args] if hasattr(f.node, 'args') else []
            if ps and ps[0] in ('self', 'cls'):
                ps = ps[1:]
            for p, v in zip(ps, args):
                self.o.put(self.o.params, (f.qual, p), v)
            for k, v in kwv.items():
                if k:
                    self.o.put(self.o.params, (f.qual, k), v)
            r = vjoin(r, self.o.rets.get(f.qual, NONE))
        if not targets:
            if wild and not (is_attr and recv.kind == 'S'):
                self.sink(n, f"'{ast.unparse(wild[0])[:60]}', a collection without order, is passed to {ast.unparse(n.func)[:60]}()")
        if self.loops and stmt and not log and not (is_attr and name in ('remove', 'discard', 'pop', 'close')):
            self.sink(n, f"{ast.unparse(n.func)[:60]}() is called in the order of {self.loops[-1]}")
        return r

    def construct(self, qual, n, args, kwv):
        c = self.o.p.classes[qual]
        init = self.o.p.find_method(qual, '__init__')
        if init is not None:
            ps = [x.arg for x in init.node.args.args][1:]
            for p, v in list(zip(ps, args)) + [(k, v) for k, v in kwv.items() if k]:
                self.o.put(self.o.params, (init.qual, p), v)
        else:
            for p, v in list(zip(c.ann_order, args)) + [(k, v) for k, v in kwv.items() if k]:
                self.o.put_attr(qual, p, v)
        return NONE


@check('C47', 'unordered-iteration dataflow over the syntax tree of all functions (collection kinds through variables, attributes, parameters and results)',
       'Orders that KLayout and Magic produce are taken as deterministic; ties of floating point sums in dict order count as ordered, as dicts keep insertion order.')
def c47(ctx):
    """Every function of the program: no construct observes the iteration order of an unordered collection whose elements hash by string or address."""
    o = Order(ctx)
    o.run()
    bad: Dict[str, List[Tuple[str, str]]] = {}
    for (q, _, _), (loc, what) in sorted(o.reports.items()):
        bad.setdefault(q, []).append((loc, what))
    # a public function that hands out a collection without order
    for q, v in sorted(o.rets.items()):
        f = o.p.funcs.get(q)
        if f is not None and v.kind == 'U' and q not in o.called and not f.name.startswith('_'):
            bad.setdefault(q, []).append((f.loc, 'returns a sequence in no defined order'))
    n = 0
    for q, f in sorted(ctx.prog.funcs.items()):
        if not isinstance(f.node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        n += 1
        ctx.analysed.add(q)
        if q not in bad:
            ctx.ob('order', True, q)
    for q, items in sorted(bad.items()):
        for loc, what in items:
            ctx.fail('order', q, what, loc)
    for (q, line), what in sorted(o.sources.items()):
        ctx.ob('source', True, f"{q}: {what}")
    ctx.need(n > 50, 'the functions of the program were not found')
