"""Rewrites of the syntax tree that do not change what the code does, so that the rules see fewer ways to write the same thing.

x = []; for v in it: [if c:] x.append(e)           →  x = [e for v in it if c]     (sets and dictionaries as well)
i = 0; while i < len(xs): … i += 1                 →  for i in range(len(xs)): …
for i in range(len(xs)): … xs[i] …                 →  for i, x in enumerate(xs): … x …
for i, x in enumerate(xs), i not used              →  for x in xs
for k in d: v = d[k]; …                            →  for k, v in d.items(): …
"""
from __future__ import annotations

import ast
import copy

SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def names(n, ctx=None):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def _empty(v):
    if isinstance(v, ast.List) and not v.elts:
        return 'append'
    if isinstance(v, ast.Dict) and not v.keys:
        return 'item'
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and not v.args and not v.keywords:
        return {'list': 'append', 'set': 'add', 'dict': 'item'}.get(v.func.id)
    return None


class _Inline(ast.NodeTransformer):
    def __init__(self, v, e):
        self.v, self.e, self.n = v, e, 0

    def visit_Name(self, n):
        if n.id == self.v:
            self.n += 1
            return self.e
        return n


def _skip(b, gens, temps):
    """the statements of a loop body after leading conditions that end the turn and values with a name that is used once"""
    b = list(b)
    while len(b) > 1:
        s = b[0]
        if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue):
            gens[-1].ifs.append(s.test.operand if isinstance(s.test, ast.UnaryOp) and isinstance(s.test.op, ast.Not) else
                                ast.copy_location(ast.UnaryOp(ast.Not(), s.test), s.test))
            b = b[1:]
            continue
        t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) and s.value is not None else None
        if not isinstance(t, ast.Name) or any(isinstance(y, SCOPES + COMPS) for y in ast.walk(s.value)) and t.id in names(s.value):
            break
        uses = [y for r in b[1:] for y in ast.walk(r) if isinstance(y, ast.Name) and y.id == t.id]
        many = [y for r in b[1:] for z in ast.walk(r) if isinstance(z, (ast.For, ast.While) + COMPS + SCOPES) for y in ast.walk(z)
                if isinstance(y, ast.Name) and y.id == t.id]
        if len(uses) != 1 or not isinstance(uses[0].ctx, ast.Load) or many or t.id in names(s.value) or \
                names(s.value) & set().union(*(names(r, (ast.Store, ast.Del)) for r in b[1:])):
            break
        r = _Inline(t.id, s.value)
        b = [r.visit(copy.deepcopy(y)) for y in b[1:]]
        temps.add(t.id)
    return b


def _leaf(f, x, kind):
    """(generators, element, other variables) of a loop whose only statement fills x"""
    gens, s, temps = [], f, set()
    while True:
        if isinstance(s, ast.For) and not s.orelse:
            if not all(isinstance(t, (ast.Name, ast.Tuple, ast.List, ast.Load, ast.Store)) for t in ast.walk(s.target)):
                return None
            gens.append(ast.comprehension(s.target, s.iter, [], 0))
            b = _skip(s.body, gens, temps)
        elif isinstance(s, ast.If) and not s.orelse:
            gens[-1].ifs.append(s.test)
            b = _skip(s.body, gens, temps)
        else:
            break
        if len(b) != 1:
            return None
        s = b[0]
    if kind == 'item':
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) and \
                isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == x and not isinstance(s.targets[0].slice, ast.Slice):
            elt = (s.targets[0].slice, s.value)
        else:
            return None
    elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == kind and \
            isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == x and len(s.value.args) == 1 and not s.value.keywords and \
            not isinstance(s.value.args[0], ast.Starred):
        elt = (s.value.args[0],)
    else:
        return None
    for e in list(elt) + [y for g in gens for y in [g.iter] + g.ifs]:
        if x in names(e) or any(isinstance(y, (ast.Lambda, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for y in ast.walk(e)):
            return None
    return gens, elt, temps


def _reads(n, v, skip):
    """is the variable v read somewhere in n outside of skip, other than in a loop or a comprehension over it"""
    if n is skip:
        return False
    if isinstance(n, ast.For) and v in names(n.target):
        return _reads(n.iter, v, skip) or any(_reads(s, v, skip) for s in n.orelse)
    if isinstance(n, COMPS) and any(v in names(g.target) for g in n.generators):
        return _reads(n.generators[0].iter, v, skip)
    if isinstance(n, SCOPES) and v in [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]:
        return False
    if isinstance(n, ast.Name):
        return n.id == v and not isinstance(n.ctx, ast.Store)
    return any(_reads(c, v, skip) for c in ast.iter_child_nodes(n))


def _dump(n):
    return ast.dump(n).replace('Store()', 'Load()').replace('Del()', 'Load()')


def _chain(n):
    while isinstance(n, ast.Attribute):
        n = n.value
    return isinstance(n, ast.Name)


MUTATORS = ('append', 'add', 'remove', 'pop', 'insert', 'clear', 'extend', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'discard',
            '__setitem__', '__delitem__')


def _changed(xs, body):
    """may the sequence (a dotted name) be another one, or have other elements, after something in the body"""
    d = _dump(xs)
    subs = {_dump(x) for x in ast.walk(xs) if isinstance(x, (ast.Name, ast.Attribute))}
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Name, ast.Attribute)) and not isinstance(n.ctx, ast.Load) and _dump(n) in subs:
                return True
            if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and _dump(n.value) == d:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and _dump(n.func.value) == d:
                return True
    return False


def _of_len(n):
    """xs of len(xs)"""
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and not n.keywords and _chain(n.args[0]):
        return n.args[0]
    return None


def _call_of(n, f, k=1):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f and len(n.args) == k and not n.keywords


def _own_continues(body):
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While) + SCOPES):
            if _own_continues(getattr(s, 'orelse', None) or []):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if _own_continues(getattr(s, f, None) or []):
                return True
        for h in getattr(s, 'handlers', None) or []:
            if _own_continues(h.body):
                return True
        for c in getattr(s, 'cases', None) or []:
            if _own_continues(c.body):
                return True
    return False


def _while(body, j, fn):
    """body[j] is a while loop over the positions of a sequence: the for loop, and the statement that sets its index"""
    w = body[j]
    t = w.test
    if w.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    a, op, b = t.left, t.ops[0], t.comparators[0]
    if isinstance(a, ast.Name) and isinstance(op, (ast.Lt, ast.NotEq)):
        i, xs = a.id, _of_len(b)
    elif isinstance(b, ast.Name) and isinstance(op, (ast.Gt, ast.NotEq)):
        i, xs = b.id, _of_len(a)
    else:
        return None
    if xs is None or _changed(xs, w.body):
        return None
    inc = None
    for k, s in enumerate(w.body):
        if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == i and \
                isinstance(s.value, ast.Constant) and s.value.value == 1 or \
                isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i and \
                isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) and isinstance(s.value.left, ast.Name) and s.value.left.id == i and \
                isinstance(s.value.right, ast.Constant) and s.value.right.value == 1:
            if inc is not None:
                return None
            inc = k
        elif i in names(s, (ast.Store, ast.Del)):
            return None
    if inc is None or _own_continues(w.body[:inc]) or any(i in names(s) for s in w.body[inc + 1:]):
        return None
    start = None
    for k in range(j - 1, -1, -1):
        s = body[k]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i:
            start = k if isinstance(s.value, ast.Constant) and s.value.value == 0 else None
            break
        if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == i:
            start = k if isinstance(s.value, ast.Constant) and s.value.value == 0 else None
            break
        if i in names(s):
            return None
    if start is None or any(_reads(s, i, w) for s in fn.body):
        return None
    f = ast.For(ast.Name(i, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [xs], [])], []),
                w.body[:inc] + w.body[inc + 1:] or [ast.Pass()], [])
    return start, ast.fix_missing_locations(ast.copy_location(f, w))


class _Replace(ast.NodeTransformer):
    def __init__(self, d, v):
        self.d, self.v, self.n = d, v, 0

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load) and _dump(n) == self.d:
            self.n += 1
            return ast.copy_location(ast.Name(self.v, ast.Load()), n)
        return self.generic_visit(n)


def _for(f, fn, uid):
    t, it = f.target, f.iter
    # positions of a sequence
    if isinstance(t, ast.Name) and _call_of(it, 'range') and _of_len(it.args[0]) is not None:
        xs, i = _of_len(it.args[0]), t.id
        d = _dump(ast.Subscript(xs, ast.Name(i, ast.Load()), ast.Load()))
        if not _changed(xs, f.body) and not any(i in names(s, (ast.Store, ast.Del)) for s in f.body) and d in ''.join(map(_dump, f.body)):
            s = f.body[0]
            v = None
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and _dump(s.value) == d and \
                    all(isinstance(x, (ast.Name, ast.Tuple, ast.List, ast.Load, ast.Store)) for x in ast.walk(s.targets[0])) and not f.orelse:
                v = s.targets[0]
                f.body = f.body[1:] or [ast.copy_location(ast.Pass(), s)]
                known = isinstance(v, ast.Name) and not any(v.id in names(x, (ast.Store, ast.Del)) for x in f.body)
            if v is None or not known and d in ''.join(map(_dump, f.body)):
                if v is not None:
                    f.body.insert(0, s)
                v = ast.Name(f"_x{uid}", ast.Store())
            if isinstance(v, ast.Name):
                r = _Replace(d, v.id)
                f.body = [r.visit(x) for x in f.body]
            f.target = ast.Tuple([t, v], ast.Store())
            f.iter = ast.Call(ast.Name('enumerate', ast.Load()), [xs], [])
            for x in (f.target, f.iter):
                ast.fix_missing_locations(ast.copy_location(x, f))
            t, it = f.target, f.iter
    # an index that nobody needs
    if _call_of(it, 'enumerate') and isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[0], ast.Name):
        i = t.elts[0].id
        if i not in names(t.elts[1]) and not any(_reads(s, i, None) for s in f.body + f.orelse) and not any(_reads(s, i, f) for s in fn.body):
            f.target, f.iter = t.elts[1], it.args[0]
            t, it = f.target, f.iter
    # keys with their values
    if isinstance(t, ast.Name):
        d = it
        if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == 'keys' and not d.args and not d.keywords:
            d = d.func.value
        s = f.body[0]
        if _chain(d) and not f.orelse and isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, ast.Subscript) and \
                isinstance(s.value.slice, ast.Name) and s.value.slice.id == t.id and _dump(s.value.value) == _dump(d):
            v = s.target if isinstance(s, ast.AnnAssign) else s.targets[0]
            if (isinstance(s, ast.AnnAssign) or len(s.targets) == 1) and isinstance(v, ast.Name) and not (names(d) & {t.id, v.id}):
                f.body = f.body[1:] or [ast.copy_location(ast.Pass(), s)]
                f.target = ast.Tuple([t, v], ast.Store())
                f.iter = ast.Call(ast.Attribute(d, 'items', ast.Load()), [], [])
                for x in (f.target, f.iter):
                    ast.fix_missing_locations(ast.copy_location(x, it))


def _block(body, fn):
    i = 0
    while i < len(body):
        a = body[i]
        t = a.targets[0] if isinstance(a, ast.Assign) and len(a.targets) == 1 else a.target if isinstance(a, ast.AnnAssign) and a.value is not None else None
        kind = _empty(a.value) if isinstance(t, ast.Name) else None
        if kind:
            for j in range(i + 1, len(body)):
                f = body[j]
                if isinstance(f, ast.For) and t.id in names(f):
                    r = _leaf(f, t.id, kind)
                    if r is None:
                        break
                    gens, elt, temps = r
                    vs = temps.union(*(names(g.target) for g in gens))
                    if t.id in vs or any(any(_reads(s, v, f) for s in fn.body) for v in vs):
                        break
                    if kind == 'append':
                        c = ast.ListComp(elt[0], gens)
                    elif kind == 'add':
                        c = ast.SetComp(elt[0], gens)
                    else:
                        c = ast.DictComp(elt[0], elt[1], gens)
                    ast.copy_location(c, f)
                    new = ast.Assign([t], c) if isinstance(a, ast.Assign) else ast.AnnAssign(t, a.annotation, c, 1)
                    body[j] = ast.copy_location(new, f)
                    del body[i]
                    i -= 1
                    break
                if t.id in names(f) or any(isinstance(y, SCOPES + (ast.ClassDef,)) for y in ast.walk(f)) and t.id in ast.dump(f):
                    break
        i += 1


def _blocks(nodes):
    for n in nodes:
        if isinstance(n, (ast.stmt, ast.ExceptHandler, ast.match_case)) and not isinstance(n, ast.ClassDef):
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(n, fld, None)
                if isinstance(b, list) and b:
                    yield b


def _inner_first(fn):
    return list(ast.walk(fn))[::-1]


def canonical(tree):
    for fn in [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
        nodes = _inner_first(fn)
        if not any(isinstance(x, (ast.For, ast.While, ast.comprehension)) for x in nodes) or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in nodes):
            continue
        if any(isinstance(x, ast.While) for x in nodes):
            for b in _blocks(nodes):
                j = 0
                while j < len(b):
                    r = _while(b, j, fn) if isinstance(b[j], ast.While) else None
                    if r:
                        b[j] = r[1]
                        del b[r[0]]
                        j -= 1
                    j += 1
            nodes = _inner_first(fn)
        for uid, n in enumerate(nodes):
            if isinstance(n, ast.For):
                _for(n, fn, uid)
            elif isinstance(n, ast.comprehension) and _call_of(n.iter, 'enumerate') and isinstance(n.target, ast.Tuple) and \
                    len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name):
                i = n.target.elts[0].id
                if not any(_reads(s, i, None) for s in fn.body):
                    n.target, n.iter = n.target.elts[1], n.iter.args[0]
        if any(isinstance(x, ast.For) for x in nodes):
            for b in _blocks(nodes):
                if any(isinstance(x, ast.For) for x in b):
                    _block(b, fn)
    return tree
