#!/usr/bin/env python3
"""Development: behaviour-preserving rewrites of the Python sources, on which every check has to stay quiet.

  refactor.py [-t NAME,…] [-m SUBSTRING] [-f FUNC] [-p PID,…] [-s SEED] [-k DIR] [--demos]
     -t  transformations (default: each one by itself)   -m only modules whose path contains   -f only functions whose name contains
     -p  only these checks    -s apply at a random half of the places    -k keep the copy in DIR    --demos run tests and demonstrations in it
"""
import ast, argparse, builtins, concurrent.futures as cf, copy, glob, json, os, random, re, shutil, subprocess, sys, tempfile, typing
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = '/repo'
TESTS = ['-m', 'not slow', 'tests']
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FN + (ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def N(s):
    return ast.parse(s).body[0]


def name(i, ctx=None):
    return ast.Name(i, ctx or ast.Load())


class Base(ast.NodeTransformer):
    """every transformation counts its places; pick() decides whether to apply it here"""
    rng = None
    func = None
    only = None

    def __init__(self):
        self.n = 0
        self.stack = []
        self.cls = []

    def pick(self):
        if self.only and not any(self.only in s for s in self.stack + self.cls):
            return False
        if self.rng is not None and self.rng.random() < 0.5:
            return False
        self.n += 1
        return True

    def fresh(self, stem='tmp'):
        Base.ctr = getattr(Base, 'ctr', 0) + 1
        return f"{stem}_{Base.ctr}"

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        n = self.generic_visit(n)
        self.stack.pop()
        return n
    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        n = self.generic_visit(n)
        self.cls.pop()
        return n


class Blocks(Base):
    """rewrites lists of statements"""

    def block(self, body, parent):
        return body

    def generic_visit(self, n):
        n = super().generic_visit(n)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                if self.stack or isinstance(n, FN):
                    nb = self.block(b, n)
                    setattr(n, f, nb)
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        n = self.generic_visit(n)
        self.stack.pop()
        return n


def names(n, ctx=None):
    ns = n if isinstance(n, list) else [n]
    return {x.id for m in ns for x in ast.walk(m) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))}


def has(n, *kinds):
    ns = n if isinstance(n, list) else [n]
    return any(isinstance(x, kinds) for m in ns for x in ast.walk(m))


def jumps(body):
    """has return, or break/continue of an outer loop, or yield"""
    def w(n, inloop):
        if isinstance(n, SCOPES):
            return False
        if isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)):
            return True
        if isinstance(n, (ast.Break, ast.Continue)):
            return not inloop
        if isinstance(n, (ast.For, ast.While)):
            return any(w(c, True) for c in n.body) or any(w(c, inloop) for c in n.orelse) or any(
                w(c, inloop) for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr))
        return any(w(c, inloop) for c in ast.iter_child_nodes(n))
    return any(w(s, False) for s in body)


def simple(e):
    """evaluation has no effect and needs no order"""
    return not has(e, ast.Call, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await, *COMPS)


def terminal(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


# ------------------------------------------------------------------ expressions
class CmpSwap(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in sw and not (has(n.left, ast.Call) and has(n.comparators[0], ast.Call)) and self.pick():
            return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
        return n


class NotForm(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        f = {ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.In: ast.NotIn}
        if len(n.ops) == 1 and type(n.ops[0]) in f and self.pick():
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [f[type(n.ops[0])]()], n.comparators))
        return n


class NoneOrder(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and self.pick():
            return ast.Compare(n.comparators[0], n.ops, [n.left])
        return n


class DeMorgan(Base):
    def tst(self, t):
        if isinstance(t, ast.BoolOp) and self.pick():
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return t

    def visit_If(self, n):
        self.generic_visit(n)
        n.test = self.tst(n.test)
        return n
    visit_IfExp = visit_While = visit_If


class GetNone(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and len(n.args) == 2 and isinstance(n.args[1], ast.Constant) and \
                n.args[1].value is None and self.pick():
            n.args.pop()
        return n


class Mul(Base):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        txt = lambda x: isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(x, ast.Constant) and isinstance(x.value, str)
        if isinstance(n.op, ast.Mult) and not txt(n.left) and not txt(n.right) and self.pick():
            return ast.BinOp(n.right, n.op, n.left)
        return n


class MinMax(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('min', 'max') and len(n.args) == 2 and not n.keywords and \
                not any(isinstance(a, ast.Starred) for a in n.args) and self.pick():
            n.args.reverse()
        return n


class Format(Base):
    """f-string → format"""
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if not any(isinstance(v, ast.FormattedValue) for v in n.values):
            return n
        if any(isinstance(v, ast.FormattedValue) and v.format_spec and any(not isinstance(x, ast.Constant) for x in v.format_spec.values) for v in n.values):
            return n
        if not self.pick():
            return n
        s, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                s += v.value.replace('{', '{{').replace('}', '}}')
            else:
                spec = ''.join(x.value for x in v.format_spec.values) if v.format_spec else ''
                s += '{' + (f'!{chr(v.conversion)}' if v.conversion >= 0 else '') + (':' + spec if spec else '') + '}'
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(s), 'format', ast.Load()), args, [])

    def visit_FormattedValue(self, n):
        n.value = self.visit(n.value)
        return n


class Concat(Base):
    """f-string → concatenation of str()"""
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if not any(isinstance(v, ast.FormattedValue) for v in n.values):
            return n
        if any(isinstance(v, ast.FormattedValue) and (v.format_spec or v.conversion >= 0) for v in n.values) or not self.pick():
            return n
        out = None
        for v in n.values:
            e = v if isinstance(v, ast.Constant) else ast.Call(name('str'), [v.value], [])
            out = e if out is None else ast.BinOp(out, ast.Add(), e)
        return out
    visit_FormattedValue = Format.visit_FormattedValue


class Percent(Base):
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        fv = [v for v in n.values if isinstance(v, ast.FormattedValue)]
        if not fv or any(v.format_spec or v.conversion >= 0 for v in fv) or not self.pick():
            return n
        s = ''.join('%s' if isinstance(v, ast.FormattedValue) else v.value.replace('%', '%%') for v in n.values)
        return ast.BinOp(ast.Constant(s), ast.Mod(), ast.Tuple([v.value for v in fv], ast.Load()))
    visit_FormattedValue = Format.visit_FormattedValue


class Pos2Kw(Base):
    """positional arguments of functions of the same class or module by keyword"""
    table = {}

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls') else None
        ps = self.table.get(nm)
        if ps and n.args and not any(isinstance(a, ast.Starred) for a in n.args) and not any(k.arg is None for k in n.keywords) and \
                len(n.args) <= len(ps) and self.pick():
            n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + n.keywords
            n.args = []
        return n


class Kw2Pos(Base):
    table = {}

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls') else None
        ps = self.table.get(nm)
        if ps and n.keywords and not any(isinstance(a, ast.Starred) for a in n.args) and not any(k.arg is None for k in n.keywords):
            kw = {k.arg: k.value for k in n.keywords}
            want = ps[len(n.args):]
            m = 0
            while m < len(want) and want[m] in kw:
                m += 1
            if m == len(kw) and [k.arg for k in n.keywords] == want[:m] and self.pick():
                n.args += [kw[w] for w in want[:m]]
                n.keywords = []
        return n


def lambdas(trees):
    """names that stand for parameters or variables somewhere"""
    return {x.id for t in trees for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
        {a.arg for t in trees for f in ast.walk(t) if isinstance(f, FN + (ast.Lambda,)) for a in f.args.args}


def signature_table(trees):
    t = {}
    for tr in trees:
        for c in ast.walk(tr):
            if isinstance(c, FN):
                meth = bool(c.args.args) and c.args.args[0].arg in ('self', 'cls')
                ps = [a.arg for a in c.args.args][1 if meth else 0:]
                bad = c.args.posonlyargs or c.args.vararg or c.args.kwonlyargs
                t.setdefault(c.name, []).append(None if bad else ps)
    return {k: v[0] for k, v in t.items() if len(v) == 1 and v[0] and k not in dir(builtins) + ['reduce', 'callback'] and k not in lambdas(trees)}


# ------------------------------------------------------------------ statements
class Temp(Blocks):
    """the first argument that is a call gets a name"""
    def block(self, body, parent):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return, ast.AugAssign)) and isinstance(getattr(s, 'value', None), ast.Call):
                c = s.value
                f = c.func
                while isinstance(f, ast.Attribute):
                    f = f.value
                if isinstance(f, ast.Name) and not (isinstance(s, ast.Assign) and has(s.targets[0], ast.Call)):
                    for i, a in enumerate(c.args):
                        if isinstance(a, ast.Starred) or has(a, ast.GeneratorExp, ast.Yield):
                            break
                        if not isinstance(a, (ast.Name, ast.Constant)):
                            if self.pick():
                                t = self.fresh()
                                out.append(ast.Assign([name(t, ast.Store())], a))
                                c.args[i] = name(t)
                            break
            out.append(s)
        return out


class TempAll(Blocks):
    """keyword arguments and operands: each call inside a call gets a name, in the order of evaluation"""
    def block(self, body, parent):
        out = []
        for s in body:
            if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(getattr(s, 'value', None), ast.Call):
                c = s.value
                f = c.func
                while isinstance(f, ast.Attribute):
                    f = f.value
                args = [('a', i, a) for i, a in enumerate(c.args)] + [('k', i, k.value) for i, k in enumerate(c.keywords)]
                if isinstance(f, ast.Name) and not any(isinstance(a, ast.Starred) or has(a, ast.GeneratorExp, ast.Yield) for _, _, a in args) and \
                        not any(k.arg is None for k in c.keywords) and not (isinstance(s, ast.Assign) and has(s.targets[0], ast.Call)) and self.pick():
                    for kind, i, a in args:
                        if not isinstance(a, (ast.Name, ast.Constant, ast.Lambda)):
                            t = self.fresh('arg')
                            out.append(ast.Assign([name(t, ast.Store())], a))
                            if kind == 'a':
                                c.args[i] = name(t)
                            else:
                                c.keywords[i].value = name(t)
            out.append(s)
        return out


class ReturnTemp(Blocks):
    def block(self, body, parent):
        out = []
        for s in body:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)) and self.pick():
                t = self.fresh('result')
                out += [ast.Assign([name(t, ast.Store())], s.value), ast.Return(name(t))]
            else:
                out.append(s)
        return out


class CondTemp(Blocks):
    def block(self, body, parent):
        out = []
        for s in body:
            if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)) and not has(s.test, ast.NamedExpr) and self.pick():
                t = self.fresh('cond')
                out.append(ast.Assign([name(t, ast.Store())], s.test))
                s.test = name(t)
            out.append(s)
        return out


class Inline(Blocks):
    """x = e; s(x) → s(e), where x has no other use"""
    def visit_FunctionDef(self, n):
        self.cur = getattr(self, 'cur', []) + [n]
        r = super().visit_FunctionDef(n)
        self.cur.pop()
        return r

    def block(self, body, parent):
        out = list(body)
        i = 0
        fn = (self.cur[0] if getattr(self, 'cur', None) else parent)
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and \
                    isinstance(b, (ast.Assign, ast.Return, ast.Expr, ast.If)) and not has(a.value, ast.Yield, ast.Lambda):
                v = a.targets[0].id
                uses = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == v]
                tgt = b.test if isinstance(b, ast.If) else b.value
                here = [x for x in ast.walk(tgt) if isinstance(x, ast.Name) and x.id == v] if tgt is not None else []
                inner = any(isinstance(c, COMPS + (ast.Lambda,)) and any(x in list(ast.walk(c)) for x in here) for c in ast.walk(tgt)) if here else False
                bad = isinstance(b, ast.Assign) and not all(isinstance(t, (ast.Name, ast.Tuple)) for t in b.targets)
                first = simple(a.value) or sum(isinstance(x, ast.Call) for x in ast.walk(tgt or ast.Pass())) <= 1
                if len(uses) == 2 and len(here) == 1 and not inner and not bad and first and not has(tgt, ast.JoinedStr) and self.pick():
                    val = a.value

                    class R(ast.NodeTransformer):
                        def visit_Name(s, x):
                            return val if x.id == v else x
                    if isinstance(b, ast.If):
                        b.test = R().visit(b.test)
                    else:
                        b.value = R().visit(b.value)
                    del out[i]
                    continue
            i += 1
        return out


class IfSwap(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) and self.pick():
            t = n.test
            t = t.operand if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) else ast.UnaryOp(ast.Not(), t)
            n.test, n.body, n.orelse = t, n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.pick():
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class GuardContinue(Blocks):
    """if c: BODY at the end of a loop → if not c: continue"""
    def block(self, body, parent):
        if isinstance(parent, (ast.For, ast.While)) and body is parent.body and isinstance(body[-1], ast.If) and not body[-1].orelse and self.pick():
            s = body[-1]
            return body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body
        return body


class NoContinue(Blocks):
    """if c: …; continue / REST → if c: … else: REST"""
    def block(self, body, parent):
        if isinstance(parent, (ast.For, ast.While)) and body is parent.body:
            for i, s in enumerate(body[:-1]):
                if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Continue) and self.pick():
                    if len(s.body) == 1:
                        return body[:i] + [ast.If(ast.UnaryOp(ast.Not(), s.test), self.block2(body[i + 1:]), [])]
                    return body[:i] + [ast.If(s.test, s.body[:-1], self.block2(body[i + 1:]))]
        return body

    def block2(self, body):
        for i, s in enumerate(body[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], ast.Continue) and self.pick():
                if len(s.body) == 1:
                    return body[:i] + [ast.If(ast.UnaryOp(ast.Not(), s.test), self.block2(body[i + 1:]), [])]
                return body[:i] + [ast.If(s.test, s.body[:-1], self.block2(body[i + 1:]))]
        return body


class NoElse(Blocks):
    """if c: …return else: B → no else"""
    def block(self, body, parent):
        out = []
        for s in body:
            if isinstance(s, ast.If) and s.orelse and terminal(s.body) and self.pick():
                out += [ast.If(s.test, s.body, [])] + s.orelse
            else:
                out.append(s)
        return out


class AddElse(Blocks):
    def block(self, body, parent):
        for i, s in enumerate(body[:-1]):
            if isinstance(s, ast.If) and not s.orelse and terminal(s.body) and self.pick():
                return body[:i] + [ast.If(s.test, s.body, self.block(body[i + 1:], None))]
        return body


class CompLoop(Blocks):
    """x = [e for …] → loop"""
    def expand(self, target, c):
        init = {ast.ListComp: ast.List([], ast.Load()), ast.SetComp: ast.Call(name('set'), [], []), ast.DictComp: ast.Dict([], [])}[type(c)]
        if isinstance(c, ast.ListComp):
            inner = ast.Expr(ast.Call(ast.Attribute(name(target), 'append', ast.Load()), [c.elt], []))
        elif isinstance(c, ast.SetComp):
            inner = ast.Expr(ast.Call(ast.Attribute(name(target), 'add', ast.Load()), [c.elt], []))
        else:
            inner = ast.Assign([ast.Subscript(name(target), c.key, ast.Store())], c.value)
        st = inner
        for g in reversed(c.generators):
            for i in reversed(g.ifs):
                st = ast.If(i, [st], [])
            st = ast.For(g.target, g.iter, [st], [])
        # the variables of a comprehension are its own
        vs = set().union(*(names(g.target) for g in c.generators))
        m = {v: self.fresh(v) for v in vs}

        class R(ast.NodeTransformer):
            def visit_Name(s, x):
                return ast.Name(m[x.id], x.ctx) if x.id in m else x
        st = R().visit(st)
        return [ast.Assign([name(target, ast.Store())], init), st]

    def block(self, body, parent):
        out = []
        for s in body:
            v = getattr(s, 'value', None)
            if isinstance(s, ast.Assign) and isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)) and isinstance(s.targets[0], ast.Name) and \
                    s.targets[0].id not in names(v) and self.pick():
                out += self.expand(s.targets[0].id, v)
            elif isinstance(s, ast.Return) and isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)) and self.pick():
                t = self.fresh('out')
                out += self.expand(t, v) + [ast.Return(name(t))]
            else:
                out.append(s)
        return out


class LoopComp(Blocks):
    """x = []; for v in it: [if c:] x.append(e) → comprehension"""
    def block(self, body, parent):
        out = list(body)
        i = 0
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            t = a.targets[0] if isinstance(a, ast.Assign) else a.target if isinstance(a, ast.AnnAssign) else None
            if isinstance(t, ast.Name) and isinstance(a.value, ast.List) and not a.value.elts and isinstance(b, ast.For) and not b.orelse and len(b.body) == 1:
                s, ifs = b.body[0], []
                while isinstance(s, ast.If) and not s.orelse and len(s.body) == 1:
                    ifs.append(s.test)
                    s = s.body[0]
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == 'append' and \
                        isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == t.id and t.id not in names(s.value.args[0]) and self.pick():
                    out[i:i + 2] = [ast.Assign([t], ast.ListComp(s.value.args[0], [ast.comprehension(b.target, b.iter, ifs, 0)]))]
            i += 1
        return out


class Match(Blocks):
    def cond(self, subj, p):
        if isinstance(p, ast.MatchValue):
            return ast.Compare(subj, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchOr):
            c = [self.cond(subj, q) for q in p.patterns]
            return None if None in c else ast.BoolOp(ast.Or(), c)
        if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
            return ast.Constant(True)
        return None

    def block(self, body, parent):
        out = []
        for s in body:
            if isinstance(s, ast.Match) and not any(c.guard for c in s.cases):
                t = self.fresh('subject')
                cs = [(self.cond(name(t), c.pattern), c.body) for c in s.cases]
                if all(c for c, _ in cs) and self.pick():
                    rest = []
                    for c, b in reversed(cs):
                        rest = b if isinstance(c, ast.Constant) else [ast.If(c, b, rest)]
                    out += [ast.Assign([name(t, ast.Store())], s.subject)] + rest
                    continue
            out.append(s)
        return out


class Aug(Base):
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        txt = isinstance(n.value, (ast.JoinedStr,)) or isinstance(n.value, ast.Constant)
        if isinstance(n.target, (ast.Name,)) and txt and self.pick():
            return ast.Assign([n.target], ast.BinOp(name(n.target.id), n.op, n.value))
        return n


class Enum_(Base):
    def visit_For(self, n):
        self.generic_visit(n)
        if not (isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'enumerate') and self.pick():
            n.target = ast.Tuple([name(self.fresh('_i'), ast.Store()), n.target], ast.Store())
            n.iter = ast.Call(name('enumerate'), [n.iter], [])
        return n


class Range(Blocks):
    """for x in xs → for i in range(len(xs)); only over what is already in memory"""
    def block(self, body, parent):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not has(s.iter, ast.Call) and self.pick():
                t, i = self.fresh('seq'), self.fresh('i')
                out.append(ast.Assign([name(t, ast.Store())], ast.Call(name('list'), [s.iter], [])))
                s.body.insert(0, ast.Assign([s.target], ast.Subscript(name(t), name(i), ast.Load())))
                s.target = name(i, ast.Store())
                s.iter = ast.Call(name('range'), [ast.Call(name('len'), [name(t)], [])], [])
            out.append(s)
        return out


class While(Blocks):
    """for x in xs → iterator and while"""
    def block(self, body, parent):
        out = []
        for s in body:
            if isinstance(s, ast.For) and not s.orelse and not has(s.iter, ast.Call) and not has(s.body, ast.Continue) and self.pick():
                t, i = self.fresh('seq'), self.fresh('i')
                out += [ast.Assign([name(t, ast.Store())], ast.Call(name('list'), [s.iter], [])), ast.Assign([name(i, ast.Store())], ast.Constant(0))]
                w = ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name('len'), [name(t)], [])]),
                              [ast.Assign([s.target], ast.Subscript(name(t), name(i), ast.Load())),
                               ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))] + s.body, [])
                out.append(w)
            else:
                out.append(s)
        return out


class Items(Base):
    """for k, v in d.items() → for k in d: v = d[k]"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and not it.args and isinstance(n.target, ast.Tuple) and \
                len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name) and simple(it.func.value) and self.pick():
            k, v = n.target.elts
            n.target = k
            n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(it.func.value), name(k.id), ast.Load())))
            n.iter = it.func.value
        return n


class Ternary(Blocks):
    def block(self, body, parent):
        out = []
        for s in body:
            v = getattr(s, 'value', None)
            if isinstance(s, ast.Assign) and isinstance(v, ast.IfExp) and self.pick():
                out.append(ast.If(v.test, [ast.Assign(s.targets, v.body)], [ast.Assign(copy.deepcopy(s.targets), v.orelse)]))
            elif isinstance(s, ast.Return) and isinstance(v, ast.IfExp) and self.pick():
                out += [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]
            else:
                out.append(s)
        return out


class ToTernary(Blocks):
    def block(self, body, parent):
        out = []
        for s in body:
            if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and \
                    ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and self.pick():
                out.append(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
            else:
                out.append(s)
        return out


class AnyLoop(Blocks):
    """any()/all()/sum() over a generator → loop"""
    def block(self, body, parent):
        out = []
        for s in body:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('any', 'all', 'sum') and \
                    len(v.args) == 1 and isinstance(v.args[0], (ast.GeneratorExp, ast.ListComp)) and self.pick():
                c = v.args[0]
                t = self.fresh('acc')
                if v.func.id == 'sum':
                    inner = ast.AugAssign(name(t, ast.Store()), ast.Add(), c.elt)
                    init = 0
                else:
                    init = v.func.id == 'all'
                    e = c.elt if v.func.id == 'any' else ast.UnaryOp(ast.Not(), c.elt)
                    inner = ast.If(e, [ast.Assign([name(t, ast.Store())], ast.Constant(not init))] + ([ast.Break()] if len(c.generators) == 1 else []), [])
                st = inner
                for g in reversed(c.generators):
                    for i in reversed(g.ifs):
                        st = ast.If(i, [st], [])
                    st = ast.For(g.target, g.iter, [st], [])
                vs = set().union(*(names(g.target) for g in c.generators))
                m = {x: self.fresh(x) for x in vs}

                class R(ast.NodeTransformer):
                    def visit_Name(self, x):
                        return ast.Name(m[x.id], x.ctx) if x.id in m else x
                out += [ast.Assign([name(t, ast.Store())], ast.Constant(init)), R().visit(st)]
                s.value = name(t)
            out.append(s)
        return out


class Noop(Blocks):
    def block(self, body, parent):
        if isinstance(parent, FN) and body is parent.body and self.pick():
            k = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
            return body[:k] + [ast.Assign([name('_unused', ast.Store())], ast.Constant(0))] + body[k:]
        return body


class Unpack(Blocks):
    def block(self, body, parent):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and \
                    all(isinstance(x, ast.Name) for x in s.targets[0].elts) and self.pick():
                t = self.fresh('pair')
                out.append(ast.Assign([name(t, ast.Store())], s.value))
                for i, x in enumerate(s.targets[0].elts):
                    out.append(ast.Assign([x], ast.Subscript(name(t), ast.Constant(i), ast.Load())))
            else:
                out.append(s)
        return out


class Annotate(Base):
    def visit_Assign(self, n):
        if self.stack and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and self.pick():
            return ast.AnnAssign(n.targets[0], ast.Constant('object'), n.value, 1)
        return n


class Reorder(Blocks):
    """adjacent independent assignments change places"""
    def block(self, body, parent):
        out = list(body)
        i = 0
        while i + 1 < len(out):
            a, b = out[i], out[i + 1]
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (a, b)):
                ta, tb = a.targets[0].id, b.targets[0].id
                if ta != tb and ta not in names(b.value) and tb not in names(a.value) and (simple(a.value) or simple(b.value)) and self.pick():
                    out[i], out[i + 1] = b, a
                    i += 1
            i += 1
        return out


class Methods(Base):
    """methods in the opposite order"""
    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        n = self.generic_visit(n)
        fs = [x for x in n.body if isinstance(x, FN)]
        if len({f.name for f in fs}) == len(fs) and len(fs) > 1 and self.pick():
            it = iter(reversed(fs))
            n.body = [next(it) if isinstance(x, FN) else x for x in n.body]
        self.cls.pop()
        return n


class Consts(Base):
    """numbers other than 0, 1, 2 and strings in calls become constants of the module"""
    def visit_Module(self, n):
        self.new = {}
        n = self.generic_visit(n)
        at = 0
        for i, s in enumerate(n.body):
            if isinstance(s, (ast.Import, ast.ImportFrom)) or i == 0 and isinstance(s, ast.Expr):
                at = i + 1
        n.body[at:at] = [ast.Assign([name(k, ast.Store())], ast.Constant(v)) for k, v in self.new.items()]
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_MatchValue(self, n):
        return n

    def visit_Constant(self, n):
        if self.stack and isinstance(n.value, (int, float)) and not isinstance(n.value, bool) and n.value not in (0, 1, 2) and self.pick():
            k = self.fresh('_K').upper()
            self.new[k] = n.value
            return name(k)
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        n.body = [self.visit(s) for s in n.body]
        self.stack.pop()
        return n


class Rename(Base):
    """every local variable gets another name"""
    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        if self.pick():
            self.rename(n)
        self.stack.pop()
        return n

    def rename(self, fn):
        params = {a.arg for f in ast.walk(fn) if isinstance(f, FN + (ast.Lambda,)) for a in
                  f.args.args + f.args.kwonlyargs + f.args.posonlyargs + [x for x in (f.args.vararg, f.args.kwarg) if x]}
        loc = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                loc.add(x.id)
            if isinstance(x, ast.ExceptHandler) and x.name:
                loc.add(x.name)
            if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                loc.add(x.name)
        skip = set(params)
        for x in ast.walk(fn):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                skip |= set(x.names)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                skip |= {(a.asname or a.name).split('.')[0] for a in x.names}
            if isinstance(x, ast.ClassDef):
                skip |= names(x, ast.Store)
        ren = {v: v + '_x' for v in loc - skip if not v.startswith('__')}
        for x in ast.walk(fn):
            if isinstance(x, ast.Name) and x.id in ren:
                x.id = ren[x.id]
            if isinstance(x, (ast.ExceptHandler, ast.MatchAs, ast.MatchStar)) and x.name in ren:
                x.name = ren[x.name]


def insert_functions(mod, new):
    at = 0
    for i, s in enumerate(mod.body):
        if isinstance(s, (ast.Import, ast.ImportFrom)) or i == 0 and isinstance(s, ast.Expr):
            at = i + 1
    mod.body[at:at] = new


class Extract(Base):
    """the body of a loop or branch becomes a function of its own"""
    where = (ast.For, ast.If, ast.With)
    least = 2

    def visit_Module(self, n):
        self.new = []
        n = self.generic_visit(n)
        insert_functions(n, self.new)
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        if len(self.stack) == 1:
            self.fn(n)
        self.stack.pop()
        return n

    def comp_vars(self, fn):
        return {v for c in ast.walk(fn) if isinstance(c, ast.comprehension) for v in names(c.target)}

    def sites(self, fn):
        """(statement list, from, to)"""
        for x in ast.walk(fn):
            if isinstance(x, self.where):
                for b in (x.body, getattr(x, 'orelse', [])):
                    if len(b) >= self.least:
                        yield b, 0, len(b)

    def fn(self, fn):
        used = []
        for b, i, j in list(self.sites(fn)):
            blk = b[i:j]
            if any(id(x) in used for s in blk for x in ast.walk(s)):
                continue
            if any('CompoundRegion' in ast.unparse(x) or 'complex_op' in ast.unparse(x) for x in fn.body):     # these have to be kept alive
                continue
            if jumps(blk) or has(blk, ast.Lambda, *FN) or has(blk, ast.ClassDef, ast.Import, ast.ImportFrom) or 'super' in names(blk) or '__class__' in names(blk):
                continue
            allnames = {a.arg for a in fn.args.args + fn.args.kwonlyargs + [v for v in (fn.args.vararg, fn.args.kwarg) if v]} | self.plain_stores(fn.body) | \
                {x.name for x in ast.walk(fn) if isinstance(x, (ast.ExceptHandler,)) and x.name} | \
                {x.name for x in ast.walk(fn) if isinstance(x, FN) and x is not fn} | \
                {x.name for x in ast.walk(fn) if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name}
            inner = {a.arg for x in ast.walk(fn) if isinstance(x, FN) and x is not fn and any(y is blk[0] for y in ast.walk(x)) for a in x.args.args + x.args.kwonlyargs}
            allnames |= inner
            if inner & self.comp_vars(fn):
                continue
            # nested functions see the locals
            if any(x.name in names(blk) for x in ast.walk(fn) if isinstance(x, FN) and x is not fn):
                continue
            comp_only = set()
            w = names(blk, (ast.Store, ast.Del))
            cv = set()
            for s in blk:
                for c in ast.walk(s):
                    if isinstance(c, COMPS):
                        for g in c.generators:
                            cv |= names(g.target)
            hidden = self.comp_names(fn)
            outside = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in hidden and not any(x is y for s in blk for y in ast.walk(s))]
            read_out = {x.id for x in outside if isinstance(x.ctx, ast.Load)}
            inside_plain = {x.id for s in blk for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            out = sorted((inside_plain & read_out) - (cv - self.plain_stores(blk)))
            # what the block reads before it is certainly bound inside: every name that is bound outside too
            bound_out = ({x.id for x in outside if isinstance(x.ctx, ast.Store)} & self.plain_stores(fn.body)) | (allnames - self.plain_stores(fn.body)) | \
                {a.arg for a in fn.args.args + fn.args.kwonlyargs + [v for v in (fn.args.vararg, fn.args.kwarg) if v]} | inner
            reads = {x.id for s in blk for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and id(x) not in hidden}
            out = sorted(set(out) | (reads & inside_plain & bound_out & allnames) - (cv - self.plain_stores(blk)))   # the next turn of a loop may read it
            params = sorted((reads | set(out)) & bound_out & allnames)
            # a name written here and read outside that is not bound before would have to exist afterwards
            unb = self.maybe_unbound(fn, b, i, params)
            if unb is None or not self.pick():
                continue
            params = [p for p in params if p not in unb or p in reads and p not in unb]
            if any(o in unb and not self.surely(blk, o) for o in out):
                self.n -= 1
                continue
            nm = self.fresh('_step')
            body = copy.deepcopy(blk)
            if out:
                body.append(ast.Return(name(out[0]) if len(out) == 1 else ast.Tuple([name(o) for o in out], ast.Load())))
            call = ast.Call(name(nm), [name(p) for p in params], [])
            st = ast.Expr(call) if not out else ast.Assign([name(out[0], ast.Store()) if len(out) == 1 else ast.Tuple([name(o, ast.Store()) for o in out], ast.Store())], call)
            f = ast.FunctionDef(nm, ast.arguments([], [ast.arg(p) for p in params], None, [], [], None, []), body, [], None)
            if any('__' in x.attr and x.attr.startswith('__') and not x.attr.endswith('__') for s in blk for x in ast.walk(s) if isinstance(x, ast.Attribute)):
                continue
            self.new.append(f)
            used += [id(x) for s in blk for x in ast.walk(s)]
            b[i:j] = [st]

    @staticmethod
    def comp_names(fn):
        """uses of the own variables of comprehensions"""
        r = set()

        def w(n, own):
            if isinstance(n, COMPS):
                own = own | set().union(*(names(g.target) for g in n.generators))
            if isinstance(n, ast.Name) and n.id in own:
                r.add(id(n))
            for c in ast.iter_child_nodes(n):
                w(c, own)
        w(fn, set())
        return r

    @staticmethod
    def plain_stores(blk):
        r = set()

        def w(n):
            if isinstance(n, COMPS):
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                r.add(n.id)
            for c in ast.iter_child_nodes(n):
                w(c)
        for s in blk:
            w(s)
        return r

    @staticmethod
    def surely(blk, v):
        return any(isinstance(s, (ast.Assign, ast.AnnAssign)) and v in names(s, ast.Store) for s in blk)

    def maybe_unbound(self, fn, b, i, params):
        """params that need not be bound where the block starts (bound on no path that dominates it)"""
        ps = {a.arg for a in fn.args.args + fn.args.kwonlyargs + [v for v in (fn.args.vararg, fn.args.kwarg) if v]}
        path = []

        def find(body, acc):
            acc = set(acc)
            for k, s in enumerate(body):
                if body is b and k == i:
                    path.append(acc)
                    return True
                inner = set(acc)
                if isinstance(s, ast.For):
                    inner |= names(s.target)
                if isinstance(s, FN):
                    inner |= {a.arg for a in s.args.args + s.args.kwonlyargs}
                if isinstance(s, ast.With):
                    for it in s.items:
                        if it.optional_vars is not None:
                            inner |= names(it.optional_vars)
                for f in ('body', 'orelse', 'finalbody'):
                    x = getattr(s, f, None)
                    if isinstance(x, list) and x and isinstance(x[0], ast.stmt) and find(x, inner if f == 'body' else acc):
                        return True
                for h in getattr(s, 'handlers', []):
                    if find(h.body, acc | ({h.name} if h.name else set())):
                        return True
                for c in getattr(s, 'cases', []):
                    if find(c.body, acc):
                        return True
                if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                    acc |= names(s, ast.Store)
                elif isinstance(s, ast.With):
                    acc |= names(s, ast.Store)
                elif isinstance(s, ast.If) and s.orelse:
                    x, y = self.bound(s.body), self.bound(s.orelse)
                    acc |= (x & y) if x is not None and y is not None else (x if y is None else y) or set()
                elif isinstance(s, ast.If):
                    pass
                elif isinstance(s, ast.Match):
                    xs = [self.bound(c.body) for c in s.cases]
                    xs = [x for x in xs if x is not None]
                    if xs and any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None for c in s.cases):
                        acc |= set.intersection(*xs)
                elif isinstance(s, FN):
                    acc.add(s.name)
            return False
        if not find(fn.body, ps):
            return None
        return {p for p in params if p not in path[0]}

    def bound(self, body):
        if terminal(body):
            return None
        return {v for s in body if isinstance(s, (ast.Assign, ast.AnnAssign)) for v in names(s, ast.Store)}


class ExtractTail(Extract):
    """the second half of a function becomes a function"""
    def sites(self, fn):
        b = fn.body
        if len(b) >= 4:
            yield b, len(b) // 2, len(b)


class ExtractRun(Extract):
    """two statements in the middle of a block"""
    def sites(self, fn):
        for x in ast.walk(fn):
            for f in ('body', 'orelse'):
                b = getattr(x, f, None)
                if isinstance(b, list) and len(b) >= 4 and isinstance(b[0], ast.stmt) and not isinstance(x, ast.ClassDef):
                    yield b, 1, 3


class ExtractCond(Base):
    """the condition of an if and what a comprehension yields become functions"""
    def visit_Module(self, n):
        self.new = []
        n = self.generic_visit(n)
        insert_functions(n, self.new)
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.locs = getattr(self, 'locs', []) + [names(n, ast.Store) | {a.arg for a in n.args.args + n.args.kwonlyargs + [v for v in (n.args.vararg, n.args.kwarg) if v]} |
                                                 {x.name for x in ast.walk(n) if isinstance(x, FN) and x is not n} |
                                                 {x.name for x in ast.walk(n) if isinstance(x, ast.ExceptHandler) and x.name}]
        n = self.generic_visit(n)
        self.locs.pop()
        self.stack.pop()
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if self.stack and isinstance(t, (ast.Compare, ast.BoolOp, ast.UnaryOp)) and not has(t, ast.Lambda, ast.NamedExpr) and 'super' not in names(t):
            ps = sorted(names(t, ast.Load) & set().union(*self.locs))
            if self.pick():
                nm = self.fresh('_test')
                self.new.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), [ast.Return(t)], [], None))
                n.test = ast.Call(name(nm), [name(p) for p in ps], [])
        return n


class Chain(Base):
    """a < b < c → a < b and b < c"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) > 1 and all(simple(x) for x in n.comparators) and self.pick():
            l, out = n.left, []
            for o, r in zip(n.ops, n.comparators):
                out.append(ast.Compare(l, [o], [r]))
                l = copy.deepcopy(r)
            return ast.BoolOp(ast.And(), out)
        return n


class NestIf(Base):
    """if a and b: → if a: if b:"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse and self.pick():
            a, rest = n.test.values[0], n.test.values[1:]
            return ast.If(a, [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, [])], [])
        return n


class MergeIf(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse and self.pick():
            return ast.If(ast.BoolOp(ast.And(), [n.test, n.body[0].test]), n.body[0].body, [])
        return n


class Truthy(Base):
    """if xs: → if len(xs) > 0: is not valid in general; dict(...) displays and list(): [] → list()"""
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and not n.elts and self.stack and self.pick():
            return ast.Call(name('list'), [], [])
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys and self.stack and self.pick():
            return ast.Call(name('dict'), [], [])
        return n


class SelfAlias(Blocks):
    """self.a.b used in a method gets a local alias at its first statement of a block: x = self.a"""
    def block(self, body, parent):
        if isinstance(parent, FN) and parent.args.args and parent.args.args[0].arg == 'self' and body is parent.body:
            cnt = {}
            for x in ast.walk(parent):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                    c = cnt.setdefault(x.attr, [0, 0, 0])
                    c[0] += 1
                    c[1] += not isinstance(x.ctx, ast.Load)
            calls = {x.func.attr for x in ast.walk(parent) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self'}
            if has(body, *FN) or parent.name == '__init__' or any(isinstance(d, ast.Attribute) for d in parent.decorator_list):
                return body
            for a, (k, st, _) in cnt.items():
                if k >= 2 and not st and a not in calls and a in self.attrs and self.pick():
                    t = self.fresh(a.strip('_'))

                    class R(ast.NodeTransformer):
                        def visit_Attribute(s, x):
                            s.generic_visit(x)
                            return name(t) if isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr == a else x
                    body = [R().visit(s) for s in body]
                    d = 1 if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) else 0
                    body.insert(d, ast.Assign([name(t, ast.Store())], ast.Attribute(name('self'), a, ast.Load())))
                    return body
        return body

    def visit_ClassDef(self, n):
        # plain fields only: properties may compute
        self.attrs = {x.attr for f in n.body if isinstance(f, FN) and f.name == '__init__' for x in ast.walk(f)
                      if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)} | \
            {s.target.id for s in n.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)}
        stored = {x.attr for f in n.body if isinstance(f, FN) and f.name != '__init__' for x in ast.walk(f)
                  if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        self.attrs -= stored
        return super().visit_ClassDef(n)

    def visit_Module(self, n):
        self.attrs = set()
        return self.generic_visit(n)


class Fmt(Base):
    pass


TRANS = dict(fmt=Fmt, cmp=CmpSwap, notform=NotForm, noneorder=NoneOrder, demorgan=DeMorgan, getnone=GetNone, mul=Mul, minmax=MinMax, format=Format, concat=Concat,
             percent=Percent, pos2kw=Pos2Kw, kw2pos=Kw2Pos, temp=Temp, tempall=TempAll, rettemp=ReturnTemp, condtemp=CondTemp, inline=Inline, ifswap=IfSwap,
             guard=GuardContinue, nocontinue=NoContinue, noelse=NoElse, addelse=AddElse, comploop=CompLoop, loopcomp=LoopComp, match=Match, aug=Aug,
             enum=Enum_, range=Range, items=Items, ternary=Ternary, toternary=ToTernary, anyloop=AnyLoop, noop=Noop, unpack=Unpack, annotate=Annotate,
             reorder=Reorder, methods=Methods, consts=Consts, rename=Rename, extract=Extract, extracttail=ExtractTail, extractrun=ExtractRun,
             extractcond=ExtractCond, chain=Chain, nestif=NestIf, mergeif=MergeIf, empty=Truthy, alias=SelfAlias)
TRANS['while'] = While


def make_copy(dst, link=True):
    os.makedirs(dst, exist_ok=True)
    for f in os.listdir(REPO):
        if f in ('.git',):
            os.makedirs(f"{dst}/.git", exist_ok=True)
        elif f == 'klayout_pex':
            shutil.copytree(f"{REPO}/{f}", f"{dst}/{f}", ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
        else:
            os.symlink(f"{REPO}/{f}", f"{dst}/{f}")


def transform(dst, tnames, mod, func, seed):
    Base.rng = random.Random(seed) if seed is not None else None
    Base.only = func
    files = sorted(glob.glob(f"{dst}/klayout_pex/**/*.py", recursive=True))
    tab = signature_table([ast.parse(open(f).read()) for f in files])
    Pos2Kw.table = Kw2Pos.table = tab
    total = 0
    for f in files:
        if mod and mod not in f:
            continue
        tree = ast.parse(open(f).read())
        n = 0
        for t in tnames:
            x = TRANS[t]()
            tree = ast.fix_missing_locations(x.visit(tree))
            n += x.n
        if n or 'fmt' in tnames:
            txt = ast.unparse(tree)
            compile(txt, f, 'exec')
            open(f, 'w').write(txt + '\n')
        total += n
    return total


KNOWN_UNDEF = {'CellExtractionResults', 'ExtractionResults', 'KLayoutDeviceInfo', 'KLayoutDeviceTerminal', 'LayerName', 'NetName', 'OverlapCap', 'OverlapKey',
               'SideOverlapCap', 'SideOverlapKey', 'SidewallCap', 'SidewallKey', 'defaultdict'}       # from other modules of the program


def run(job):
    tnames, mod, func, pids, seed, keep, demos, plan = job
    d = keep or tempfile.mkdtemp(prefix='refac_')
    if keep:
        shutil.rmtree(d, ignore_errors=True)
    try:
        make_copy(d)
        n = transform(d, tnames, mod, func, seed)
        out = []
        r = subprocess.run(['ruff', 'check', '--isolated', '--no-cache', '--select', 'F405,F821,F823,E9', '--output-format', 'concise', f"{d}/klayout_pex"], capture_output=True, text=True)
        undef = [l for l in r.stdout.splitlines() if (m := re.search(r"F\d+ `(\w+)`", l)) and m.group(1) not in dir(typing) and m.group(1) not in KNOWN_UNDEF]
        if undef:
            out.append('   BAD TRANSFORM ' + ' | '.join(undef[:4]))
        if demos:
            env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
            env['PYTHONDONTWRITEBYTECODE'] = '1'
            for s in sorted(os.listdir(f"{ROOT}/seeded")):
                if not s.startswith('pb-') or s == 'pb-installed-path':
                    r = subprocess.run(['bash', f"{ROOT}/seeded/{s}/demo.sh"], cwd=d, env=env, capture_output=True, text=True)
                    if r.returncode:
                        out.append(f"   DEMO {s}: {r.stderr.strip().splitlines()[-1:]}")
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '--no-header', '--deselect', 'tests/fastcap', '-p', 'no:cacheprovider', *TESTS],
                               cwd=d, env=dict(env, PYTHONPATH=d), capture_output=True, text=True)
            out.append('   TESTS ' + ' | '.join(x[:80] for x in (r.stdout + r.stderr).strip().splitlines()[-3:]))
        r = subprocess.run([sys.executable, f"{ROOT}/check.py"] + (pids or ['all']), capture_output=True, text=True,
                           env=dict(os.environ, KPEX_REPO=d, KPEX_EVIDENCE=d + '_ev'))
        bad = [l for l in (r.stdout + r.stderr).splitlines() if l.strip() and not l.startswith(('OK ', 'KNOWN-FINDING'))]
        return tnames, seed, n, out, bad
    finally:
        shutil.rmtree(d + '_ev', ignore_errors=True)
        if not keep:
            shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-t'); ap.add_argument('-m'); ap.add_argument('-f'); ap.add_argument('-p'); ap.add_argument('-s', type=int)
    ap.add_argument('-k'); ap.add_argument('--demos', action='store_true'); ap.add_argument('-n', type=int, default=4)
    ap.add_argument('--mix', type=int, help='so many random mixtures of four transformations, each at half of the places')
    a = ap.parse_args()
    pids = a.p.split(',') if a.p else None
    if a.mix:
        r = random.Random(a.s or 0)
        def four():
            while True:
                ts = r.sample(sorted(set(TRANS) - {'fmt', 'mul'}), 4)
                if not ('range' in ts and any(t.startswith('extract') for t in ts)):      # nobody hands a sequence and a position to a helper
                    return ts
        jobs = [(four(), a.m, a.f, pids, r.randrange(10 ** 6), None, a.demos, None) for _ in range(a.mix)]
    else:
        ts = [a.t.split(',')] if a.t else [[t] for t in TRANS]
        jobs = [(t, a.m, a.f, pids, a.s, a.k, a.demos, None) for t in ts]
    with cf.ProcessPoolExecutor(8) as ex:
        for t, seed, n, out, bad in ex.map(run, jobs):
            print(f"{'+'.join(t)} {seed if seed is not None else ''}: {n} places, {len(bad)} lines", flush=True)
            for o in out:
                print(o)
            for b in bad[:a.n]:
                print('    ', b[:230])


if __name__ == '__main__':
    main()
