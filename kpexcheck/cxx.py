"""The C++ generator of the technology files: syntax tree from clang (nothing is compiled or run), and an evaluator that propagates
constants (or symbols) through the functions that build the messages."""
from __future__ import annotations
import json
import math
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor
from typing import *

from .model import AnalysisBroken

DIR = 'cxx/gen_tech_pb'
NS = 'kpexcheck_tu'


# ---------------------------------------------------------------- loading
def own_sources(root):
    base = os.path.join(root, DIR)
    out = []
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if f.endswith(('.cpp', '.cc', '.cxx')):
                out.append(os.path.relpath(os.path.join(d, f), base))
    return out


def foreign_includes(base):
    """#include lines that do not name a file of the generator itself"""
    inc = []
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if not f.endswith(('.cpp', '.cc', '.cxx', '.h', '.hpp', '.hh')):
                continue
            with open(os.path.join(d, f), encoding='utf-8') as fh:
                for ln in fh:
                    m = re.match(r'\s*#\s*include\s*([<"])([^>"]+)[>"]', ln)
                    if m and not (m.group(1) == '"' and (os.path.exists(os.path.join(base, m.group(2))) or
                                                         os.path.exists(os.path.join(d, m.group(2))))):
                        s = f"#include {m.group(1)}{m.group(2)}{'>' if m.group(1) == '<' else chr(34)}"
                        if s not in inc:
                            inc.append(s)
    return inc


def annotate(n, st):
    """absolute (file, line) at every node: clang leaves out what did not change"""
    def loc(l):
        if not l:
            return None
        if 'spellingLoc' in l or 'expansionLoc' in l:
            loc(l.get('spellingLoc'))
            return loc(l.get('expansionLoc'))
        if 'file' in l:
            st[0] = l['file']
        if 'line' in l:
            st[1] = l['line']
        return (st[0], st[1]) if 'offset' in l else None
    stack = [n]
    while stack:
        x = stack.pop()
        a = loc(x.get('loc'))
        r = x.get('range')
        b = None
        if r:
            b = loc(r.get('begin'))
            loc(r.get('end'))
        x['_at'] = b or a
        for c in reversed(x.get('inner') or ()):
            stack.append(c)


def strip_ns(t):
    return (t or '').replace(NS + '::', '')


class Source:
    """All translation units of the generator."""

    def __init__(self, root, protos):
        self.root, self.protos = root, protos
        base = os.path.join(root, DIR)
        self.funcs: Dict[Tuple[str, str], dict] = {}      # (qualified name, type) -> definition
        self.decls: Dict[Tuple[str, str], List[dict]] = {}
        self.by_id: Dict[str, Tuple[str, str]] = {}
        self.vars: Dict[str, dict] = {}
        self.local: Dict[tuple, dict] = {}
        self.records: Dict[str, dict] = {}
        self.file_of: Dict[int, str] = {}
        srcs = own_sources(root)
        if not srcs:
            raise AnalysisBroken('the C++ generator is gone')
        d = tempfile.mkdtemp(prefix='kpexcheck-cxx-')
        try:
            gen = os.path.join(d, 'gen')
            os.makedirs(gen)
            pr = os.path.join(root, 'protos')
            ps = [os.path.relpath(os.path.join(b, f), pr) for b, _, fs in os.walk(pr) for f in fs if f.endswith('.proto')]
            r = subprocess.run(['protoc', '-I.', '--cpp_out=' + gen, *sorted(ps)], cwd=pr, capture_output=True, text=True)
            if r.returncode:
                raise AnalysisBroken('the schema cannot be compiled: ' + r.stderr[:300])
            inc = foreign_includes(base)

            def one(s):
                w = os.path.join(d, s.replace('/', '_') + '.wrap.cpp')
                with open(w, 'w') as f:
                    f.write('\n'.join(inc) + f'\nnamespace {NS} {{\n#include "{s}"\n}}\n')
                o = w + '.json'
                with open(o, 'w') as f:
                    r = subprocess.run(['clang++', '-std=c++20', '-fsyntax-only', '-w', '-I' + gen, '-I' + base,
                                        '-I' + os.path.dirname(os.path.join(base, s)), '-Xclang', '-ast-dump=json',
                                        '-Xclang', f'-ast-dump-filter={NS}', w], stdout=f, stderr=subprocess.PIPE, text=True)
                if r.returncode:
                    raise AnalysisBroken(f"{s} cannot be compiled: {r.stderr[:300]}")
                with open(o) as f:
                    txt = f.read()
                dec = json.JSONDecoder()
                i, nodes = 0, []
                while True:
                    while i < len(txt) and txt[i] in ' \n\t\r':
                        i += 1
                    if i >= len(txt):
                        break
                    n, i = dec.raw_decode(txt, i)
                    nodes.append(n)
                return nodes
            with ThreadPoolExecutor(4) as ex:
                tus = list(ex.map(one, srcs))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        for s, nodes in zip(srcs, tus):
            seen = set()
            st = ['', 0]
            for n in nodes:
                annotate(n, st)
                if n.get('kind') == 'NamespaceDecl' and n.get('name') == NS and n['id'] not in seen:
                    seen.add(n['id'])
                    self._walk(n, '', s)

    def _walk(self, n, ns, tu):
        for c in n.get('inner') or ():
            k = c.get('kind')
            if k == 'NamespaceDecl':
                self._walk(c, ns + c.get('name', '') + '::' if c.get('name') else ns, tu)
            elif k in ('LinkageSpecDecl',):
                self._walk(c, ns, tu)
            elif k == 'FunctionDecl':
                key = (ns + c['name'], strip_ns(c['type']['qualType']))
                self.by_id[c['id']] = (key, tu)
                self.decls.setdefault(key, []).append(c)
                c['_tu'] = tu
                c['_qual'] = key[0]
                if any(x.get('kind') == 'CompoundStmt' for x in c.get('inner') or ()):
                    self.funcs[key] = self.local[(tu, key)] = c
            elif k == 'FunctionTemplateDecl':
                for i in c.get('inner') or ():
                    if i.get('kind') == 'FunctionDecl' and any(x.get('kind') == 'CompoundStmt' for x in i.get('inner') or ()):
                        i['_qual'] = ns + i['name']
                        i['_tu'] = tu
                        key = (ns + i['name'], strip_ns(i['type']['qualType']))
                        self.by_id[i['id']] = (key, tu)
                        self.funcs[key] = self.local[(tu, key)] = i
            elif k == 'VarDecl':
                self.vars[c['id']] = c
                c['_qual'] = ns + c['name']
            elif k == 'CXXRecordDecl' and c.get('completeDefinition'):
                self.records[c['id']] = c
                self.records[ns + c.get('name', '')] = c
                self._walk(c, ns + c.get('name', '') + '::', tu)

    def function(self, name):
        fs = [f for (q, _), f in self.funcs.items() if q == name]
        if not fs:
            raise AnalysisBroken(f"the function {name} of the generator is gone")
        return fs[0]


# ---------------------------------------------------------------- values
class Sym:
    """unknown value"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"

    def __eq__(self, o):
        return isinstance(o, Sym) and o.name == self.name

    def __hash__(self):
        return hash(('sym', self.name))


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v


class Msg:
    """message under construction"""

    def __init__(self, qual, at=None):
        self.qual, self.f, self.at = qual, {}, at
        self.set_at: Dict[str, tuple] = {}
        self.by = None

    def get(self, path, default=None):
        x = self
        for p in path.split('.'):
            if not isinstance(x, Msg) or p not in x.f:
                return default
            x = x.f[p]
        return x

    def copy(self):
        m = Msg(self.qual, self.at)
        m.f = {k: v.copy() if isinstance(v, Msg) else [x.copy() if isinstance(x, Msg) else x for x in v] if isinstance(v, list) else v
               for k, v in self.f.items()}
        m.set_at = dict(self.set_at)
        m.by = self.by
        return m

    def __repr__(self):
        return f"{self.qual.rpartition('.')[2]}({', '.join(f'{k}={v}' for k, v in self.f.items())})"


class Struct:
    def __init__(self, fields):
        self.f = fields            # name -> Cell

    def __repr__(self):
        return f"{{{', '.join(f'{k}={c.v}' for k, c in self.f.items())}}}"


class Ptr:
    """pointer to a cell, or into a list (iterator)"""

    def __init__(self, cell=None, seq=None, i=0):
        self.cell, self.seq, self.i = cell, seq, i

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.cell is o.cell and self.seq is o.seq and self.i == o.i

    __hash__ = None


class Closure:
    def __init__(self, node, env, this=None):
        self.node, self.env, self.this = node, env, this


class Stream:
    def __init__(self):
        self.parts = []


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


TRANSPARENT = {'ImplicitCastExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ParenExpr', 'ConstantExpr',
               'CXXFunctionalCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'SubstNonTypeTemplateParmExpr',
               'CXXStdInitializerListExpr', 'CXXRewrittenBinaryOperator', 'CXXDefaultInitExpr', 'FullExpr'}
IGNORED = {'FullComment', 'ParagraphComment', 'TextComment'}


def kids(n):
    return [c for c in n.get('inner') or () if c.get('kind') not in IGNORED and c.get('kind') is not None]


class Eval:
    """Evaluates functions of the generator. A condition that depends on an unknown value is decided by `decide`, which is called with
    the condition; everything that is not about messages is unknown."""

    def __init__(self, src: Source, decide: Optional[Callable[[Any], bool]] = None):
        self.src, self.protos = src, src.protos
        self.decide = decide
        self.types = {}        # C++ type name -> schema qual
        self.enums = {}
        for q in src.protos.messages:
            pk, names = self._cxx(q)
            self.types[pk + '::' + '::'.join(names)] = q
            self.types[pk + '::' + '_'.join(names)] = q
        for q, vs in src.protos.enums.items():
            pk, names = self._cxx(q)
            for v, num in vs.items():
                outer = names[:-1]
                self.enums[f"{'_'.join(names)}_{v}"] = (q, v)
                self.enums[v] = (q, v) if v not in self.enums else None
                if outer:
                    self.enums.setdefault(f"{'_'.join(outer)}_{v}", (q, v))
        self.globals: Dict[str, Cell] = {}
        self.stack: List[tuple] = []
        self.steps = 0
        self.calls: List[tuple] = []       # (qualified name of the function, argument values, place, result)
        self.used = set()
        self.sites: List[tuple] = []       # places of the calls under way

    def _cxx(self, q):
        rel = q[len(self.protos.PREFIX):]
        mod, _, rest = rel.partition('_pb2.')
        return '::'.join(mod.split('.')[:-1]), rest.split('.')

    def msg_type(self, t):
        t = strip_ns(t)
        t = re.sub(r'\b(const|class|struct)\b', '', t).replace('&', '').replace('*', '').strip()
        q = self.types.get(t)
        if q is None and '::' in t:
            q = next((v for k, v in self.types.items() if k.endswith('::' + t) or t.endswith('::' + k)), None)
        return q

    # ---- functions
    def call(self, fn, args, env=None):
        """args: list of Cells"""
        self.used.add(fn.get('_qual', fn.get('name')))
        e = dict(env or {})
        ps = [p for p in kids(fn) if p['kind'] == 'ParmVarDecl']
        for i, p in enumerate(ps):
            if i < len(args):
                c = args[i]
            else:
                c = Cell(self.default_arg(fn, i))
            t = p['type']['qualType']
            e[p['id']] = c if t.rstrip().endswith('&') else Cell(self.copy_value(c.v, t))
        body = next((x for x in kids(fn) if x['kind'] == 'CompoundStmt'), None)
        if body is None:
            return Sym('?')
        if len(self.stack) > 60:
            raise AnalysisBroken('the generator recurses too deeply')
        self.stack.append((fn.get('_qual', fn.get('name')), e))
        try:
            self.stmt(body, e)
        except Return as r:
            return r.v
        finally:
            self.stack.pop()
        return None

    def default_arg(self, fn, i):
        key = (fn.get('_qual'), strip_ns(fn['type']['qualType']))
        for d in [fn, *self.src.decls.get(key, ())]:
            ps = [p for p in kids(d) if p['kind'] == 'ParmVarDecl']
            if i < len(ps) and kids(ps[i]):
                return self.ev(kids(ps[i])[0], {})
        return Sym('default')

    def copy_value(self, v, t):
        if isinstance(v, Msg) and '*' not in t:
            return v.copy()
        if isinstance(v, list):
            return list(v)
        if isinstance(v, Struct):
            return Struct({k: Cell(c.v) for k, c in v.f.items()})
        return v

    # ---- statements
    def stmt(self, n, env):
        self.steps += 1
        if self.steps > 2_000_000:
            raise AnalysisBroken('the generator does not end')
        k = n['kind']
        if k == 'CompoundStmt':
            for c in kids(n):
                self.stmt(c, env)
        elif k == 'DeclStmt':
            for d in kids(n):
                self.declare(d, env)
        elif k == 'ReturnStmt':
            c = kids(n)
            raise Return(self.ev(c[0], env) if c else None)
        elif k == 'IfStmt':
            c = kids(n)
            if n.get('hasInit') or n.get('hasVar'):
                self.stmt(c[0], env) if c[0]['kind'].endswith('Stmt') else self.ev(c[0], env)
                c = c[1:]
            if self.truth(self.ev(c[0], env), c[0]):
                self.stmt(c[1], env)
            elif len(c) > 2:
                self.stmt(c[2], env)
        elif k in ('WhileStmt', 'DoStmt', 'ForStmt'):
            self.loop(n, env)
        elif k == 'CXXForRangeStmt':
            self.range_for(n, env)
        elif k == 'SwitchStmt':
            self.switch(n, env)
        elif k == 'BreakStmt':
            raise Break()
        elif k == 'ContinueStmt':
            raise Continue()
        elif k in ('NullStmt',):
            pass
        elif k in ('AttributedStmt', 'LabelStmt', 'CaseStmt', 'DefaultStmt'):
            self.stmt(kids(n)[-1], env)
        elif k == 'CXXTryStmt':
            self.stmt(kids(n)[0], env)
        else:
            self.ev(n, env)

    def loop(self, n, env):
        raw = n.get('inner') or []
        k = n['kind']
        if k == 'ForStmt':
            init, _, cond, inc, body = (raw + [{}] * 5)[:5]
        elif k == 'WhileStmt':
            init, cond, inc, body = {}, raw[-2], {}, raw[-1]
        else:
            init, cond, inc, body = {}, raw[1], {}, raw[0]
        if init.get('kind'):
            self.stmt(init, env)
        first = k == 'DoStmt'
        for it in range(100000):
            if not first and cond.get('kind'):
                v = self.ev(cond, env)
                if isinstance(v, Sym):
                    if it:
                        return
                    if not self.truth(v, cond):
                        return
                elif not v:
                    return
            first = False
            try:
                self.stmt(body, env)
            except Break:
                return
            except Continue:
                pass
            if inc.get('kind'):
                self.ev(inc, env)
        raise AnalysisBroken('a loop of the generator does not end')

    def range_for(self, n, env):
        raw = n.get('inner') or []
        # init, range, begin, end, cond, inc, loop variable, body
        rng = raw[1]
        var = raw[6]
        body = raw[7]
        if raw[0].get('kind'):
            self.stmt(raw[0], env)
        rv = kids(rng)[0]
        seq = self.ev(kids(rv)[0], env)
        if isinstance(seq, Sym):
            seq = [seq]
        if isinstance(seq, dict):
            seq = [Struct({'first': Cell(a), 'second': Cell(b)}) for a, b in seq.items()]
        if not isinstance(seq, list):
            raise AnalysisBroken('a loop over something that is not a list')
        d = kids(var)[0]
        for i in range(len(seq)):
            if i >= len(seq):
                break
            x = seq[i]
            ref = d['type']['qualType'].rstrip().endswith('&')
            cell = x if isinstance(x, Cell) else Cell(x)
            if not ref:
                cell = Cell(self.copy_value(cell.v, d['type']['qualType']))
            self.bind(d, cell, env)
            try:
                self.stmt(body, env)
            except Break:
                break
            except Continue:
                pass
            if ref and not isinstance(x, Cell) and not isinstance(cell.v, (Msg, Struct, list)):
                seq[i] = cell.v

    def bind(self, d, cell, env):
        env[d['id']] = cell
        if d['kind'] == 'DecompositionDecl':
            for i, b in enumerate([b for b in kids(d) if b['kind'] == 'BindingDecl']):
                v = cell.v
                if isinstance(v, Struct):
                    c = list(v.f.values())[i]
                elif isinstance(v, list):
                    c = v[i] if isinstance(v[i], Cell) else Cell(v[i])
                else:
                    c = Cell(Sym('?'))
                env[b['id']] = c

    def switch(self, n, env):
        c = kids(n)
        v = self.ev(c[0], env)
        flat = []

        def expand(s):
            if s['kind'] in ('CaseStmt', 'DefaultStmt'):
                flat.append((s, None))
                expand(kids(s)[-1])
            else:
                flat.append((None, s))
        for s in kids(c[-1]):
            expand(s)
        start = None
        for i, (lab, _) in enumerate(flat):
            if lab and lab['kind'] == 'CaseStmt':
                w = self.ev(kids(lab)[0], env)
                if isinstance(v, Sym) or isinstance(w, Sym):
                    hit = self.truth(Sym(f"{v}=={w}"), lab)
                else:
                    hit = v == w
                if hit:
                    start = i
                    break
        if start is None:
            start = next((i for i, (lab, _) in enumerate(flat) if lab and lab['kind'] == 'DefaultStmt'), None)
        if start is None:
            return
        try:
            for lab, s in flat[start:]:
                if s is not None:
                    self.stmt(s, env)
        except Break:
            pass

    def declare(self, d, env):
        k = d['kind']
        if k in ('VarDecl', 'DecompositionDecl'):
            t = d['type']['qualType']
            c = [x for x in kids(d) if x['kind'] != 'BindingDecl' and not x['kind'].endswith('Attr')]
            if t.rstrip().endswith('&') and c:
                self.bind(d, self.lval(c[0], env), env)
                return
            if c:
                v = self.copy_value(self.ev(c[0], env), t)
            else:
                v = self.default_of(t, d)
            if v is None or (isinstance(v, Sym) and self.msg_type(t) and '*' not in t):
                v = self.default_of(t, d) if '*' not in t else v
            self.bind(d, Cell(v), env)
        elif k in ('CXXRecordDecl',):
            self.src.records[d['id']] = d
            if d.get('name'):
                self.src.records[d['name']] = d

    def default_of(self, t, node=None):
        q = self.msg_type(t)
        if q and '*' not in t:
            return Msg(q, self.place(node))
        b = strip_ns(t)
        if re.search(r'\b(vector|array|list|deque|set|initializer_list)<|\[\d*\]$', b):
            return []
        if re.search(r'\b(map|unordered_map)<', b):
            return {}
        if 'string' in b and 'stream' not in b:
            return ''
        if 'stringstream' in b or 'ostringstream' in b:
            return Stream()
        r = self.record_of(t)
        if r is not None:
            return self.make_struct(r, [])
        if re.fullmatch(r'(unsigned |signed |const )*(int|long|short|char|bool|double|float|size_t|u?int\d+_t|long long)', b.strip()):
            return 0
        return Sym('?')

    def record_of(self, t):
        b = re.sub(r'\b(const|struct|class)\b|[&*]', '', strip_ns(t)).strip()
        b = re.sub(r'\[\d*\]$', '', b).strip()
        return self.src.records.get(b) or next((r for n, r in self.src.records.items() if n and b and (n.endswith('::' + b) or b.endswith('::' + n))), None)

    def make_struct(self, rec, vals):
        fs = [f for f in kids(rec) if f['kind'] == 'FieldDecl']
        d = {}
        for i, f in enumerate(fs):
            if i < len(vals) and vals[i] is not None:
                v = vals[i]
            elif kids(f):
                v = self.ev(kids(f)[0], {})
            else:
                v = self.default_of(f['type']['qualType'])
            d[f['name']] = Cell(v)
        return Struct(d)

    # ---- expressions
    def truth(self, v, node=None):
        if isinstance(v, Sym):
            if self.decide is None:
                raise AnalysisBroken(f"the generator depends on {v}")
            return self.decide(v)
        if isinstance(v, (Msg, Struct, Ptr, Closure, Stream)):
            return True
        return bool(v)

    def place(self, node=None):
        at = node.get('_at') if node else None
        return at

    def lval(self, n, env):
        k = n['kind']
        if k in TRANSPARENT and kids(n) and not (k == 'ImplicitCastExpr' and n.get('castKind') == 'LValueToRValue'):
            if n.get('castKind') in ('UserDefinedConversion', 'ConstructorConversion'):
                return Cell(self.ev(n, env))
            return self.lval(kids(n)[0], env)
        if k == 'DeclRefExpr':
            c = self.ref(n, env)
            return c if isinstance(c, Cell) else Cell(c)
        if k == 'UnaryOperator' and n['opcode'] == '*':
            v = self.ev(kids(n)[0], env)
            if isinstance(v, Ptr):
                if v.cell is not None:
                    return v.cell
                if v.seq is not None and 0 <= v.i < len(v.seq):
                    x = v.seq[v.i]
                    return x if isinstance(x, Cell) else Cell(x)
                return Cell(Sym('?'))
            return Cell(v)
        if k == 'UnaryOperator' and n['opcode'] in ('++', '--') and not n.get('isPostfix'):
            self.ev(n, env)
            return self.lval(kids(n)[0], env)
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n['opcode'].endswith('=') and n['opcode'] not in ('==', '!=', '<=', '>='):
            self.ev(n, env)
            return self.lval(kids(n)[0], env)
        if k == 'MemberExpr':
            b = self.ev(kids(n)[0], env) if kids(n) else None
            if isinstance(b, Ptr):
                b = b.cell.v if b.cell else (b.seq[b.i] if b.seq is not None and b.i < len(b.seq) else Sym('?'))
                b = b.v if isinstance(b, Cell) else b
            nm = n.get('name', '').lstrip('->.')
            if isinstance(b, Struct):
                return b.f.setdefault(nm, Cell(Sym('?')))
            return Cell(Sym(f"{b}.{nm}"))
        if k == 'ArraySubscriptExpr':
            b, i = (self.ev(c, env) for c in kids(n))
            if isinstance(i, list):
                b, i = i, b
            return self.index(b, i)
        if k == 'CXXOperatorCallExpr':
            v = self.ev(n, env, want_cell=True)
            return v if isinstance(v, Cell) else Cell(v)
        if k in ('CallExpr', 'CXXMemberCallExpr'):
            v = self.ev(n, env, want_cell=True)
            return v if isinstance(v, Cell) else Cell(v)
        if k == 'ConditionalOperator':
            c = kids(n)
            return self.lval(c[1] if self.truth(self.ev(c[0], env), n) else c[2], env)
        return Cell(self.ev(n, env))

    def index(self, b, i):
        if isinstance(b, list) and isinstance(i, (int, float)) and 0 <= int(i) < len(b):
            x = b[int(i)]
            if isinstance(x, Cell):
                return x
            if isinstance(x, (Msg, Struct, list)):
                return Cell(x)
            c = Cell(x)
            b[int(i)] = c
            return c
        if isinstance(b, dict) and not isinstance(i, Sym):
            c = b.get(i)
            if not isinstance(c, Cell):
                c = Cell(c if c is not None else '')
                b[i] = c
            return c
        if isinstance(b, Ptr) and b.seq is not None and isinstance(i, int):
            return self.index(b.seq, b.i + i)
        return Cell(Sym('?'))

    def ref(self, n, env):
        d = n['referencedDecl']
        k, i = d['kind'], d['id']
        if i in env:
            return env[i]
        if k == 'EnumConstantDecl':
            nm = d['name']
            e = self.enums.get(nm)
            if e is None:
                t = strip_ns(n['type']['qualType'])
                e = next(((q, v) for q, vs in self.protos.enums.items() for v in vs if v == nm and
                          ('::'.join(self._cxx(q)[1]) in t or '_'.join(self._cxx(q)[1]) in t)), None)
            return Cell(e[1]) if e else Cell(nm)
        if k in ('VarDecl', 'BindingDecl'):
            if i in self.globals:
                return self.globals[i]
            if i in self.src.vars:
                v = self.src.vars[i]
                c = [x for x in kids(v) if not x['kind'].endswith('Attr')]
                self.globals[i] = Cell(self.ev(c[0], {}) if c else self.default_of(v['type']['qualType']))
                return self.globals[i]
            # static constants of the generated message classes: kpex::tech::ProcessStackInfo::LAYER_TYPE_METAL
            e = self.enum_by_type(d['name'], strip_ns(n['type']['qualType']))
            return Cell(e if e is not None else Sym(d['name']))
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            key, tu = self.src.by_id.get(i, (None, None))
            f = self.src.local.get((tu, key)) or self.src.funcs.get(key) if key else None
            if f is not None:
                return Cell(f)
            return Cell(Sym('fn:' + d.get('name', '?')))
        return Cell(Sym(d.get('name', '?')))

    def enum_by_type(self, nm, t):
        t = re.sub(r'\bconst\b', '', t).strip()
        for q, vs in self.protos.enums.items():
            pk, names = self._cxx(q)
            if nm in vs and (t.endswith('_'.join(names)) or t.endswith('::'.join(names))):
                return nm
        hits = {nm for q, vs in self.protos.enums.items() if nm in vs}
        return nm if hits else None

    def ev(self, n, env, want_cell=False):
        k = n['kind']
        if k in TRANSPARENT:
            c = kids(n)
            if not c:
                return Sym('?')
            v = self.ev(c[0], env)
            ck = n.get('castKind')
            if isinstance(v, Cell):
                v = v.v
            if ck in ('FloatingToIntegral',) and isinstance(v, float):
                return int(v)
            if ck == 'IntegralToFloating' and isinstance(v, int):
                return float(v)
            if ck == 'IntegralCast' and isinstance(v, int) and not isinstance(v, bool):
                t = n['type'].get('desugaredQualType') or n['type']['qualType']
                m = re.search(r'uint(\d+)|unsigned (int|long|short|char)|size_t', t)
                if m and v < 0:
                    bits = int(m.group(1)) if m.group(1) else {'int': 32, 'short': 16, 'char': 8}.get(m.group(2), 64)
                    return v % (1 << bits)
            if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean') and isinstance(v, (int, float)):
                return bool(v)
            if k == 'CXXFunctionalCastExpr' and isinstance(v, list):
                r = self.record_of(n['type']['qualType'])
                if r is not None:
                    return self.make_struct(r, v)
            return v
        if k == 'IntegerLiteral':
            return int(n['value'])
        if k == 'FloatingLiteral':
            return float(n['value'])
        if k == 'StringLiteral':
            return json.loads(n['value']) if n['value'].startswith('"') else n['value']
        if k == 'CXXBoolLiteralExpr':
            return bool(n['value'])
        if k == 'CharacterLiteral':
            return n['value']
        if k == 'CXXNullPtrLiteralExpr' or k == 'GNUNullExpr':
            return None
        if k == 'DeclRefExpr':
            return self.ref(n, env).v
        if k == 'UnaryOperator':
            return self.unary(n, env)
        if k == 'BinaryOperator':
            return self.binary(n, env)
        if k == 'CompoundAssignOperator':
            c = kids(n)
            cell = self.lval(c[0], env)
            cell.v = self.arith(n['opcode'][:-1], cell.v, self.ev(c[1], env))
            return cell.v
        if k == 'ConditionalOperator':
            c = kids(n)
            return self.ev(c[1] if self.truth(self.ev(c[0], env), n) else c[2], env)
        if k == 'CallExpr':
            return self.call_expr(n, env, want_cell)
        if k == 'CXXMemberCallExpr':
            return self.member_call(n, env, want_cell)
        if k == 'CXXOperatorCallExpr':
            return self.operator_call(n, env, want_cell)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return self.construct(n, env)
        if k == 'InitListExpr':
            return self.init_list(n, env)
        if k == 'CXXDefaultArgExpr':
            c = kids(n)
            return self.ev(c[0], env) if c else Sym('default')
        if k == 'LambdaExpr':
            rec = kids(n)[0]
            op = next((m for m in kids(rec) if m['kind'] == 'CXXMethodDecl' and m.get('name') == 'operator()'), None)
            if op is None:
                for m in kids(rec):
                    if m['kind'] == 'FunctionTemplateDecl':
                        op = next((x for x in kids(m) if x['kind'] == 'CXXMethodDecl' and any(y['kind'] == 'CompoundStmt' for y in kids(x))), None)
            return Closure(op, env) if op is not None else Sym('lambda')
        if k in ('MemberExpr', 'ArraySubscriptExpr'):
            return self.lval(n, env).v
        if k == 'CXXScalarValueInitExpr' or k == 'ImplicitValueInitExpr':
            return self.default_of(n['type']['qualType'])
        if k == 'CXXNewExpr':
            q = self.msg_type(n['type']['qualType'])
            return Msg(q, self.place(n)) if q else Sym('new')
        if k == 'CXXThisExpr':
            return Sym('this')
        if k == 'CXXThrowExpr':
            raise Return(Sym('throw'))
        if k in ('UnaryExprOrTypeTraitExpr',):
            return self.size_of(n, env)
        if k.endswith('Stmt'):
            self.stmt(n, env)
            return None
        for c in kids(n):
            if c['kind'].endswith(('Expr', 'Operator', 'Literal')):
                self.ev(c, env)
        return Sym('?' + k)

    def size_of(self, n, env):
        t = None
        c = kids(n)
        if c:
            t = c[0]['type']['qualType']
        elif n.get('argType'):
            t = n['argType']['qualType']
        m = re.search(r'\[(\d+)\]$', t or '')
        return int(m.group(1)) if m else 1        # only the quotient of sizes is meaningful

    def unary(self, n, env):
        op = n['opcode']
        c = kids(n)[0]
        if op in ('++', '--'):
            cell = self.lval(c, env)
            old = cell.v
            if isinstance(old, Ptr):
                cell.v = Ptr(old.cell, old.seq, old.i + (1 if op == '++' else -1))
            else:
                cell.v = self.arith('+' if op == '++' else '-', old, 1)
            return old if n.get('isPostfix') else cell.v
        if op == '&':
            cell = self.lval(c, env)
            if isinstance(cell.v, (Msg, Struct, Stream)):
                return cell.v
            return Ptr(cell=cell)
        if op == '*':
            return self.lval(n, env).v
        v = self.ev(c, env)
        if isinstance(v, Sym):
            return Sym(f"{op}{v.name}")
        if op == '-':
            return -v
        if op == '!':
            return not self.truth(v, n)
        if op == '~':
            return ~v
        return v

    def binary(self, n, env):
        op = n['opcode']
        a, b = kids(n)
        if op == '=':
            cell = self.lval(a, env)
            v = self.copy_value(self.ev(b, env), a['type']['qualType'])
            cell.v = v
            return v
        if op == ',':
            self.ev(a, env)
            return self.ev(b, env)
        x = self.ev(a, env)
        if op == '&&':
            return self.truth(x, a) and self.truth(self.ev(b, env), b)
        if op == '||':
            return self.truth(x, a) or self.truth(self.ev(b, env), b)
        return self.arith(op, x, self.ev(b, env), n)

    def arith(self, op, x, y, n=None):
        if isinstance(x, Ptr) and isinstance(y, int) and op in '+-':
            return Ptr(x.cell, x.seq, x.i + (y if op == '+' else -y))
        if isinstance(x, list) and isinstance(y, int) and op == '+':
            return Ptr(seq=x, i=y)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if op in ('==', '!='):
                return (x == y) == (op == '==')
            if x.seq is y.seq and x.seq is not None:
                x, y = x.i, y.i
        if op == '==':
            return Sym(f"{x}=={y}") if isinstance(x, Sym) or isinstance(y, Sym) else self.same(x, y)
        if op == '!=':
            return Sym(f"{x}!={y}") if isinstance(x, Sym) or isinstance(y, Sym) else not self.same(x, y)
        if isinstance(x, Sym) or isinstance(y, Sym) or x is None or y is None:
            return Sym(f"({x} {op} {y})")
        try:
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*':
                return x * y
            if op == '/':
                if isinstance(x, int) and isinstance(y, int):
                    return int(x / y)
                return x / y
            if op == '%':
                return int(math.fmod(x, y))
            if op == '<':
                return x < y
            if op == '>':
                return x > y
            if op == '<=':
                return x <= y
            if op == '>=':
                return x >= y
            if op == '<<':
                return x << y
            if op == '>>':
                return x >> y
            if op == '|':
                return x | y
            if op == '&':
                return x & y
        except (TypeError, ZeroDivisionError):
            pass
        return Sym(f"({x} {op} {y})")

    def same(self, x, y):
        if isinstance(x, (Msg, Struct, Closure)) or isinstance(y, (Msg, Struct, Closure)):
            return x is y
        return x == y

    def construct(self, n, env):
        t = n['type']['qualType']
        c = [x for x in kids(n)]
        q = self.msg_type(t)
        if q and '*' not in t:
            if c:
                v = self.ev(c[0], env)
                if isinstance(v, Msg):
                    return v.copy()
            return Msg(q, self.place(n))
        if not c:
            return self.default_of(t, n)
        b = strip_ns(n['type'].get('desugaredQualType') or t)
        vals = [self.ev(x, env) for x in c if x['kind'] != 'CXXDefaultArgExpr']
        if re.search(r'(^|::|\s)(pair|tuple)<', b) and not (len(vals) == 1 and isinstance(vals[0], (Struct, list))):
            names = ['first', 'second'] if re.search(r'(^|::|\s)pair<', b) else [f"_{i}" for i in range(len(vals))]
            return Struct({k: Cell(v) for k, v in zip(names, vals)})
        if re.search(r'(^|::|\s)(map|unordered_map)<', b) and vals and isinstance(vals[0], list):
            d = {}
            for x in vals[0]:
                x = x.v if isinstance(x, Cell) else x
                if isinstance(x, Struct):
                    ks = list(x.f.values())
                    d.setdefault(ks[0].v, ks[1].v)
                elif isinstance(x, list):
                    d.setdefault(x[0], x[1])
            return d
        if re.search(r'(^|::|\s)(vector|deque|list)<', b) and len(vals) == 2 and isinstance(vals[0], Ptr) and isinstance(vals[1], Ptr):
            return list(vals[0].seq[vals[0].i:vals[1].i])
        if vals:
            v = vals[0]
            if isinstance(v, list):
                r = self.record_of(t)
                if r is not None:
                    return self.make_struct(r, v)
                return list(v)
            return v
        return self.default_of(t, n)

    def init_list(self, n, env):
        t = n['type'].get('desugaredQualType') or n['type']['qualType']
        c = kids(n)
        if n.get('array_filler'):
            c = [x for x in n['array_filler'] if x.get('kind') and x['kind'] != 'ImplicitValueInitExpr']
        vals = [self.ev(x, env) for x in c]
        r = self.record_of(n['type']['qualType'])
        if r is not None and '[' not in t:
            return self.make_struct(r, vals)
        if 'array<' in t and len(vals) == 1 and isinstance(vals[0], list):
            return vals[0]
        if not re.search(r'\[\d*\]$|<', t) and len(vals) == 1:
            return vals[0]
        return vals

    # ---- calls
    def call_expr(self, n, env, want_cell=False):
        c = kids(n)
        f = self.lval(c[0], env).v
        args = [x for x in c[1:]]
        if isinstance(f, Closure):
            cells = [self.lval(a, env) for a in args]
            return self.call(f.node, cells, f.env)
        if isinstance(f, dict) and f.get('kind') in ('FunctionDecl',):
            cells = []
            for i, a in enumerate(args):
                cells.append(Cell(self.default_arg(f, i)) if a['kind'] == 'CXXDefaultArgExpr' else self.lval(a, env))
            at = self.place(n)
            rec = [f['_qual'], [x.v for x in cells], at, None, f]
            self.calls.append(rec)
            self.sites.append(at)
            try:
                rec[3] = self.call(f, cells)
            finally:
                self.sites.pop()
            return rec[3]
        nm = f.name[3:] if isinstance(f, Sym) and f.name.startswith('fn:') else None
        vals = [self.ev(a, env) for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if nm is None:
            return Sym('call')
        if nm in ('to_string',) and vals and not isinstance(vals[0], Sym):
            return f"{vals[0]:f}" if isinstance(vals[0], float) else str(vals[0])
        if nm in ('move', 'forward', 'as_const', 'ref', 'cref') and vals:
            return self.lval(args[0], env) if want_cell else vals[0]
        if nm == 'get':
            v = vals[0]
            i = self.tuple_index(c[0])
            if isinstance(v, Struct) and i is not None:
                cell = list(v.f.values())[i]
                return cell if want_cell else cell.v
            if isinstance(v, list) and i is not None:
                return v[i]
        if nm in ('make_pair', 'make_tuple'):
            names = ['first', 'second'] if nm == 'make_pair' else [f"_{i}" for i in range(len(vals))]
            return Struct({k: Cell(v) for k, v in zip(names, vals)})
        if nm in ('max', 'min') and len(vals) == 2 and not any(isinstance(v, Sym) for v in vals):
            return (max if nm == 'max' else min)(vals)
        if nm in ('size', 'ssize') and isinstance(vals[0], list):
            return len(vals[0])
        if nm in ('begin', 'cbegin') and isinstance(vals[0], list):
            return Ptr(seq=vals[0], i=0)
        if nm in ('end', 'cend') and isinstance(vals[0], list):
            return Ptr(seq=vals[0], i=len(vals[0]))
        if nm in ('fabs', 'abs', 'sqrt', 'pow', 'floor', 'ceil', 'round') and not any(isinstance(v, Sym) for v in vals):
            return {'fabs': abs, 'abs': abs, 'sqrt': math.sqrt, 'pow': pow, 'floor': math.floor, 'ceil': math.ceil, 'round': round}[nm](*vals)
        if nm == 'for_each' and len(vals) == 3 and isinstance(vals[0], Ptr):
            for i in range(vals[0].i, vals[1].i):
                x = vals[0].seq[i]
                self.invoke(vals[2], [x if isinstance(x, Cell) else Cell(x)])
            return vals[2]
        if nm == 'ShutdownProtobufLibrary' or nm == 'VerifyVersion':
            return None
        return Sym(f"{nm}({', '.join(map(repr, vals))})")

    def invoke(self, f, cells):
        if isinstance(f, Closure):
            return self.call(f.node, cells, f.env)
        if isinstance(f, dict):
            return self.call(f, cells)
        return Sym('call')

    def tuple_index(self, callee):
        s = json.dumps(callee.get('type', {}))
        d = callee
        while d.get('kind') != 'DeclRefExpr' and kids(d):
            d = kids(d)[0]
        for x in (d.get('foundReferencedDecl'), d.get('referencedDecl')):
            m = re.search(r'__tuple_element_t<(\d+)|tuple_element<(\d+)', json.dumps((x or {}).get('type', {})) + s)
            if m:
                return int(m.group(1) or m.group(2))
        return None

    def base_of(self, n, env):
        m = kids(n)[0]
        while m['kind'] in TRANSPARENT:
            m = kids(m)[0]
        if m['kind'] != 'MemberExpr':
            return None, None, None
        b = self.lval(kids(m)[0], env)
        v = b.v
        if isinstance(v, Ptr):
            x = v.cell if v.cell is not None else (v.seq[v.i] if v.seq is not None and v.i < len(v.seq) else None)
            b = x if isinstance(x, Cell) else Cell(x)
            v = b.v
        return m['name'], v, b

    def member_call(self, n, env, want_cell=False):
        name, obj, cell = self.base_of(n, env)
        args = [a for a in kids(n)[1:] if a['kind'] != 'CXXDefaultArgExpr']
        if name is None:
            return Sym('?')
        if isinstance(obj, Msg):
            return self.msg_call(n, name, obj, [self.ev(a, env) for a in args])
        vals = [self.ev(a, env) for a in args]
        if isinstance(obj, list):
            if name in ('push_back', 'emplace_back'):
                v = vals[0] if len(vals) == 1 else Struct({f"_{i}": Cell(v) for i, v in enumerate(vals)})
                obj.append(self.copy_value(v, ''))
                return obj[-1]
            if name in ('size', 'length'):
                return len(obj)
            if name == 'empty':
                return not obj
            if name in ('begin', 'cbegin'):
                return Ptr(seq=obj, i=0)
            if name in ('end', 'cend'):
                return Ptr(seq=obj, i=len(obj))
            if name in ('at', 'operator[]'):
                c = self.index(obj, vals[0])
                return c if want_cell else c.v
            if name in ('front', 'back') and obj:
                x = obj[0 if name == 'front' else -1]
                return x.v if isinstance(x, Cell) and not want_cell else x
            if name in ('clear',):
                obj.clear()
                return None
            if name in ('reserve', 'shrink_to_fit'):
                return None
        if isinstance(obj, dict) and 'kind' not in obj:
            if name in ('at', 'operator[]'):
                c = self.index(obj, vals[0])
                return c if want_cell else c.v
            if name in ('size',):
                return len(obj)
            if name in ('count', 'contains'):
                return int(vals[0] in obj)
        if isinstance(obj, str):
            if name in ('c_str', 'data', 'str'):
                return obj
            if name in ('size', 'length'):
                return len(obj)
            if name == 'empty':
                return obj == ''
            if name == 'substr' and not any(isinstance(v, Sym) for v in vals):
                return obj[vals[0]:vals[0] + vals[1]] if len(vals) > 1 else obj[vals[0]:]
            if name == 'append' and vals:
                cell.v = self.arith('+', obj, vals[0])
                return cell if want_cell else cell.v
            if name.startswith('operator basic_string_view') or name.startswith('operator'):
                return obj
        if isinstance(obj, Stream):
            if name == 'str':
                return ''.join(map(str, obj.parts)) if all(not isinstance(p, Sym) for p in obj.parts) else Sym('stream')
        if isinstance(obj, Closure) or (isinstance(obj, dict) and obj.get('kind') == 'FunctionDecl'):
            return self.invoke(obj, [Cell(v) for v in vals])
        if isinstance(obj, Sym) and name in ('string', 'c_str', 'str'):
            return obj
        return Sym(f"{obj}.{name}({', '.join(map(repr, vals))})")

    def msg_call(self, n, name, m, vals):
        fs = self.protos.messages[m.qual]
        low = {f.lower(): f for f in fs}
        at = self.place(n)

        def fld(prefix):
            return low.get(name[len(prefix):].lower()) if name.startswith(prefix) else None
        f = fld('set_')
        if f and len(vals) == 1:
            t, rep = fs[f]
            m.f[f] = vals[0]
            m.set_at[f] = self.site(at)
            return None
        if f and len(vals) == 2:
            m.f.setdefault(f, [])
            if isinstance(vals[0], int) and vals[0] < len(m.f[f]):
                m.f[f][vals[0]] = vals[1]
            return None
        f = fld('add_')
        if f:
            t, rep = fs[f]
            if t in self.protos.messages:
                x = Msg(t, self.site(at))
                x.by = self.stack_place()
                m.f.setdefault(f, []).append(x)
                return x
            m.f.setdefault(f, []).append(vals[0] if vals else Sym('?'))
            return None
        f = fld('mutable_')
        if f:
            t, rep = fs[f]
            if rep:
                lst = m.f.setdefault(f, [])
                if vals:
                    return lst[vals[0]]
                return lst
            if f not in m.f:
                m.f[f] = Msg(t, self.site(at))
                m.f[f].by = self.stack_place()
            m.set_at.setdefault(f, at)
            return m.f[f]
        f = fld('clear_')
        if f:
            m.f.pop(f, None)
            return None
        f = fld('has_')
        if f:
            return f in m.f
        if name.endswith('_size') and low.get(name[:-5].lower()):
            return len(m.f.get(low[name[:-5].lower()], []))
        f = fld('set_allocated_')
        if f:
            m.f[f] = vals[0]
            return None
        if name.lower() in low:
            f = low[name.lower()]
            t, rep = fs[f]
            v = m.f.get(f)
            if rep:
                v = m.f.setdefault(f, [])
                return v[vals[0]] if vals and isinstance(vals[0], int) else v
            if v is None:
                return Msg(t, at) if t in self.protos.messages else '' if t == 'string' else 0
            return v
        if name in ('CopyFrom', 'MergeFrom', 'operator=') and vals and isinstance(vals[0], Msg):
            c = vals[0].copy()
            if name == 'MergeFrom':
                for k, v in c.f.items():
                    if isinstance(v, list):
                        m.f.setdefault(k, []).extend(v)
                    else:
                        m.f[k] = v
            else:
                m.f = c.f
            return None
        if name == 'Clear':
            m.f = {}
            return None
        if name == 'Add' or name.startswith(('Serialize', 'Parse', 'DebugString', 'IsInit', 'ByteSize', 'GetTypeName', 'Descriptor')):
            return Sym(f"message.{name}")
        raise AnalysisBroken(f"{m.qual}.{name} is not understood")

    def stack_place(self):
        return [q for q, _ in self.stack]

    def site(self, at):
        """where a helper of another file was called"""
        if at and self.sites and self.sites[-1] and self.sites[-1][0] != at[0]:
            return self.sites[-1]
        return at

    def operator_call(self, n, env, want_cell=False):
        c = kids(n)
        f = c[0]
        d = f
        while d.get('kind') != 'DeclRefExpr' and kids(d):
            d = kids(d)[0]
        op = (d.get('referencedDecl') or {}).get('name', '')[len('operator'):]
        if op == '()':
            obj = self.ev(c[1], env)
            cells = [self.lval(a, env) for a in c[2:]]
            return self.invoke(obj, cells)
        if op == '[]':
            b, i = self.ev(c[1], env), self.ev(c[2], env)
            cell = self.index(b, i)
            return cell if want_cell else cell.v
        if op == '<<':
            a = self.ev(c[1], env)
            if isinstance(a, Stream):
                a.parts.append(self.ev(c[2], env))
                return a
            if isinstance(a, Sym):
                self.ev(c[2], env)
                return a
        if op == '=':
            cell = self.lval(c[1], env)
            v = self.ev(c[2], env)
            if isinstance(cell.v, Msg) and isinstance(v, Msg):
                cell.v.f = v.copy().f
            else:
                cell.v = self.copy_value(v, c[1]['type']['qualType'])
            return cell if want_cell else cell.v
        if op in ('+=', '-='):
            cell = self.lval(c[1], env)
            cell.v = self.arith(op[0], cell.v, self.ev(c[2], env))
            return cell if want_cell else cell.v
        if op in ('++', '--'):
            cell = self.lval(c[1], env)
            old = cell.v
            cell.v = Ptr(old.cell, old.seq, old.i + (1 if op == '++' else -1)) if isinstance(old, Ptr) else self.arith(op[0], old, 1)
            return old if len(c) > 2 else cell.v
        if op in ('*', '->') and len(c) == 2:
            v = self.ev(c[1], env)
            if isinstance(v, Ptr):
                x = v.cell if v.cell is not None else (v.seq[v.i] if v.seq is not None and v.i < len(v.seq) else Sym('?'))
                if isinstance(x, Cell):
                    return x if want_cell else x.v
                return x
            return v
        vals = [self.ev(a, env) for a in c[1:]]
        if len(vals) == 2 and op in ('+', '-', '*', '/', '==', '!=', '<', '>', '<=', '>='):
            return self.arith(op, *vals)
        return Sym(f"operator{op}({', '.join(map(repr, vals))})")
