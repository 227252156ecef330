"""Program model of the analysed Python code: modules, classes, functions, imports, type annotations,
and the message schema parsed from the .proto files.  Pure syntax: nothing of the analysed code is
imported or executed."""
from __future__ import annotations
import ast
import os
import re
from dataclasses import dataclass, field
from typing import Dict, List, Optional, Tuple

from .canon import canonical


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (vanished anchor, unparsable source ...): error exit."""


# ---------------------------------------------------------------- types
# ('cls', qualname) | ('list', T) | ('set', T) | ('dict', K, V) | ('tuple', [T..]) | None

def tcls(q):
    return ('cls', q)


@dataclass
class Func:
    qual: str                       # klayout_pex.mod.Class.name
    name: str
    node: ast.AST                   # FunctionDef / AsyncFunctionDef / Lambda
    module: 'Module'
    cls: Optional['Class'] = None
    kind: str = 'function'          # function | method | classmethod | staticmethod | property

    @property
    def params(self) -> List[str]:
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args] + \
               ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + \
               ([a.kwarg.arg] if a.kwarg else [])

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"


@dataclass
class Class:
    qual: str
    name: str
    node: ast.ClassDef
    module: 'Module'
    bases: List[str] = field(default_factory=list)      # resolved dotted names
    methods: Dict[str, Func] = field(default_factory=dict)
    ann: Dict[str, ast.expr] = field(default_factory=dict)       # annotated class-level names
    ann_order: List[str] = field(default_factory=list)
    consts: Dict[str, ast.expr] = field(default_factory=dict)    # class-level assigned names
    inner: Dict[str, 'Class'] = field(default_factory=dict)
    is_dataclass: bool = False
    frozen: bool = False
    is_enum: bool = False
    attr_types: Dict[str, object] = field(default_factory=dict)


class Module:
    def __init__(self, name: str, path: str, rel: str, src: str, is_pkg: bool):
        self.name, self.path, self.rel, self.src, self.is_pkg = name, path, rel, src, is_pkg
        self.tree = canonical(ast.parse(src, filename=path))
        self.imports: Dict[str, str] = {}           # local name -> dotted target
        self.functions: Dict[str, Func] = {}
        self.classes: Dict[str, Class] = {}
        self.consts: Dict[str, ast.expr] = {}
        self.star: List[str] = []


def _dotted(node) -> Optional[str]:
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return '.'.join(reversed(parts))
    return None


class Program:
    def __init__(self, repo: str, packages=('klayout_pex',), extra_files=()):
        self.repo = repo
        self.modules: Dict[str, Module] = {}
        self.funcs: Dict[str, Func] = {}
        self.classes: Dict[str, Class] = {}
        for pkg in packages:
            base = os.path.join(repo, pkg)
            for d, dirs, files in sorted(os.walk(base)):
                dirs[:] = sorted(x for x in dirs if x != '__pycache__')
                for f in sorted(files):
                    if f.endswith('.py') and not f.endswith('_pb2.py'):
                        self._load(os.path.join(d, f))
        for f in extra_files:
            p = os.path.join(repo, f)
            if os.path.exists(p):
                self._load(p)
        for m in self.modules.values():
            self._index(m)
        for m in self.modules.values():
            self._resolve_star(m)
        for c in self.classes.values():
            c.bases = [self.resolve_expr_name(b, c.module) or '?' for b in c.node.bases]
        for c in self.classes.values():
            c.is_enum = any(b.split('.')[-1] in ('Enum', 'IntEnum', 'StrEnum', 'Flag', 'IntFlag')
                            for b in self._all_bases(c))
        self.protos = ProtoSchema(os.path.join(repo, 'protos'))
        for c in self.classes.values():
            self._infer_attr_types(c)

    # -------------------------------------------------- loading
    def _load(self, path):
        rel = os.path.relpath(path, self.repo)
        parts = rel[:-3].split(os.sep)
        is_pkg = parts[-1] == '__init__'
        if is_pkg:
            parts = parts[:-1]
        name = '.'.join(parts)
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        try:
            self.modules[name] = Module(name, path, rel, src, is_pkg)
        except SyntaxError as e:
            raise AnalysisBroken(f"{rel}: does not parse: {e}")

    def _index(self, m: Module):
        def walk_top(body):
            for n in body:
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._add_import(m, n)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(f"{m.name}.{n.name}", n.name, n, m)
                    m.functions[n.name] = f
                    self.funcs[f.qual] = f
                elif isinstance(n, ast.ClassDef):
                    m.classes[n.name] = self._index_class(m, n, m.name)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            m.consts[t.id] = n.value
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value:
                    m.consts[n.target.id] = n.value
                elif isinstance(n, (ast.If, ast.Try)):
                    walk_top(n.body)
                    for h in getattr(n, 'handlers', []):
                        walk_top(h.body)
                    walk_top(n.orelse)
        walk_top(m.tree.body)

    def _index_class(self, m, n, prefix) -> Class:
        c = Class(f"{prefix}.{n.name}", n.name, n, m)
        self.classes[c.qual] = c
        for d in n.decorator_list:
            dn = _dotted(d.func if isinstance(d, ast.Call) else d) or ''
            if dn.split('.')[-1] == 'dataclass':
                c.is_dataclass = True
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg == 'frozen' and isinstance(k.value, ast.Constant) and k.value.value:
                            c.frozen = True
        for b in n.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                kind = 'method'
                for d in b.decorator_list:
                    dn = (_dotted(d.func if isinstance(d, ast.Call) else d) or '').split('.')[-1]
                    if dn in ('property', 'cached_property'):
                        kind = 'property'
                    elif dn in ('classmethod', 'staticmethod'):
                        kind = dn
                    elif dn == 'setter':
                        kind = 'setter'
                f = Func(f"{c.qual}.{b.name}", b.name, b, m, c, kind)
                if kind == 'setter':
                    continue
                c.methods[b.name] = f
                self.funcs[f.qual] = f
            elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                c.ann[b.target.id] = b.annotation
                c.ann_order.append(b.target.id)
                if b.value is not None:
                    c.consts[b.target.id] = b.value
            elif isinstance(b, ast.Assign):
                for t in b.targets:
                    if isinstance(t, ast.Name):
                        c.consts[t.id] = b.value
            elif isinstance(b, ast.ClassDef):
                c.inner[b.name] = self._index_class(m, b, c.qual)
        return c

    def _add_import(self, m: Module, n):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    m.imports[a.asname] = a.name
                else:
                    m.imports[a.name.split('.')[0]] = a.name.split('.')[0]
        else:
            base = n.module or ''
            if n.level:
                parts = m.name.split('.')
                if not m.is_pkg:
                    parts = parts[:-1]
                parts = parts[:len(parts) - (n.level - 1)]
                base = '.'.join(parts + ([n.module] if n.module else []))
            for a in n.names:
                if a.name == '*':
                    m.star.append(base)
                else:
                    m.imports[a.asname or a.name] = f"{base}.{a.name}"

    def _resolve_star(self, m: Module):
        for base in m.star:
            t = self.modules.get(base)
            if t is None:
                continue
            for k in list(t.functions) + list(t.classes) + list(t.consts) + list(t.imports):
                if k not in m.imports and k not in m.functions and k not in m.classes:
                    m.imports[k] = f"{base}.{k}"

    # -------------------------------------------------- name resolution
    def canonical(self, dotted: str, depth=0) -> str:
        """Follow re-exports: klayout_pex.log.info -> klayout_pex.log.logger.info."""
        if depth > 8:
            return dotted
        if dotted in self.modules or dotted in self.funcs or dotted in self.classes:
            return dotted
        parts = dotted.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod = '.'.join(parts[:i])
            m = self.modules.get(mod)
            if m is None:
                continue
            head, rest = parts[i], parts[i + 1:]
            if head in m.functions or head in m.classes or head in m.consts:
                return dotted
            if head in m.imports:
                return self.canonical('.'.join([m.imports[head]] + rest), depth + 1)
            return dotted
        return dotted

    def resolve_name(self, name: str, m: Module) -> Optional[str]:
        if name in m.functions or name in m.classes or name in m.consts:
            return f"{m.name}.{name}"
        if name in m.imports:
            return self.canonical(m.imports[name])
        return None

    def resolve_expr_name(self, node, m: Module, cls: Optional[Class] = None) -> Optional[str]:
        if isinstance(node, ast.Subscript):
            node = node.value
        d = _dotted(node)
        if d is None:
            return None
        head, _, rest = d.partition('.')
        if cls is not None:
            c = cls
            if head in c.inner:
                return self.canonical('.'.join([c.inner[head].qual] + ([rest] if rest else [])))
            if head == c.name:
                return self.canonical('.'.join([c.qual] + ([rest] if rest else [])))
            outer = c.qual.rsplit('.', 1)[0]
            if outer in self.classes:
                oc = self.classes[outer]
                if head in oc.inner:
                    return self.canonical('.'.join([oc.inner[head].qual] + ([rest] if rest else [])))
        r = self.resolve_name(head, m)
        if r is None:
            return d if head in ('int', 'float', 'str', 'bool', 'bytes', 'dict', 'list', 'set', 'tuple',
                                 'object', 'Exception') else None
        return self.canonical(f"{r}.{rest}" if rest else r)

    def _all_bases(self, c: Class, seen=None):
        seen = seen or set()
        for b in c.bases:
            if b in seen:
                continue
            seen.add(b)
            yield b
            if b in self.classes:
                yield from self._all_bases(self.classes[b], seen)

    def find_method(self, cqual: str, name: str) -> Optional[Func]:
        c = self.classes.get(cqual)
        if c is None:
            return None
        if name in c.methods:
            return c.methods[name]
        for b in c.bases:
            f = self.find_method(b, name)
            if f:
                return f
        return None

    def find_const(self, cqual: str, name: str):
        c = self.classes.get(cqual)
        if c is None:
            return None
        if name in c.consts:
            return c, c.consts[name]
        for b in c.bases:
            f = self.find_const(b, name)
            if f:
                return f
        return None

    def subclasses(self, cqual):
        return [c for c in self.classes.values() if cqual in set(self._all_bases(c))]

    def enum_members(self, cqual) -> List[str]:
        c = self.classes[cqual]
        return [k for k in c.consts if not k.startswith('_')]

    # -------------------------------------------------- types
    def parse_type(self, node, m: Module, cls: Optional[Class] = None):
        if node is None:
            return None
        if isinstance(node, ast.Constant):
            if isinstance(node.value, str):
                try:
                    return self.parse_type(ast.parse(node.value, mode='eval').body, m, cls)
                except SyntaxError:
                    return None
            return None
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            return self.parse_type(node.left, m, cls) or self.parse_type(node.right, m, cls)
        if isinstance(node, ast.Subscript):
            head = (_dotted(node.value) or '').split('.')[-1]
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            if head in ('List', 'list', 'Sequence', 'Iterable', 'Iterator', 'Generator', 'Collection',
                        'RepeatedCompositeContainer', 'RepeatedScalarContainer', 'Deque', 'deque'):
                return ('list', self.parse_type(args[0], m, cls))
            if head in ('Set', 'set', 'FrozenSet', 'frozenset'):
                return ('set', self.parse_type(args[0], m, cls))
            if head in ('Dict', 'dict', 'DefaultDict', 'defaultdict', 'Mapping', 'OrderedDict'):
                return ('dict', self.parse_type(args[0], m, cls),
                        self.parse_type(args[1], m, cls) if len(args) > 1 else None)
            if head in ('Tuple', 'tuple'):
                return ('tuple', tuple(self.parse_type(a, m, cls) for a in args))
            if head in ('Optional', 'Annotated', 'ClassVar', 'Final'):
                return self.parse_type(args[0], m, cls)
            if head == 'Union':
                for a in args:
                    t = self.parse_type(a, m, cls)
                    if t:
                        return t
            return None
        if isinstance(node, (ast.Name, ast.Attribute)):
            q = self.resolve_expr_name(node, m, cls)
            if q is None:
                return None
            # type alias?
            parts = q.rsplit('.', 1)
            if len(parts) == 2 and parts[0] in self.modules and q not in self.classes \
                    and parts[1] in self.modules[parts[0]].consts:
                v = self.modules[parts[0]].consts[parts[1]]
                if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)):
                    return self.parse_type(v, self.modules[parts[0]])
                if isinstance(v, ast.Call):
                    return None
            last = q.split('.')[-1]
            if last in ('List', 'list'):
                return ('list', None)
            if last in ('Set', 'set'):
                return ('set', None)
            if last in ('Dict', 'dict'):
                return ('dict', None, None)
            if q in ('object', 'builtins.object', 'typing.Any', 'Any'):
                return None
            return ('cls', q)
        return None

    def refined(self, old, new):
        """what is known of a value by an inferred type and an annotation"""
        if old is None or new is None:
            return old or new
        if old[0] == 'cls' and new[0] == 'cls':
            return new if new[1] in self.classes and old[1] in set(self._all_bases(self.classes[new[1]])) else old
        if old[0] != new[0]:
            return old
        if old[0] == 'tuple':
            return ('tuple', tuple(self.refined(a, b) for a, b in zip(old[1], new[1]))) if len(old[1]) == len(new[1]) else old
        return (old[0],) + tuple(self.refined(a, b) for a, b in zip(old[1:], new[1:]))

    def _infer_attr_types(self, c: Class):
        for k, a in c.ann.items():
            c.attr_types[k] = self.parse_type(a, c.module, c)
        for f in c.methods.values():
            ann = {}
            a = f.node.args
            for p in a.posonlyargs + a.args + a.kwonlyargs:
                if p.annotation is not None:
                    ann[p.arg] = self.parse_type(p.annotation, c.module, c)
            for n in ast.walk(f.node):
                tgt = None
                val = None
                t = None
                if isinstance(n, ast.AnnAssign):
                    tgt, val = n.target, n.value
                    t = self.parse_type(n.annotation, c.module, c)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1:
                    tgt, val = n.targets[0], n.value
                if isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == 'self':
                    if t is None and isinstance(val, ast.Name):
                        t = ann.get(val.id)
                    if t is None and isinstance(val, ast.Call):
                        q = self.resolve_expr_name(val.func, c.module, c)
                        if q in self.classes:
                            t = ('cls', q)
                        elif q in self.funcs:
                            t = self.return_type(self.funcs[q])
                        elif q and '.' in q:
                            t = ('cls', q)
                    if t is not None and tgt.attr not in c.attr_types:
                        c.attr_types[tgt.attr] = t

    def return_type(self, f: Func):
        r = getattr(f.node, 'returns', None)
        return self.parse_type(r, f.module, f.cls) if r is not None else None

    def attr_type(self, t, name):
        if t is None or t[0] != 'cls':
            return None
        c = self.classes.get(t[1])
        if c is not None:
            if name in c.attr_types:
                return c.attr_types[name]
            f = c.methods.get(name)
            if f and f.kind == 'property':
                return self.return_type(f)
            for b in c.bases:
                r = self.attr_type(('cls', b), name)
                if r:
                    return r
            return None
        return self.protos.field_type(t[1], name)


class ProtoSchema:
    """Messages/enums of protos/**/*.proto; keyed by the python qualname used by the repository
    (klayout_pex_protobuf.kpex.x.y_pb2.Msg.Inner)."""
    PREFIX = 'klayout_pex_protobuf.'

    def __init__(self, root):
        self.messages: Dict[str, Dict[str, Tuple[str, bool]]] = {}    # qual -> field -> (type, repeated)
        self.enums: Dict[str, Dict[str, int]] = {}
        self.files: Dict[str, str] = {}
        self.pkg_types: Dict[str, str] = {}     # 'kpex.tech.Layer' -> python qual
        self.raw_types = {}
        self.numbers = {}
        self.presence: Dict[str, List[str]] = {}    # qual -> scalar fields that HasField accepts
        self.oneofs: Dict[str, List[str]] = {}
        if not os.path.isdir(root):
            return
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith('.proto'):
                    p = os.path.join(d, f)
                    self._parse(p, os.path.relpath(p, root))
        for q, fields in self.messages.items():
            for n, (t, rep) in fields.items():
                fields[n] = (self._resolve(q, t), rep)
        for q, ns in self.presence.items():
            ns[:] = [n for n in ns if self.messages[q][n][0] not in self.messages]

    def _parse(self, path, rel):
        with open(path, encoding='utf-8') as fh:
            src = fh.read()
        src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
        src = re.sub(r'//[^\n]*', '', src)
        mod = self.PREFIX + rel[:-6].replace(os.sep, '.') + '_pb2'
        self.files[mod] = rel
        toks = re.findall(r'"[^"]*"|[A-Za-z_][\w.]*|-?\d+|[{}=;<>,\[\]()]', src)
        pkg = ''
        stack = []
        i = 0

        def cur():
            return '.'.join([mod] + [s[1] for s in stack if s[0] in ('message', 'enum')])

        while i < len(toks):
            t = toks[i]
            if t == 'package':
                pkg = toks[i + 1]
                i += 3
            elif t in ('syntax', 'import', 'option', 'reserved'):
                while toks[i] != ';':
                    i += 1
                i += 1
            elif t in ('message', 'enum') and i + 2 < len(toks) and toks[i + 2] == '{':
                stack.append((t, toks[i + 1]))
                q = cur()
                (self.messages if t == 'message' else self.enums)[q] = {}
                names = [s[1] for s in stack if s[0] != 'oneof']
                self.pkg_types['.'.join([pkg] + names)] = q
                i += 3
            elif t == 'oneof':
                stack.append(('oneof', toks[i + 1]))
                self.oneofs.setdefault(cur(), []).append(toks[i + 1])
                i += 3
            elif t == '}':
                stack.pop()
                i += 1
            elif t == ';':
                i += 1
            elif stack and stack[-1][0] == 'enum':
                self.enums[cur()][t] = int(toks[i + 2])
                while toks[i] != ';':
                    i += 1
                i += 1
            else:
                rep = False
                pres = bool(stack) and stack[-1][0] == 'oneof'
                if t in ('repeated', 'optional', 'required'):
                    rep = t == 'repeated'
                    pres = not rep
                    i += 1
                    t = toks[i]
                if t == 'map':
                    while toks[i] != '>':
                        i += 1
                    ty, name = 'map', toks[i + 1]
                else:
                    ty, name = t, toks[i + 1]
                q = cur()
                self.messages.setdefault(q, {})[name] = (ty, rep)
                if pres:
                    self.presence.setdefault(q, []).append(name)
                self.raw_types[(q, name)] = (pkg, ty)
                while toks[i] != ';':
                    i += 1
                i += 1

    SCALARS = {'double', 'float', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'bool', 'string',
               'bytes', 'fixed32', 'fixed64', 'map'}

    def _resolve(self, q, t):
        if t in self.SCALARS:
            return t
        pkg = self.raw_types and None
        rel = q[len(self.PREFIX):]
        modpart, _, rest = rel.partition('_pb2.')
        pkgname = '.'.join(modpart.split('.')[:-1])
        scope = [pkgname] + rest.split('.')
        for n in range(len(scope), 0, -1):
            cand = '.'.join(scope[:n] + [t])
            if cand in self.pkg_types:
                return self.pkg_types[cand]
        return self.pkg_types.get(t, t)

    def field_type(self, q, name):
        m = self.messages.get(q)
        if m is None or name not in m:
            return None
        t, rep = m[name]
        ty = ('cls', t) if t not in self.SCALARS else ('cls', {'string': 'str', 'bool': 'bool', 'double': 'float',
                                                               'float': 'float'}.get(t, 'int'))
        return ('list', ty) if rep else ty
