"""Value of a derived term when its leaves are given (constant folding of paths, strings and choices)."""
from __future__ import annotations
import ast
import os
from typing import *

from .vfa import T


class Unknown(Exception):
    pass


STR_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'casefold', 'capitalize', 'title', 'replace', 'startswith', 'endswith', 'split', 'rsplit',
               'partition', 'rpartition', 'removeprefix', 'removesuffix', 'join', 'format', 'get', 'with_suffix'}


class Fold:
    def __init__(self, prog, env: Dict[T, Any] = None, refs: Dict[str, Any] = None, calls: Dict[str, Callable] = None):
        self.prog = prog
        self.env = env or {}
        self.refs = refs or {}
        self.calls = calls or {}

    def enum(self, name):
        cls, _, member = name.rpartition('.')
        c = self.prog.classes.get(cls)
        if c is None or member not in c.consts:
            return None
        v = c.consts[member]
        if isinstance(v, ast.Constant):
            return v.value
        return member.lower()      # auto() of a StrEnum

    def __call__(self, t) -> Any:
        if isinstance(t, tuple):
            return tuple(self(x) for x in t)
        if not isinstance(t, T):
            return t
        if t in self.env:
            return self.env[t]
        o, a = t.op, t.a
        if o == 'const':
            return a[0]
        if o == 'ref':
            for k, v in self.refs.items():
                if a[0] == k or a[0].endswith('.' + k):
                    return v
            v = self.enum(a[0])
            if v is not None:
                return v
        elif o == 'fstr':
            return ''.join(str(self(x)) for x in a)
        elif o == 'tuple':
            return tuple(self(x) for x in a)
        elif o == 'lit':
            if a[0] == 'dict':
                return {self(k): self(v) for k, v in a[1]}
            v = [self(x) for x in a[1]]
            return {'set': set, 'list': list, 'tuple': tuple}.get(a[0], list)(v)
        elif o == 'ite':
            return self(a[1]) if self(a[0]) else self(a[2])
        elif o == 'not':
            return not self(a[0])
        elif o == 'and':
            return all(self(x) for x in a)
        elif o == 'or':
            return any(self(x) for x in a)
        elif o == 'boolop':
            vs = [self(x) for x in a[1:]] if not isinstance(a[1], tuple) else [self(x) for x in a[1]]
            r = vs[0]
            for v in vs[1:]:
                r = (r and v) if a[0] == 'and' else (r or v)
            return r
        elif o == 'cmp':
            x, y = self(a[1]), self(a[2])
            return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
                    'in': lambda: x in y, 'not in': lambda: x not in y, 'is': lambda: x is y or x == y, 'is not': lambda: x is not y}[a[0]]()
        elif o == 'bin':
            x, y = self(a[1]), self(a[2])
            if a[0] == '/' and isinstance(x, str):
                return os.path.join(x, str(y))
            return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '%': lambda: x % y, '//': lambda: x // y}[a[0]]()
        elif o == 'item':
            try:
                return self(a[0])[self(a[1])]
            except (KeyError, IndexError, TypeError):
                raise Unknown(repr(t)[:120])
        elif o == 'attr':
            if a[1] == 'value':
                return self(a[0])
            if a[1] == 'parent':
                return os.path.dirname(self(a[0]))
            if a[1] in ('name', 'stem'):
                v = self(a[0])
                if isinstance(v, str) and '/' in v:
                    return os.path.basename(v) if a[1] == 'name' else os.path.splitext(os.path.basename(v))[0]
        elif o in ('call', 'new'):
            name = a[0] if isinstance(a[0], str) else repr(a[0])
            for k, f in self.calls.items():
                if name == k or name.endswith('.' + k):
                    return f(*[self(x) for x in a[1]], **{k2: self(v) for k2, v in a[2]})
            args = [self(x) for x in a[1]]
            base = name.split('.')[-1]
            if name == '%fmt':
                return args[0] % (tuple(args[1:]) if len(args) != 2 else args[1])
            if name.startswith('os.path.') and base in ('join', 'dirname', 'basename', 'normpath', 'splitext', 'split'):
                return getattr(os.path, base)(*map(str, args) if base == 'join' else args)
            if name in ('os.path.realpath', 'os.path.abspath', 'os.path.expanduser', 'os.fspath', 'str', 'pathlib.Path', 'Path', 'os.fsdecode'):
                return os.path.normpath(os.path.join(*map(str, args))) if args and 'path' in name.lower() else str(args[0]) if args else ''
            if name in ('len', 'bool', 'int', 'float', 'max', 'min', 'sorted', 'list', 'tuple', 'set', 'dict'):
                return {'len': len, 'bool': bool, 'int': int, 'float': float, 'max': max, 'min': min, 'sorted': sorted, 'list': list,
                        'tuple': tuple, 'set': set, 'dict': dict}[name](*args)
            if args and base in ('resolve', 'absolute', 'as_posix') and isinstance(args[0], str):
                return os.path.normpath(args[0])
            if args and base == 'joinpath' and isinstance(args[0], str):
                return os.path.join(*map(str, args))
            if args and base in STR_METHODS and hasattr(args[0], base):
                return getattr(args[0], base)(*args[1:])
        raise Unknown(repr(t)[:160])
