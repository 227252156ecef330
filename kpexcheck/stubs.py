"""Type declarations of the messages, generated from the schema (protos/**/*.proto), for a type checker.

They are as strict as the Python runtime: message and repeated fields cannot be assigned, a field that is not declared does
not exist, HasField takes the fields that have presence, enumeration fields take values of their enumeration."""
from __future__ import annotations
import os
from typing import *

HEAD = '''from __future__ import annotations
from typing import Any, Callable, ClassVar, Generic, Iterable, Iterator, Literal, Never, Optional, Sequence, TypeAlias, TypeVar, final, overload
from google.protobuf.message import Message as _M
_T = TypeVar('_T')

class PB_repeated(Generic[_T]):
    def __len__(self) -> int: ...
    def __iter__(self) -> Iterator[_T]: ...
    @overload
    def __getitem__(self, i: int) -> _T: ...
    @overload
    def __getitem__(self, i: slice) -> list[_T]: ...
    def __delitem__(self, i: int | slice) -> None: ...
    def __contains__(self, x: object) -> bool: ...
    def append(self, x: _T) -> None: ...
    def extend(self, xs: Iterable[_T]) -> None: ...
    def insert(self, i: int, x: _T) -> None: ...
    def remove(self, x: _T) -> None: ...
    def pop(self, i: int = ...) -> _T: ...
    def index(self, x: _T) -> int: ...
    def count(self, x: _T) -> int: ...
    def sort(self, *, key: Optional[Callable[[_T], Any]] = ..., reverse: bool = ...) -> None: ...
    def reverse(self) -> None: ...
    def clear(self) -> None: ...
    def MergeFrom(self, x: Iterable[_T]) -> None: ...
    def __reversed__(self) -> Iterator[_T]: ...

class PB_enum:
    def __int__(self) -> int: ...
    def __index__(self) -> int: ...
    def __hash__(self) -> int: ...
    def __lt__(self, o: Any) -> bool: ...
    def __gt__(self, o: Any) -> bool: ...
'''
SCALAR = {'string': 'str', 'bool': 'bool', 'double': 'float', 'float': 'float', 'bytes': 'bytes'}


def cls(q):
    """name of the class in the declarations, different from all other classes of the program"""
    mod, _, rest = q.rpartition('_pb2.')
    return 'PB_' + rest.replace('.', '_') if mod else 'PB_' + q


def generate(protos, out):
    """Writes the declarations below `out`; {name of the class: message or enumeration}."""
    base = os.path.join(out, protos.PREFIX.rstrip('.'))
    os.makedirs(base, exist_ok=True)
    names = {}
    every = [*protos.enums, *protos.messages]
    for q in every:
        if names.setdefault(cls(q), q) != q:
            names[cls(q) + '_'] = q
    name = {q: n for n, q in names.items()}
    kids = {q: [x for x in every if x.rpartition('.')[0] == q] for q in every}

    def ref(t):
        return name[t] if t in name else SCALAR.get(t, 'int')

    def lit(xs):
        return f"Literal[{', '.join(map(repr, xs))}]" if xs else 'Never'
    L = [HEAD]
    for q in protos.enums:
        n, vs = name[q], protos.enums[q]
        L += ["@final", f"class {n}(PB_enum):"]
        L += [f"    {v}: ClassVar[{n}]" for v in vs]
        L += [f"    @classmethod", f"    def Name(cls, v: {n}) -> str: ...",
              f"    @classmethod", f"    def Value(cls, name: str) -> {n}: ...",
              f"    @classmethod", f"    def keys(cls) -> list[str]: ...",
              f"    @classmethod", f"    def values(cls) -> list[{n}]: ...",
              f"    @classmethod", f"    def items(cls) -> list[tuple[str, {n}]]: ...",
              f"    DESCRIPTOR: Any"]
    for q, fs in protos.messages.items():
        n = name[q]
        L.append(f"class {n}(_M):")
        for x in kids[q]:
            if x in protos.enums:
                L += [f"    {v}: ClassVar[{name[x]}]" for v in protos.enums[x]]
            L.append(f"    from {protos.PREFIX}_pb_nest import {name[x]} as {x.rpartition('.')[2]}")
        args, has = [], []
        for f, (t, rep) in fs.items():
            if t == 'map':
                L.append(f"    {f}: Any")
                args.append(f"{f}: Any = ...")
            elif rep:
                L += [f"    @property", f"    def {f}(self) -> " + (f"PB_list_{ref(t)[3:]}: ..." if t in protos.messages else f"PB_repeated[{ref(t)}]: ...")]
                args.append(f"{f}: Optional[Iterable[{ref(t)}]] = ...")
            elif t in protos.messages:
                L += [f"    @property", f"    def {f}(self) -> {ref(t)}: ..."]
                args.append(f"{f}: Optional[{ref(t)}] = ...")
                has.append(f)
            else:
                L.append(f"    {f}: {ref(t)}")
                args.append(f"{f}: Optional[{ref(t)}] = ...")
        ones = protos.oneofs.get(q, [])
        L += [f"    def __init__(self{', *, ' if args else ''}{', '.join(args)}) -> None: ...",
              f"    def HasField(self, field_name: {lit(has + protos.presence.get(q, []) + ones)}) -> bool: ...",
              f"    def ClearField(self, field_name: {lit([*fs] + ones)}) -> None: ...",
              f"    def WhichOneof(self, oneof_group: {lit(ones)}) -> Optional[str]: ...",
              f"    def CopyFrom(self, other_msg: {n}) -> None: ...",
              f"    def MergeFrom(self, other_msg: {n}) -> None: ...",
              f"class PB_list_{n[3:]}(PB_repeated[{n}]):",
              f"    def add(self{', *, ' if args else ''}{', '.join(args)}) -> {n}: ..."]
    texts = {'_pb_impl': '\n'.join(L) + '\n',
             '_pb_nest': '\n'.join(f"from {protos.PREFIX}_pb_impl import {n} as {n}" for n in names) + '\n'}
    for m in protos.files:
        L = [f"DESCRIPTOR: object"]
        for q in kids.get(m) or [x for x in every if x.rpartition('.')[0] == m]:
            L.append(f"from {protos.PREFIX}_pb_impl import {name[q]} as {q.rpartition('.')[2]}")
            L += [f"{v}: {q.rpartition('.')[2]}" for v in protos.enums.get(q, ())]
        texts[m[len(protos.PREFIX):]] = '\n'.join(L) + '\n'
    for m, t in texts.items():
        p = os.path.join(base, *m.split('.')) + '.py'
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(t)
        d = os.path.dirname(p)
        while len(d) >= len(base):
            open(os.path.join(d, '__init__.py'), 'a').close()
            d = os.path.dirname(d)
    return names
