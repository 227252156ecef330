"""Model of messages by their schema, for the abstract interpreter: fields that the schema does not declare are not modelled,
fields that are not set have their default."""
from __future__ import annotations
from typing import *
from .absint import LObj, Meth
from .model import AnalysisBroken
from .regions import Obj

NUMERIC = {'double': 0.0, 'float': 0.0}


class MsgV(Obj):
    klass = 'message'

    def __init__(self, protos, qual, **fields):
        self.protos, self.qual, self.fields = protos, qual, {}
        self.klass = qual.split('.')[-1]
        for k, v in fields.items():
            t, rep = self._decl(k)
            self.fields[k] = LObj([(1, x) for x in v]) if rep else v

    def _decl(self, name):
        d = self.protos.messages.get(self.qual, {}).get(name)
        if d is None:
            raise AnalysisBroken(f"{self.klass} has no field {name} in the schema")
        return d

    def default(self, name):
        t, rep = self._decl(name)
        if rep:
            return LObj()
        if t in self.protos.messages:
            return MsgV(self.protos, t)
        if t in self.protos.enums:
            return 0
        return {'string': '', 'bool': False, 'bytes': b''}.get(t, NUMERIC.get(t, 0))

    def getattr(self, I, name, pc):
        if name == 'HasField':
            return Meth(lambda I_, a, kw, p: a[0] in self.fields, name)
        if name == 'SerializeToString':
            return Meth(lambda I_, a, kw, p: self, name)
        if name not in self.protos.messages.get(self.qual, {}):
            I.raised.append((pc, f"AttributeError: {self.klass} has no field {name}"))
            raise AnalysisBroken(f"{I.where}: {self.klass} has no field {name} in the schema")
        if name not in self.fields:
            v = self.default(name)
            if isinstance(v, LObj):
                self.fields[name] = v
            return v
        return self.fields[name]

    def has(self, name):
        return name in self.protos.messages.get(self.qual, {})

    def hkey(self):
        return ('o', id(self))


def enum_value(protos, name):
    """number of an enumeration value given as 'Message.VALUE' (any package)"""
    m, _, v = name.rpartition('.')
    got = {vals[v] for e, vals in protos.enums.items() if v in vals and (not m or e.rpartition('.')[0].endswith('.' + m) or
                                                                         e.endswith('.' + m))}
    if len(got) != 1:
        raise AnalysisBroken(f"enumeration value {name}")
    return got.pop()
