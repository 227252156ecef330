"""Messages that are put together field by field: which messages a container receives and what their fields hold."""
from __future__ import annotations
from typing import *
from .q import *
from .bools import sat, entails, feasible
from .vfa import T, const


def attr(t, name):
    for n in name.split('.'):
        t = T('attr', t, n)
    return t


class Msg:
    """one place where a message (or another plain object) is created"""

    def __init__(self, eng, t, guards, loops, loc, first=0, last=10 ** 9, base=None):
        self.eng, self.t, self.guards, self.loops, self.loc = eng, t, tuple(guards), tuple(loops), loc
        self.first, self.last = first, last
        self.base = base            # value that the message was copied from

    def assignments(self, name):
        """[(guards, value, event or None)] in program order; value None: cleared or changed by something unknown"""
        parts = name.split('.')
        out = []
        x = self.t
        # constructor
        if x.op in ('new', 'call') and len(x.a) > 2:
            for k, v in x.a[2]:
                if k == parts[0]:
                    for p in parts[1:]:
                        v = ckw(v)[p] if v.op == 'new' and p in ckw(v) else T('attr', v, p)
                    out.append((self.guards, v, None))
        if self.base is not None:
            out.append((self.guards, attr(self.base, name), None))
        for ev in self.eng.events:
            if not self.first <= ev.idx <= self.last:
                continue
            for i in range(len(parts)):
                r = x if i == 0 else attr(x, '.'.join(parts[:i]))
                if ev.recv is not r:
                    continue
                if i == len(parts) - 1 and ev.kind == 'store' and ev.callee == parts[-1]:
                    out.append((ev.guards, ev.args[0], ev))
                elif ev.kind == 'store' and ev.callee == parts[i]:
                    v = ev.args[0]
                    for p in parts[i + 1:]:
                        v = ckw(v)[p] if v.op == 'new' and p in ckw(v) else T('attr', v, p)
                    out.append((ev.guards, v, ev))
                elif ev.kind == 'call' and ev.callee in ('.CopyFrom', '.MergeFrom') and ev.args:
                    v = ev.args[0]
                    for p in parts[i:]:
                        v = ckw(v)[p] if v.op == 'new' and p in ckw(v) else T('attr', v, p)
                    out.append((ev.guards, v, ev))
                elif ev.kind == 'call' and ev.callee in ('.Clear', '.ClearField', '.ParseFromString') and \
                        (ev.callee != '.ClearField' or is_const(ev.args[0], parts[i])):
                    out.append((ev.guards, None, ev))
        return [(g, self.own(v, name, g), ev) for g, v, ev in out]

    def own(self, v, name, conds):
        """a field that was copied from another field of the same message"""
        if v is None or v.op != 'attr':
            return v
        f, y = [], v
        while y.op == 'attr' and y is not self.t:
            f.append(y.a[1])
            y = y.a[0]
        f = '.'.join(reversed(f))
        if y is not self.t or f == name:
            return v
        r = self.val(f, conds)
        return v if r is None else r

    def vals(self, name, conds=()):
        """the values that the field can have under these conditions (None: unset on some path)"""
        conds = list(conds) + list(self.guards)
        cur = [None]
        for g, v, ev in self.assignments(name):
            if not sat(conds + list(g)):
                continue
            new = [None] if v is None else feasible(v, conds + list(g))
            cur = list(new) if entails(conds, _conj(g)) else cur + [x for x in new if x not in cur]
        return cur

    def val(self, name, conds=()):
        v = self.vals(name, conds)
        return v[0] if len(v) == 1 else None

    def submsgs(self, name):
        return messages(self.eng, attr(self.t, name))


def _conj(g):
    from .bools import conj
    return conj(g)


def messages(eng, container, at=None):
    """messages that are added to a repeated field: [Msg]; whole values that are merged in: [(value, event)]"""
    out, merged = [], []
    for ev in eng.by_recv.get(container, []):
        if ev.kind != 'call':
            continue
        if ev.callee == '.add':
            out.append(Msg(eng, ev.result, ev.guards, ev.loops, ev.loc, ev.idx))
            if ev.kw:
                pass
        elif ev.callee == '.append' and ev.args:
            v = ev.args[0]
            out.append(Msg(eng, v, ev.guards, ev.loops, ev.loc, 0, ev.idx) if v.op == 'new' else
                       Msg(eng, T('new', '<copy>', (v,), (), ev.idx), ev.guards, ev.loops, ev.loc, ev.idx, base=v))
        elif ev.callee in ('.extend', '.MergeFrom', '.CopyFrom') and ev.args:
            merged.append((ev.args[0], ev))
    if container.op == 'attr':
        for ev in eng.by_recv.get(container.a[0], []):
            if ev.kind == 'store' and ev.callee == container.a[1]:
                merged.append((ev.args[0], ev))
    # a copied whole: x.add().CopyFrom(y)
    for m in out:
        for ev in eng.by_recv.get(m.t, []):
            if ev.kind == 'call' and ev.callee in ('.CopyFrom', '.MergeFrom') and ev.args and m.base is None:
                m.base = ev.args[0]
    return out, merged
