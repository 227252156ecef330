"""Text that a function writes, as lines of pieces; sequences as (element, source)."""
from __future__ import annotations
from typing import *
from .vfa import T, const, Event
from .q import *


def pieces(t: T) -> List[T]:
    """text value as concatenated pieces"""
    if t.op == 'fstr':
        return [p for x in t.a for p in pieces(x)]
    if t.op == 'bin' and t.a[0] == '+':
        return pieces(t.a[1]) + pieces(t.a[2])
    if is_call(t, 'str') and t.op == 'call' and len(cargs(t)) == 1:
        return pieces(cargs(t)[0])
    return [t]


class Line:
    def __init__(self, parts, guards, loops, ev, ended):
        self.parts, self.guards, self.loops, self.ev, self.ended = parts, guards, loops, ev, ended

    @property
    def text(self):
        return ''.join(str(p.a[0]) if p.op == 'const' else '\0' for p in self.parts)

    @property
    def loc(self):
        return self.ev.loc

    def __repr__(self):
        return repr([show(p) for p in self.parts]) + ('' if self.ended else '…')


def merge(a, b):
    return tuple(a) + tuple(x for x in b if x not in a)


def lines(e, is_file: Callable[[T], bool]) -> List[Line]:
    """everything written to the files, split at newlines"""
    chunks = []
    for ev in e.events:
        if ev.kind != 'call' or not ev.args and ev.callee != 'print':
            continue
        if ev.callee == '.write' and ev.recv is not None and is_file(ev.recv):
            chunks.append((pieces(ev.args[0]), ev.guards, ev.loops, ev))
        elif ev.callee == '.writelines' and ev.recv is not None and is_file(ev.recv):
            its = list_items(e, ev.args[0], ev)
            if its is None:
                chunks.append(([T('star', ev.args[0])], ev.guards, ev.loops, ev))
            for v, g, l in its or []:
                chunks.append((pieces(v), merge(ev.guards, g), merge(ev.loops, l), ev))
        elif ev.callee == 'print' and 'file' in ev.kw and is_file(ev.kw['file']):
            ps = []
            for i, a in enumerate(ev.args):
                ps += ([ev.kw.get('sep', const(' '))] if i else []) + pieces(a)
            chunks.append((ps + pieces(ev.kw.get('end', const('\n'))), ev.guards, ev.loops, ev))
    out: List[Line] = []
    cur = None
    for ps, g, l, ev in chunks:
        if cur is not None and (cur.guards != g or cur.loops != l):
            out.append(cur)
            cur = None
        for p in ps:
            if p.op == 'const' and isinstance(p.a[0], str):
                segs = p.a[0].split('\n')
                for i, s in enumerate(segs):
                    if i > 0:
                        if cur is None:
                            cur = Line([], g, l, ev, False)
                        cur.ended = True
                        out.append(cur)
                        cur = None
                    if s:
                        if cur is None:
                            cur = Line([], g, l, ev, False)
                        cur.parts.append(const(s))
            else:
                if cur is None:
                    cur = Line([], g, l, ev, False)
                cur.parts.append(p)
    if cur is not None:
        out.append(cur)
    # text joined with newlines: one line per item
    res = []
    for ln in out:
        if len(ln.parts) == 1 and is_call(ln.parts[0], '.join') and is_const(cargs(ln.parts[0])[0], '\n'):
            its = list_items(e, cargs(ln.parts[0])[1], ln.ev)
            if its is not None:
                for v, g, l in its:
                    res.append(Line(pieces(v), merge(ln.guards, g), merge(ln.loops, l), ln.ev, ln.ended))
                continue
        res.append(ln)
    return res


def mapped(e, t: T, at=None):
    """a sequence value as (element term, loops, guards): [f(x) for x in xs], list(xs), xs"""
    while t.op == 'call' and is_call(t, 'list', 'tuple', 'iter') and len(cargs(t)) == 1:
        t = cargs(t)[0]
    if t.op in ('comp', 'genf', 'lit'):
        its = list_items(e, t, at)
        if its is not None and len(its) == 1:
            return its[0][0], its[0][2], its[0][1]
        return None
    if t.op == 'call' and is_call(t, 'map') and len(cargs(t)) == 2:
        return None
    return T('elem', t, 0), None, ()


def source(t: T):
    """what an element term runs over"""
    return t.a[0] if t.op in ('elem', 'key', 'val', 'index') else None


def is_file_of(path_pred):
    """a new file, not the continuation of an old one"""
    def f(r):
        if not (is_call(r, 'open', 'io.open') and bool(cargs(r)) and path_pred(path_root(cargs(r)[0]))):
            return False
        mode = ckw(r).get('mode', cargs(r)[1] if len(cargs(r)) > 1 else None)
        return mode is None or mode.op != 'const' or 'a' not in str(mode.a[0]) and 'r' not in str(mode.a[0])
    return f
