"""Model of regions as expressions: which shapes a region consists of, for the abstract interpreter.

A region is a normal form over named sources (shapes of a net on a layer, shapes of a layer, the enlarged bounding box):
unions are sets, a difference has one base and the set of what is subtracted, sizing in several steps adds up."""
from __future__ import annotations
from typing import *
from .absint import Domain, LObj, Union_
from .model import AnalysisBroken
from .q import pnorm, padd
from .regions import Obj
from .vfa import T, const

QUANT = {'math.floor', 'math.ceil', 'round', 'int', 'floor', 'ceil'}


def num(x):
    """normal form of a number, the conversion to database units (floor, round, int) is one operation"""
    memo = {}

    def rw(t):
        if not isinstance(t, T):
            return t
        if t not in memo:
            if t.op == 'call' and t.a[0] in QUANT and len(t.a[1]) == 1:
                memo[t] = T('sym', 'dbus', _key(pnorm(rw(t.a[1][0]))))
            else:
                memo[t] = T(t.op, *[tuple(rw(y) for y in a) if isinstance(a, tuple) else rw(a) for a in t.a])
        return memo[t]
    return _key(pnorm(rw(x if isinstance(x, T) else const(x))))


def _key(p):
    return tuple(sorted(p.items(), key=str))


EMPTY = ('union', frozenset())


def union(a, b):
    xs = set()
    for x in (a, b):
        xs |= x[1] if x[0] == 'union' else {x}
    return next(iter(xs)) if len(xs) == 1 else ('union', frozenset(xs))


def diff(a, b):
    if a == EMPTY or b == EMPTY:
        return a
    bs = b[1] if b[0] == 'union' else frozenset([b])
    if a[0] == 'diff':
        return ('diff', a[1], a[2] | bs)
    return ('diff', a, bs)


def inter(a, b):
    if a == EMPTY or b == EMPTY:
        return EMPTY
    return a if a == b else ('and', frozenset([a, b]))


def sized(a, d):
    if a == EMPTY or d == num(0):
        return a
    if a[0] == 'sized':
        return ('sized', a[1], _key(padd(dict(a[2]), dict(d), 1)))
    if a[0] == 'union':
        r = EMPTY
        for x in a[1]:
            r = union(r, sized(x, d))
        return r
    return ('sized', a, d)


class Shape(Obj):
    klass = 'Region'

    def __init__(self, alts):
        self.alts = list(alts)                       # [(condition, expression)]

    def map(self, I, f):
        return Shape(_joined(I, [(c, f(e)) for c, e in self.alts]))

    def some(self, I, e):
        """condition under which the region is not empty"""
        if e[0] == 'union':
            return I.Or(*[self.some(I, x) for x in e[1]])
        if e[0] == 'sized':
            return self.some(I, e[1])                # growing keeps it
        if e[0] == 'box':
            return 1
        if e[0] == 'diff':
            return I.And(self.some(I, e[1]), I.var(('some', e)))
        return I.var(('some', e))

    def truth(self, I, pc):
        return I.Or(*[I.And(c, self.some(I, e)) for c, e in self.alts])

    def m_dup(self, I, pc):
        return Shape(self.alts)
    m_merged = m_dup

    def m_merge(self, I, pc):
        return self
    m_flatten = m_merge

    def m_is_empty(self, I, pc):
        return I.sb(I.Not(self.truth(I, pc)))

    def m_count(self, I, pc):
        t = self.truth(I, pc)
        return Union_([(t, 1), (I.Not(t), 0)])
    m_hier_count = m_area = m_count

    def m_sized(self, I, pc, d, *mode):
        return self.map(I, lambda e: sized(e, num(d)))

    def m_size(self, I, pc, *a):
        if not a:
            return self.m_count(I, pc)
        d = a[0]
        self.put(I, pc, self.m_sized(I, pc, d))
        return self

    def m_insert(self, I, pc, x, *a):
        if isinstance(x, Box):
            x = Shape([(1, ('box', x.margin))])
        if not isinstance(x, Shape):
            raise AnalysisBroken(f"{I.where}: insert of {type(x).__name__} into a region")
        self.put(I, pc, self.binop(I, 'Add', x, pc))

    def m_clear(self, I, pc):
        self.put(I, pc, Shape([(1, EMPTY)]))

    def put(self, I, pc, new):
        self.alts = _joined(I, [(I.And(pc, c), e) for c, e in new.alts] + [(I.And(I.Not(pc), c), e) for c, e in self.alts])

    def binop(self, I, op, o, pc):
        if not isinstance(o, Shape):
            raise AnalysisBroken(f"{I.where}: {op} of a region and {type(o).__name__}")
        f = {'Add': union, 'BitOr': union, 'Sub': diff, 'BitAnd': inter}.get(op)
        if f is None:
            raise AnalysisBroken(f"{I.where}: {op} of regions")
        return Shape(_joined(I, [(I.And(c, d), f(a, b)) for c, a in self.alts for d, b in o.alts]))

    def iop(self, I, op, o, pc):
        self.put(I, pc, self.binop(I, op, o, pc))
        return self


def _joined(I, alts):
    d = {}
    for c, e in alts:
        if c:
            d[e] = I.Or(d.get(e, 0), c)
    return [(c, e) for e, c in d.items()]


class Box(Obj):
    """the bounding box of the layout, enlarged by a margin"""
    klass = 'Box'

    def __init__(self, margin):
        self.margin = margin

    def m_enlarged(self, I, pc, *a):
        ms = {num(x) for x in a}
        if len(ms) != 1 or len(a) > 2:
            raise AnalysisBroken(f"{I.where}: the box is not enlarged alike in x and y")
        return Box(_key(padd(dict(self.margin), dict(ms.pop()), 1)))

    def m_dup(self, I, pc):
        return Box(self.margin)

    def m_enlarge(self, I, pc, *a):
        self.margin = self.m_enlarged(I, pc, *a).margin
        return self

    def hkey(self):
        return ('box', self.margin)


class ShapeDomain(Domain):
    def external(self, I, name, args, kw, pc):
        if name.startswith('klayout.') and name.split('.')[-1] == 'Region':
            if not args:
                return Shape([(1, EMPTY)])
            def one(g, x):
                if isinstance(x, Shape):
                    return Shape(x.alts)
                if isinstance(x, Box):
                    return Shape([(1, ('box', x.margin))])
                if isinstance(x, LObj):
                    r = Shape([(1, EMPTY)])
                    for c, v in I.iterate(x, g):
                        r.m_insert(I, c, v)
                    return r
                raise AnalysisBroken(f"{I.where}: Region({type(x).__name__})")
            return I.lift(one, pc, args[0])
        return NotImplemented
