"""Model of the KLayout classes for the abstract interpretation: regions and edges at one arbitrary place.

A place is a spot on a (possible) contour line with a left and a right side: a region is the pair of its indicators there,
its edges are present where the two differ and run so that the region is on their right (KLayout's orientation)."""
from __future__ import annotations
from fractions import Fraction
from typing import *
from .absint import Domain, Interp, LObj, Meth, SB, Union_, Inst, Unmodelled
from .model import AnalysisBroken
from .q import pnorm, padd, pmul
from .vfa import T, const


def sym(*a):
    return T('sym', *a)


_n = [0]


def nid():
    _n[0] += 1
    return _n[0]


def somewhere(I, here, key):
    """is there something: here, or at another place (open) if there are places at all where it can be"""
    e = exists(I, here)
    return I.Or(here, I.And(e, I.var(key))) if e else 0


def exists(I, n):
    """the place's own conditions ('in', …) quantified away"""
    b = I.b
    memo = b.__dict__.setdefault('exists_memo', {})
    inner = {i for k, i in b.order.items() if isinstance(k, tuple) and k[0] == 'in'}

    def go(n):
        if n < 2:
            return n
        r = memo.get(n)
        if r is None:
            v, lo, hi = b.tab[n]
            lo, hi = go(lo), go(hi)
            r = memo[n] = b.ite(lo, 1, hi) if v in inner else b.mk(v, lo, hi) if not _above(b, v, lo, hi) else \
                b.ite(b.mk(v, 0, 1), hi, lo)
        return r
    return go(n)


def _above(b, v, lo, hi):
    return b.tab[lo][0] <= v or b.tab[hi][0] <= v


def _params(m):
    return m.__code__.co_varnames[:m.__code__.co_argcount]


def _varkw(m):
    return bool(m.__code__.co_flags & 8)


class Obj:
    """methods named m_<name>, attributes named a_<name>"""
    klass = ''

    def getattr(self, I, name, pc):
        a = getattr(self, 'a_' + name, None)
        if a is not None:
            return a(I, pc)
        m = getattr(self, 'm_' + name, None)
        if m is None:
            return Unmodelled(f"{I.where}: {self.klass}.{name} is not modelled")
        def call(I_, args, kw, p):
            for x in list(args) + list(kw.values()):
                if isinstance(x, Unmodelled):
                    raise AnalysisBroken(x.msg)
            n, ks = len(args), list(kw)
            kws = [k for k in ks if k in _params(m)] if not _varkw(m) else ks
            if not args and not kws:
                return m(I_, p)
            return I_.lift(lambda g, *xs: m(I_, g, *xs[:n], **dict(zip(kws, xs[n:]))), p, *args, *[kw[k] for k in kws])
        return Meth(call, name)

    def has(self, name):
        return hasattr(self, 'a_' + name) or hasattr(self, 'm_' + name)


class Region(Obj):
    klass = 'Region'

    def __init__(self, l=0, r=0, boxes=()):
        self.l, self.r, self.boxes = l, r, [list(b) for b in boxes]
        self.id, self.ver = nid(), 0

    def unused(self, I, g):
        return I.And(I.Or(self.l, self.r), g) == 0 and all(I.And(c, g) == 0 for c, _ in self.boxes)

    def nonempty(self, I):
        return somewhere(I, I.Or(self.l, self.r, *[c for c, _ in self.boxes]), ('nonempty', self.id, self.ver))

    def truth(self, I, pc):
        return self.nonempty(I)

    def m_dup(self, I, pc):
        return Region(self.l, self.r, self.boxes)
    m_merged = m_flatten_ = m_dup

    def m_merge(self, I, pc, *a):
        return self

    def m_flatten(self, I, pc, *a):
        return self

    def m_is_empty(self, I, pc):
        return I.sb(I.Not(self.nonempty(I)))

    def m_count(self, I, pc):
        n = self.nonempty(I)
        return Union_([(n, 1), (I.Not(n), 0)])
    m_area = m_hier_count = m_perimeter = m_count

    def m_clear(self, I, pc):
        self.set(I, pc, 0, 0)
        for b in self.boxes:
            b[0] = I.And(b[0], I.Not(pc))

    def m_edges(self, I, pc, *a):
        return Edges(I.And(self.r, I.Not(self.l)), I.And(self.l, I.Not(self.r)))

    def m_insert(self, I, pc, x, *a):
        if isinstance(x, Region):
            return self.iop(I, 'Add', x, pc)
        self.boxes.append([pc, x])
        self.ver += 1

    def m_delaunay(self, I, pc, *a):
        I.domain.delaunay.append((pc, a))
        out = []
        g = I.And(pc, self.l)
        if g:
            out.append((g, Poly('area', None, g)))
        for c, b in self.boxes:
            g = I.And(pc, c)
            if g:
                out.append((g, Poly('box', b, g)))
        return LObj(out)

    def set(self, I, pc, l, r):
        self.l, self.r = I.Ite(pc, l, self.l), I.Ite(pc, r, self.r)
        self.ver += 1

    def op(self, I, op, o):
        if not isinstance(o, Region):
            raise AnalysisBroken(f"{I.where}: {op} of a region and {type(o).__name__}")
        f = {'Add': I.Or, 'BitOr': I.Or, 'BitAnd': I.And, 'Sub': lambda a, b: I.And(a, I.Not(b)),
             'BitXor': lambda a, b: I.Ite(a, I.Not(b), b)}.get(op)
        if f is None or ((self.boxes or o.boxes) and op != 'Add' and op != 'BitOr'):
            raise AnalysisBroken(f"{I.where}: {op} of regions")
        return f(self.l, o.l), f(self.r, o.r), [list(b) for b in o.boxes]

    def binop(self, I, op, o, pc):
        l, r, bx = self.op(I, op, o)
        return Region(l, r, self.boxes + bx)

    def iop(self, I, op, o, pc):
        l, r, bx = self.op(I, op, o)
        self.set(I, pc, l, r)
        self.boxes += [[I.And(pc, c), b] for c, b in bx]
        return self


class Edges(Obj):
    klass = 'Edges'

    def __init__(self, f=0, b=0):
        self.f, self.b, self.id, self.ver = f, b, nid(), 0

    def nonempty(self, I):
        return somewhere(I, I.Or(self.f, self.b), ('nonempty', self.id, self.ver))

    def truth(self, I, pc):
        return self.nonempty(I)

    def m_dup(self, I, pc):
        return Edges(self.f, self.b)
    m_merged = m_dup

    def m_merge(self, I, pc):
        return self

    def m_is_empty(self, I, pc):
        return I.sb(I.Not(self.nonempty(I)))

    def m_swapped_points(self, I, pc):
        return Edges(self.b, self.f)

    def m_count(self, I, pc):
        n = self.nonempty(I)
        return Union_([(n, 1), (I.Not(n), 0)])

    def iterate(self, I, pc):
        return [(I.And(pc, self.f), Edge(True)), (I.And(pc, self.b), Edge(False))]

    m_each = lambda self, I, pc: LObj(self.iterate(I, pc))

    def op(self, I, op, o):
        if not isinstance(o, Edges):
            raise AnalysisBroken(f"{I.where}: {op} of edges and {type(o).__name__}")
        any_ = I.Or(o.f, o.b)
        if op in ('Add', 'BitOr'):
            return I.Or(self.f, o.f), I.Or(self.b, o.b)
        if op == 'BitAnd':
            return I.And(self.f, any_), I.And(self.b, any_)
        if op == 'Sub':
            return I.And(self.f, I.Not(any_)), I.And(self.b, I.Not(any_))
        raise AnalysisBroken(f"{I.where}: {op} of edges")

    def binop(self, I, op, o, pc):
        return Edges(*self.op(I, op, o))

    def iop(self, I, op, o, pc):
        f, b = self.op(I, op, o)
        self.f, self.b = I.Ite(pc, f, self.f), I.Ite(pc, b, self.b)
        self.ver += 1
        return self


AX, AY, BX, BY = (sym('edge', x) for x in ('ax', 'ay', 'bx', 'by'))
SQ = sym('edge', 'sq')
EL, U, V = sym('edge', 'len'), sym('edge', 'u'), sym('edge', 'v')


class Pt(Obj):
    klass = 'DPoint'

    def __init__(self, x, y):
        self.x, self.y = x, y

    def hkey(self):
        return (self.klass, self.x, self.y)

    def eq(self, I, o, pc):
        return isinstance(o, Pt) and o.hkey() == self.hkey()

    def a_x(self, I, pc):
        return self.x

    def a_y(self, I, pc):
        return self.y

    def _bin(self, I, op, o, cls):
        return cls(I.binop(op, self.x, o.x, 1), I.binop(op, self.y, o.y, 1))

    def binop(self, I, op, o, pc):
        vec = isinstance(self, Vec)
        if op == 'Add' and isinstance(o, Pt):
            return self._bin(I, 'Add', o, Vec if vec and isinstance(o, Vec) else Pt)
        if op == 'Sub' and isinstance(o, Pt):
            both = vec == isinstance(o, Vec)
            return self._bin(I, 'Sub', o, Vec if both else Pt)
        if op in ('Mult', 'Div') and isinstance(o, (int, float, T)):
            return type(self)(I.binop(op, self.x, o, 1), I.binop(op, self.y, o, 1))
        if op == 'Mult' and isinstance(o, Vec):
            return self.m_sprod(I, pc, o)
        return NotImplemented

    def rbinop(self, I, op, o, pc):
        return self.binop(I, op, o, pc) if op == 'Mult' and isinstance(o, (int, float, T)) else NotImplemented

    def m_sprod(self, I, pc, o):
        return I.binop('Add', I.binop('Mult', self.x, o.x, 1), I.binop('Mult', self.y, o.y, 1), 1)

    def m_vprod(self, I, pc, o):
        return I.binop('Sub', I.binop('Mult', self.x, o.y, 1), I.binop('Mult', self.y, o.x, 1), 1)

    def m_sq_length(self, I, pc):
        return self.m_sprod(I, pc, self)

    def m_length(self, I, pc):
        return T('call', 'math.sqrt', (self.m_sprod(I, pc, self),), ())
    m_abs = m_length

    def m_dup(self, I, pc):
        return self

    def m_to_dtype(self, I, pc, *a):
        return type(self)(*[I.binop('Mult', c, a[0] if a else 1, 1) for c in (self.x, self.y)])

    def m_to_v(self, I, pc):
        return Vec(self.x, self.y)


class Vec(Pt):
    klass = 'DVector'


class Edge(Obj):
    """the contour line at the place, running forward (left side on its left) or backward"""
    klass = 'Edge'

    def __init__(self, fwd):
        self.fwd = fwd

    def hkey(self):
        return ('edge', self.fwd)

    def a_p1(self, I, pc):
        return Pt(AX, AY) if self.fwd else Pt(BX, BY)

    def a_p2(self, I, pc):
        return Pt(BX, BY) if self.fwd else Pt(AX, AY)

    def a_x1(self, I, pc):
        return self.a_p1(I, pc).x

    def a_y1(self, I, pc):
        return self.a_p1(I, pc).y

    def a_x2(self, I, pc):
        return self.a_p2(I, pc).x

    def a_y2(self, I, pc):
        return self.a_p2(I, pc).y

    def m_swapped_points(self, I, pc):
        return Edge(not self.fwd)

    def m_is_degenerate(self, I, pc):
        return False

    def m_d(self, I, pc):
        return self.a_p2(I, pc).binop(I, 'Sub', self.a_p1(I, pc), pc)

    def m_dx(self, I, pc):
        return self.m_d(I, pc).x

    def m_dy(self, I, pc):
        return self.m_d(I, pc).y

    def m_sq_length(self, I, pc):
        return SQ

    def m_length(self, I, pc):
        return EL

    def m_dup(self, I, pc):
        return self

    def m_to_dtype(self, I, pc, *a):
        if a:
            raise AnalysisBroken(f"{I.where}: scaled edge")
        return self


class Box(Obj):
    klass = 'Box'

    def __init__(self, x1, y1, x2, y2):
        self.c = (x1, y1, x2, y2)

    def hkey(self):
        return ('box',) + self.c


class Poly(Obj):
    klass = 'Polygon'

    def __init__(self, kind, box, guard):
        self.kind, self.box, self.guard, self.id = kind, box, guard, nid()
        POLYS[self.id] = self

    def points(self):
        return [Pt(sym('hull', self.id, i, 'x'), sym('hull', self.id, i, 'y')) for i in range(3)]

    def m_each_point_hull(self, I, pc):
        return LObj([(1, p) for p in self.points()])
    m_each_point = m_each_point_hull

    def m_point_hull(self, I, pc, i):
        return self.points()[i % 3]
    m_point = m_point_hull

    def m_num_points(self, I, pc):
        return 3
    m_num_points_hull = m_num_points

    def m_to_simple_polygon(self, I, pc):
        return self


POLYS: Dict[int, Poly] = {}


class Level(Obj):
    """a height in database units, known by its order"""
    klass = 'int'

    def __init__(self, rank):
        self.rank = rank

    def hkey(self):
        return ('level', self.rank)

    def eq(self, I, o, pc):
        return isinstance(o, Level) and o.rank == self.rank

    def term(self):
        return sym('level', self.rank)

    def binop(self, I, op, o, pc):
        return I.binop(op, self.term(), o.term() if isinstance(o, Level) else o, pc)

    def rbinop(self, I, op, o, pc):
        return I.binop(op, o, self.term(), pc)


class RegionDomain(Domain):
    def __init__(self):
        self.delaunay: List[tuple] = []
        self.heights: List[T] = []
        self.dbu = None

    def external(self, I, name, args, kw, pc):
        n = name.split('.')[-1]
        if n in ('floor', 'round', 'int') and len(args) == 1 and isinstance(args[0], T) and self.dbu is not None:
            # the number of database units at a height: height / dbu, with a margin against rounding
            for i, h in enumerate(self.heights):
                d = padd(pnorm(args[0]), pmul(pnorm(h), {((self.dbu, -1),): Fraction(1)}), -1)
                if not d and n == 'round' or set(d) == {()} and (
                        n in ('floor', 'int') and 0 < d[()] <= Fraction(1, 2) or n == 'round' and abs(d[()]) < Fraction(1, 2)):
                    return Level(i)
        if not name.startswith('klayout.'):
            return NotImplemented
        if n == 'Region':
            if not args:
                return Region()
            def one(g, x):
                if isinstance(x, Region):
                    return Region(x.l, x.r, x.boxes)
                if isinstance(x, LObj):
                    r = Region()
                    for c, v in I.iterate(x, g):
                        r.m_insert(I, c, v)
                    return r
                if isinstance(x, Box):
                    return Region(boxes=[(1, x)])
                raise AnalysisBroken(f"{I.where}: Region({type(x).__name__})")
            return I.lift(one, pc, args[0])
        if n == 'Edges' and not args:
            return Edges()
        if n in ('DPoint', 'Point', 'DVector', 'Vector'):
            cls = Pt if 'Point' in n else Vec
            if not args:
                return cls(0, 0)
            if len(args) == 1 and isinstance(args[0], Pt):
                return cls(args[0].x, args[0].y)
            if len(args) == 2:
                return cls(*args)
        if n in ('Edge', 'DEdge') and len(args) == 1 and isinstance(args[0], Edge):
            return args[0]
        if n in ('Box', 'DBox') and len(args) == 4:
            return Box(*args)
        return NotImplemented


# ---------------------------------------------------------------- coordinates
def norm(t, subst=()):
    """normal form of a coordinate with the edge's direction as a unit vector"""
    sub = dict(subst)
    one = {(): Fraction(1)}

    def at(x):
        return {((x, 1),): Fraction(1)}

    def rw(x):
        if x in sub:
            return sub[x]
        if x is BX:
            return padd(at(AX), pmul(at(EL), at(U)), 1)
        if x is BY:
            return padd(at(AY), pmul(at(EL), at(V)), 1)
        if x is SQ:
            return pmul(at(EL), at(EL))
        if x.op == 'call' and x.a[0] == 'math.sqrt':
            p = unit(pnorm(x.a[1][0], rw))
            if p == pmul(at(EL), at(EL)):
                return at(EL)
        if x.op == 'call' and x.a[0] == 'math.hypot':
            p = unit(padd(*[pmul(q, q) for q in (pnorm(y, rw) for y in x.a[1])], 1))
            if p == pmul(at(EL), at(EL)):
                return at(EL)
        if x.op == 'call' and x.a[0] == 'math.floor':
            i = x.a[1][0]
            if i.op == 'bin' and i.a[0] == '+' and i.a[2].op == 'const' and i.a[2].a[0] == 0.5:
                return pnorm(i.a[1], rw)
            if i.op == 'bin' and i.a[0] == '+' and i.a[1].op == 'const' and i.a[1].a[0] == 0.5:
                return pnorm(i.a[2], rw)
        if x.op == 'call' and x.a[0] == 'round' and len(x.a[1]) == 1:
            return pnorm(x.a[1][0], rw)
        return None
    return unit(pnorm(t if isinstance(t, T) else const(t), rw))


def unit(p):
    """v*v = 1 - u*u"""
    while True:
        for m, c in p.items():
            e = dict(m).get(V, 0)
            if e >= 2:
                rest = tuple((a, k - 2 if a is V else k) for a, k in m if not (a is V and k == 2))
                q = {k: v for k, v in p.items() if k != m}
                r = {rest: c}
                uu = {((U, 2),): Fraction(1)}
                p = padd(padd(q, r, 1), pmul(r, uu), -1)
                break
        else:
            return p


# ---------------------------------------------------------------- files
class File(Obj):
    klass = 'file'

    def __init__(self, path, mode):
        self.path, self.mode = path, mode
        self.parts: List[tuple] = []

    def m_write(self, I, pc, x):
        if pc != 1:
            raise AnalysisBroken(f"{I.where}: text written under an open condition")
        self.parts.append(x)

    def m_writelines(self, I, pc, xs):
        for g, x in I.iterate(xs, pc):
            self.m_write(I, g, x)

    def m_close(self, I, pc):
        return None
    m_flush = m_close


class Digest(Obj):
    klass = 'hash'

    def __init__(self, of):
        self.of = of

    def m_update(self, I, pc, x):
        self.of = self.of + x

    def _text(self, I, pc, *a):
        import hashlib
        return 'h' + hashlib.md5(repr(self.of).encode()).hexdigest()[:21]
    m_digest = m_hexdigest = _text


class FileDomain(RegionDomain):
    """files written are kept as text"""

    def __init__(self, name_max=255):
        super().__init__()
        self.files: List[File] = []
        self.name_max = name_max

    def external(self, I, name, args, kw, pc):
        if name in ('open', 'io.open', 'builtins.open'):
            mode = args[1] if len(args) > 1 else kw.get('mode', 'r')
            f = File(args[0], mode)
            if pc != 1:
                raise AnalysisBroken(f"{I.where}: a file opened under an open condition")
            self.files.append(f)
            return f
        if name == 'os.path.join':
            return '/'.join(args) if all(isinstance(a, str) for a in args) else NotImplemented
        if name == 'os.path.basename' and isinstance(args[0], str):
            return args[0].rsplit('/', 1)[-1]
        if name == 'os.path.dirname' and isinstance(args[0], str):
            return args[0].rsplit('/', 1)[0]
        if name == 'os.pathconf':
            return self.name_max
        if name.startswith('hashlib.') and args:
            return Digest(args[0])
        if name.startswith('base64.') and args and isinstance(args[0], str):
            return args[0]
        if name in ('os.makedirs', 'os.fspath'):
            return args[0]
        return super().external(I, name, args, kw, pc)
