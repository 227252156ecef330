"""The 3D model: FasterCapModelBuilder, FasterCapModelGenerator, the files written for the field solver (C35-C37)."""
from __future__ import annotations
from typing import *
from ..absint import Interp, Inst, LObj, DObj, ClassV, Union_
from ..core import check, Ctx
from ..model import AnalysisBroken
from ..q import (pnorm, padd, is_call, is_new, is_const, cargs, mentions, gated_leaves, subst)
from ..bools import sat, entails, equiv, conj
from ..regions import Region, RegionDomain, POLYS, norm, sym, AX, AY, BX, BY, U, V, EL
from ..vfa import T, const
from .util import P

GEN = 'klayout_pex.fastercap.fastercap_model_generator.FasterCapModelGenerator'
BUILDER = 'klayout_pex.fastercap.fastercap_model_generator.FasterCapModelBuilder'


class Model:
    """a model built from layers over `slabs` slabs between planes.  Every net and material has a layer in every slab (and one
    through all of them, for the names in `long`), the shapes are open; heights are only known by their order."""

    def __init__(self, c: Ctx, nets, mats, slabs, long=(), contour=True):
        self.c, self.nets, self.mats, self.slabs = c, list(nets), list(mats), slabs
        self.dom = RegionDomain()
        self.I = I = Interp(c.prog, self.dom)
        cls = c.prog.classes.get(BUILDER)
        c.need(cls is not None, 'FasterCapModelBuilder')
        self.dbu, self.amax, self.bmin, self.kvoid = (sym(x) for x in ('dbu', 'amax', 'b', 'k_void'))
        self.dom.dbu = self.dbu
        self.dom.heights = hs = [sym('height', p) for p in range(slabs + 1)]
        self.builder = I.call(ClassV(cls), [], dict(dbu=self.dbu, k_void=self.kvoid, delaunay_amax=self.amax,
                                                    delaunay_b=self.bmin), 1)
        for m in self.mats:
            self.call(self.builder, 'add_material', m, sym('k', m))
        self.given: List[Tuple[Region, int, int]] = []
        self.occ: Dict[Tuple[str, int], List[Tuple[int, int]]] = {}
        layers = []
        for s in range(slabs):
            layers += [(n, s, s + 1) for n in ['+' + x for x in self.nets] + ['-' + x for x in self.mats]]
        layers += [(n, 0, slabs) for n in long]
        for i, (n, z0, z1) in enumerate(layers):
            # inside of shapes only (no contour): both sides are the same
            l, r = I.var(('in', z0, i, 'l')), I.var(('in', z0, i, 'r' if contour else 'l'))
            for s in range(z0, z1):
                self.occ.setdefault((n, s), []).append((l, r))
            g = Region(l, r)
            self.given.append((g, l, r))
            self.call(self.builder, 'add_conductor' if n[0] == '+' else 'add_dielectric', n[1:], g, hs[z0],
                      T('bin', '-', hs[z1], hs[z0]))
        self.zs = [T('bin', '*', sym('level', p), self.dbu) for p in range(slabs + 1)]
        self.gen = self.call(self.builder, 'generate')
        if not isinstance(self.gen, Inst):
            raise AnalysisBroken('generate() does not return the model')

    def call(self, o, name, *args):
        I = self.I
        return I.call(I.getattr(o, name, 1), list(args), {}, 1)

    def owner(self, s, side):
        """{material or net: condition} of what fills slab s on that side; '' is the void"""
        I = self.I
        rest, out = 1, {}
        for n in [f"+{x}" for x in self.nets] + [f"-{x}" for x in self.mats]:
            g = I.Or(*[x[side] for x in self.occ[n, s]]) if (n, s) in self.occ else 0
            out[n] = I.And(rest, g)
            rest = I.And(rest, I.Not(g))
        out[''] = rest
        return out

    def surfaces(self):
        """[(condition, key, kind, place, facing)] of the triangles of the finished model"""
        I = self.I
        out = []
        for field in ('diel_data', 'cond_data'):
            d = I.getattr(self.gen, field, 1)
            for g, d in I.alts(d, 1):
                for c, k, lst in list(map(tuple, d.items.values())):
                    for g2, l in I.alts(lst, I.And(g, c)):
                        for g3, t in l.items:
                            for g4, tri in I.alts(t, I.And(g2, g3)):
                                out.append((g4, k) + self.triangle(tri))
        return out

    def triangle(self, tri):
        """(where, facing): ('h', plane), 'down'/'up'  or  ('v', slab), 'left'/'right'"""
        I = self.I
        pts = [I.getitem(tri, i, 1) for i in range(3)]
        cs = [[I.getattr(p, a, 1) for a in 'xyz'] for p in pts]
        srcs = {x.a[1] for cc in cs for t in cc if isinstance(t, T) for x in _subs(t) if x.op == 'sym' and x.a[0] == 'hull'}
        if len(srcs) != 1:
            raise AnalysisBroken(f"a triangle that is not one of a triangulation")
        poly = POLYS[srcs.pop()]
        idx = []
        for cc in cs:
            ii = {x.a[2] for t in cc if isinstance(t, T) for x in _subs(t) if x.op == 'sym' and x.a[0] == 'hull'}
            idx.append(ii.pop() if len(ii) == 1 else None)
        rev = tuple(idx) in ((2, 1, 0), (1, 0, 2), (0, 2, 1))
        if sorted(map(str, idx)) != ['0', '1', '2']:
            raise AnalysisBroken('a triangle that does not have the three corners of its polygon')
        dbu = norm(self.dbu)
        from ..q import pmul
        sc = lambda t: pmul(norm(t), dbu)
        if poly.kind == 'area':
            plane = None
            for i, cc in zip(idx, cs):
                hx, hy = (sym('hull', poly.id, i, a) for a in 'xy')
                z = [p for p, zz in enumerate(self.zs) if norm(cc[2]) == norm(zz)]
                if norm(cc[0]) != sc(hx) or norm(cc[1]) != sc(hy) or not z or plane not in (None, z[0]):
                    raise AnalysisBroken('corner of a horizontal triangle is not (x·dbu, y·dbu, z of the plane)')
                plane = z[0]
            return ('h', plane), 'up' if rev else 'down'
        x1, y1, x2, y2 = poly.box.c
        ends = []
        slab = None
        zr = [[p for p, zz in enumerate(self.zs) if norm(y) == _div(norm(zz), dbu)] for y in (y1, y2)]
        if not zr[0] or not zr[1] or abs(zr[0][0] - zr[1][0]) != 1:
            raise AnalysisBroken('a vertical surface does not span one slab')
        slab = min(zr[0][0], zr[1][0])
        for i, cc in zip(idx, cs):
            hx, hy = (sym('hull', poly.id, i, a) for a in 'xy')
            if norm(cc[2]) != sc(hy):
                raise AnalysisBroken('height of a vertical triangle')
            e = []
            for x in (x1, x2):
                s = {hx: norm(x)}
                e.append((_key(norm(cc[0], s)), _key(norm(cc[1], s))))
            s0, s1 = ({hx: norm(const(v))} for v in (0, 1))
            from ..q import padd
            de = tuple(_key(_div(padd(norm(cc[j], s1), norm(cc[j], s0), -1), dbu)) for j in (0, 1))
            ends.append((tuple(e), de))
        if len(set(ends)) != 1:
            raise AnalysisBroken('the corners of a vertical triangle are mapped differently')
        e, de = ends[0]
        A = (_key(sc(AX)), _key(sc(AY)))
        B = (_key(sc(BX)), _key(sc(BY)))
        if set(e) != {A, B}:
            raise AnalysisBroken('a vertical surface does not reach from one end of its edge to the other')
        neg = lambda t: pnorm(T('un', '-', t))
        if de == (_key(norm(U)), _key(norm(V))):
            fwd = True
        elif de == (_key(neg(U)), _key(neg(V))):
            fwd = False
        else:
            raise AnalysisBroken('direction of a vertical surface')
        # a KLayout hull is clockwise: over (along the edge, z) the normal points to the left of the edge
        return ('v', slab), 'left' if fwd != rev else 'right'


def _subs(t):
    from ..vfa import subterms
    return subterms(t)


def _key(p):
    return frozenset(p.items())


def _div(p, q):
    from ..q import pmul, pinv
    return pmul(p, pinv(q))


def _nm(v):
    return v if v else ''


def compare(c: Ctx, m: Model, tag: str):
    I = m.I
    below = lambda p: m.owner(p - 1, 0) if p >= 1 else {'': 1}
    above = lambda p: m.owner(p, 0) if p < m.slabs else {'': 1}
    found: Dict[tuple, List[int]] = {}
    other = []
    for g, k, place, face in m.surfaces():
        if not g:
            continue
        f = k.fields
        if 'net_name' in f:
            key = ('cond', '+' + f['net_name'], _nm(f['outside']) and '-' + f['outside'])
        elif 'inside' in f:
            key = ('diel', _nm(f['inside']) and '-' + f['inside'], _nm(f['outside']) and '-' + f['outside'])
        else:
            raise AnalysisBroken('the key of a surface')
        found.setdefault((key, place, face), []).append(g)
    # what has to be there: the triangle faces the material `outside` of its key
    names = ['+' + n for n in m.nets] + ['-' + x for x in m.mats] + ['']
    places = [(('h', p), below(p), above(p), ('down', 'up')) for p in range(m.slabs + 1)] + \
             [(('v', s), m.owner(s, 0), m.owner(s, 1), ('left', 'right')) for s in range(m.slabs)]
    claimed = set()
    for place, lo, hi, (fl, fh) in places:
        # two conductors touch: whatever is there
        touch = I.Or(*[I.And(lo.get(a, 0), hi.get(b, 0)) for a in names for b in names if a[:1] == '+' == b[:1] and a != b])
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                if b[:1] == '+':
                    continue
                if a[:1] == '+':
                    keys = [(('cond', a, b), None)]
                else:
                    keys = [(('diel', a, b), None), (('diel', b, a), None)]
                for (key, _), in [[k] for k in [keys[0]]]:
                    # a on one side, b on the other
                    exp = {0: I.And(lo.get(b, 0), hi.get(a, 0)),     # b below / left
                           1: I.And(lo.get(a, 0), hi.get(b, 0))}     # b above / right
                    for o in (0, 1):
                        pieces = list(found.get((keys[0][0], place, (fl, fh)[o]), []))
                        claimed.add((keys[0][0], place, (fl, fh)[o]))
                        if len(keys) > 1:
                            # the reversed key has to face the other way
                            pieces += found.get((keys[1][0], place, (fl, fh)[1 - o]), [])
                            claimed.add((keys[1][0], place, (fl, fh)[1 - o]))
                        got = I.Or(*pieces)
                        what = f"{b[1:] or 'void'}|{a[1:]} at {'plane' if place[0] == 'h' else 'slab'} {place[1]}{tag}, " \
                               f"{b[1:] or 'void'} {('below', 'above')[o] if place[0] == 'h' else ('left', 'right')[o]}"
                        miss = I.And(exp[o], I.Not(got))
                        extra = I.And(got, I.Not(exp[o]), I.Not(touch))
                        twice = 0
                        acc = 0
                        for x in pieces:
                            twice = I.Or(twice, I.And(acc, x, I.Not(touch)))
                            acc = I.Or(acc, x)
                        c.ob('interface-covered', miss == 0, what, 'no surface where the two materials meet', _loc(c))
                        c.ob('no-false-interface', extra == 0, what,
                             'a surface (or its normal) where these two materials do not meet', _loc(c))
                        c.ob('surface-once', twice == 0, what, 'two surfaces at the same place', _loc(c))
    for k, gs in found.items():
        if k in claimed:
            continue
        place = k[1]
        lo, hi = next((lo, hi) for p, lo, hi, _ in places if p == place)
        touch = I.Or(*[I.And(lo.get(a, 0), hi.get(b, 0)) for a in names for b in names if a[:1] == '+' == b[:1] and a != b])
        c.ob('no-false-interface', I.And(I.Or(*gs), I.Not(touch)) == 0, f"{k[0][1:]} {place}{tag}",
             'a surface between a material and itself', _loc(c))
    for r, l, rr in m.given:
        c.ob('layers-unchanged', r.l == l and r.r == rr and not r.boxes, f"layer given{tag}",
             'the generator modifies the caller\'s layer', _loc(c))
    for g, what in I.raised:
        c.fail('no-exception', what + tag, 'an exception can be raised while the model is built', _loc(c))
    c.analysed |= I.inlined
    c.events += I.steps


def _loc(c):
    f = c.prog.funcs.get(GEN + '.finish_z')
    return f.loc if f else ''


# ---------------------------------------------------------------- C35: the files for the field solver
MODULE = GEN.rsplit('.', 1)[0]


def _lines(parts):
    """the text of a file as lines of tokens: words of text and of values"""
    from ..absint import text
    t = text(parts)
    atoms = [t] if isinstance(t, str) else [x.a[0] if x.op == 'const' else x for x in t.a]
    lines, line, word = [], [], []

    def end_word():
        if word:
            line.append(word[0] if len(word) == 1 else tuple(word))
            word.clear()
    for a in atoms:
        if not isinstance(a, str):
            word.append(a)
            continue
        for ch in a:
            if ch == '\n':
                end_word()
                lines.append(line)
                line = []
            elif ch.isspace():
                end_word()
            elif word and isinstance(word[-1], str):
                word[-1] += ch
            else:
                word.append(ch)
    end_word()
    return lines, bool(line)


def _value(tok):
    """the number printed with all its significant digits (the repository prints %.12g)"""
    if isinstance(tok, T) and tok.op == 'fmt':
        f = tok.a[0]
        import re
        m = re.fullmatch(r'%?(?:\.(\d+))?([geEG]?)', f)
        if m and (m.group(1) is None and not m.group(2) or m.group(1) is not None and int(m.group(1)) >= 9 and m.group(2)):
            return tok.a[1]
    return None


def _number(tok):
    try:
        return float(tok)
    except (TypeError, ValueError):
        return None


def files_written(c: Ctx, dk, ck, empty, name_max=255, method='write_fastcap', prefix='pre_'):
    """one abstract run: these surfaces exist, those in `empty` have no triangles"""
    from ..regions import FileDomain
    dom = FileDomain(name_max)
    I = Interp(c.prog, dom)
    cl = lambda n: ClassV(c.prog.classes[f"{MODULE}.{n}"])
    for n in ('FasterCapModelGenerator', 'HDielKey', 'HCondKey', 'Triangle', 'Point'):
        c.need(f"{MODULE}.{n}" in c.prog.classes, n)
    md = DObj()
    for m in ('m0', 'm1'):
        I.dict_put(md, m, sym('k', m), 1)
    nets = sorted({n for n, _ in ck})
    gen = I.call(cl('FasterCapModelGenerator'), [], dict(
        dbu=sym('dbu'), k_void=sym('k_void'), delaunay_amax=sym('amax'), delaunay_b=sym('b'), materials=md,
        net_names=LObj([(1, n) for n in nets])), 1)
    dd, cd = DObj(), DObj()
    tris = {}

    def triangles(tag, n):
        out = []
        for j in range(n):
            ps = [[sym('p', tag, j, i, a) for a in 'xyz'] for i in range(3)]
            tris.setdefault(tag, []).append(ps)
            out.append((1, I.call(cl('Triangle'), [I.call(cl('Point'), p, {}, 1) for p in ps], {}, 1)))
        return LObj(out)
    for i, (o, n) in enumerate(dk):
        t = ('d', o, n)
        I.dict_put(dd, I.call(cl('HDielKey'), [], dict(outside=o, inside=n), 1), triangles(t, 0 if t in empty else 1 + i % 2), 1)
    for i, (n, o) in enumerate(ck):
        t = ('c', n, o)
        I.dict_put(cd, I.call(cl('HCondKey'), [], dict(net_name=n, outside=o), 1), triangles(t, 0 if t in empty else 1 + i % 2), 1)
    I.setattr(gen, 'diel_data', dd, 1)
    I.setattr(gen, 'cond_data', cd, 1)
    r = I.call(I.getattr(gen, method, 1), [], dict(output_dir_path='out', prefix=prefix), 1)
    c.analysed |= I.inlined
    c.events += I.steps
    return I, dom, r, tris


def check_files(c: Ctx, dk, ck, empty, name_max=255):
    I, dom, ret, tris = files_written(c, dk, ck, empty, name_max)
    f = c.prog.funcs.get(GEN + '.write_fastcap')
    loc = f.loc if f else ''
    k = lambda o: sym('k', o) if o else sym('k_void')
    ok = lambda rule, cond, what, msg: c.ob(rule, cond, what, msg, loc)
    ok('no-exception', not I.raised, 'write_fastcap', f"an exception can be raised: {I.raised[:1]}")
    by = {}
    for x in dom.files:
        ok('written-once', isinstance(x.path, str) and x.path not in by and x.mode in ('w', 'wt'), 'output file',
           f"{x.path} is written twice or not as a new text file")
        by[x.path] = x
        base = x.path.rsplit('/', 1)[-1]
        ok('in-directory', x.path == f"out/{base}", 'output file', f"{x.path} is not in the output directory")
        ok('name-length', len(base) <= name_max, 'output file', f"the file name has {len(base)} characters, {name_max} are possible")
    lst = by.get(ret)
    ok('list-file', lst is not None and isinstance(ret, str) and ret.startswith('out/'), 'list file',
       'the path returned is not that of the list file in the output directory')
    if lst is None:
        return
    lines, rest = _lines(lst.parts)
    ok('list-file', not rest, 'list file', 'the last line is not ended')
    surf = [l for l in lines if l and isinstance(l[0], str) and l[0] in ('C', 'D')]
    odd = [l for l in lines if l and not (isinstance(l[0], str) and (l[0] in ('C', 'D') or l[0].startswith('*')))]
    ok('list-file', not odd, 'list file', f"a line that is neither a surface nor a comment: {odd[:1]}")
    ok('list-file', bool(lines) and bool(lines[0]) and isinstance(lines[0][0], str) and lines[0][0].startswith('*'), 'list file',
       'the solver takes the first line as a title: it must not be a surface')
    present = [t for t in tris if t not in empty]
    seen: Dict[tuple, list] = {}
    used = set()
    order = []
    for l in surf:
        fn = l[1] if len(l) > 1 else None
        p = f"out/{fn}"
        if not ok('surface-file', isinstance(fn, str) and p in by and p not in used, 'line of the list file',
                  f"the line refers to {fn}, which is not written (or referred to twice)"):
            continue
        used.add(p)
        gl, grest = _lines(by[p].parts)
        T_ = [x for x in gl if x and x[0] == 'T']
        N_ = [x for x in gl if x and x[0] == 'N']
        ok('geo-file', not grest and bool(gl) and bool(gl[0]) and gl[0][0] == '0', 'geometry file', 'no title line, or the last line is not ended')
        ok('geo-file', len(T_) + len(N_) + 1 == len([x for x in gl if x]), 'geometry file', 'a line that is not T or N')
        tag = None
        pts = []
        for t in T_:
            vs = [_value(x) for x in t[2:]]
            if len(t) != 14 or any(v is None for v in vs):
                ok('geo-file', False, 'triangle line', f"not a number and four points: {len(t)} words")
                continue
            ps = [vs[0:3], vs[3:6], vs[6:9]]
            pts.append(ps)
            for q, lst_ in tris.items():
                if ps in lst_:
                    tag = q
            n = _normal(ps)
            ok('reference-point', _outside(ps, vs[9:12]), 'triangle line',
               'the reference point is not on the side the triangle faces')
        if tag is None:
            ok('surface-file', False, 'line of the list file', 'the geometry is none of the surfaces')
            continue
        seen.setdefault(tag, []).append(l)
        order.append(tag)
        ok('all-triangles', pts == tris[tag], 'geometry file', 'the triangles are not exactly those of the surface')
        if tag[0] == 'd':
            ok('dielectric-line', l[0] == 'D' and len(l) >= 7 and _value(l[2]) is k(tag[1]) and _value(l[3]) is k(tag[2]) and
               all(_number(x) == 0 for x in l[4:7]), f"dielectric {tag[1] or 'void'}|{tag[2] or 'void'}",
               'the line is not "D file k_outside k_inside 0 0 0 …"')
            ok('dielectric-line', not N_, 'geometry file', 'a dielectric has no conductor name')
        else:
            nm = [x for x in N_]
            tail = l[6:]
            ok('conductor-line', l[0] == 'C' and len(l) >= 6 and _value(l[2]) is k(tag[2]) and
               all(_number(x) == 0 for x in l[3:6]) and tail in ([], ['+']), f"conductor, outside {tag[2] or 'void'}",
               'the line is not "C file k_outside 0 0 0 [+]"')
    for t in present:
        ok('surface-listed', len(seen.get(t, [])) == 1, f"surface {t[1:]}", 'the surface is not listed exactly once')
    # conductors: the surfaces of a net follow each other, '+' on all but the last, the number is the same, the last has the name
    conds = [t for t in order if t[0] == 'c']
    nums: Dict[str, object] = {}
    for i, t in enumerate(conds):
        if len(seen.get(t, [])) != 1:
            continue
        l = seen[t][0]
        mine = [x for x in conds if x[1] == t[1]]
        last = t == mine[-1]
        gl, _ = _lines(by[f"out/{l[1]}"].parts)
        nn = {x[1] for x in gl if x and x[0] == 'T'}
        ok('one-number', len(nn) == 1 and all(isinstance(x, str) and x.isdigit() for x in nn), 'conductor', 'several conductor numbers in a file')
        num = next(iter(nn), None)
        ok('one-number', nums.setdefault(t[1], num) == num, 'conductor', 'the surfaces of a net have different conductor numbers')
        at = surf.index(l)
        ok('collated', (l[-1] == '+') == (not last), 'conductor', "'+' is on all surfaces of a net but the last")
        if not last:
            nxt = seen.get(conds[i + 1], [None])[0] if i + 1 < len(conds) else None
            ok('collated', nxt is not None and conds[i + 1][1] == t[1] and surf.index(nxt) == at + 1, 'conductor',
               "the surface after '+' is not of the same net")
        N_ = [x for x in gl if x and x[0] == 'N']
        ok('named', N_ == ([['N', num, t[1]]] if last else []), 'conductor',
           'the name of the net is not given exactly once, in the last file of the net')
    ok('one-number', len(set(nums.values())) == len(nums), 'conductor', 'two nets have the same conductor number')


def _normal(ps):
    from ..q import padd, pmul
    pt = [[pnorm(x) for x in p] for p in ps]
    a = [padd(pt[1][i], pt[0][i], -1) for i in range(3)]
    b = [padd(pt[2][i], pt[0][i], -1) for i in range(3)]
    cr = lambda i, j: padd(pmul(a[i], b[j]), pmul(a[j], b[i]), -1)
    return [cr(1, 2), cr(2, 0), cr(0, 1)]


def _outside(ps, rp):
    """rp = a corner + (something positive) * normal"""
    from ..q import padd, pmul
    n = _normal(ps)
    sq = {}
    for x in n:
        sq = padd(sq, pmul(x, x), 1)
    roots = {x for t in rp for x in _subs(t) if x.op == 'call' and x.a[0] == 'math.sqrt'}
    roots = {x for x in roots if pnorm(x.a[1][0]) == sq}
    for base in ps:
        d = [padd(pnorm(r), pnorm(b), -1) for r, b in zip(rp, base)]
        for scale in [{(): 1}] + [{((r, 1),): 1} for r in roots]:
            m = [pmul(x, scale) for x in d]
            # the same positive number times the normal
            qs = set()
            for x, y in zip(m, n):
                if set(x) != set(y):
                    qs.add(None)
                    continue
                qs |= {x[t] / y[t] for t in x}
            if len(qs) == 1 and None not in qs and next(iter(qs)) > 0:
                return True
    return False


@check('C35', 'abstract interpretation of the file writer over every pattern of empty surfaces, with open coordinates and permittivities',
       'two dielectric materials, three nets and nine interfaces with one or two triangles each, every pattern of missing surfaces of one side '
       '(thorough: of both sides, in both orders); numbers are exact')
def c35(c: Ctx):
    """write_fastcap() is interpreted for every combination of present and empty surfaces: every surface with triangles is
    listed once, with the permittivities of its two sides, in a file of its own that holds exactly its triangles with a
    reference point on the outer side; the surfaces of a net are collated, numbered alike and named once."""
    dk = [('m0', 'm1'), (None, 'm0'), ('m1', None)]
    ck = [('A', None), ('B', 'm0'), ('A', 'm1'), ('B', None), ('long_net_name_' * 6, 'm0'), ('A', 'm0')]
    import itertools
    every = [('d', a, b) for a, b in dk] + [('c', a, b) for a, b in ck]
    full = list(itertools.product((0, 1), repeat=len(every)))
    for bits in full:
        # dielectrics and conductors are independent: one of both sides is complete
        if c.tier == 'quick' and not all(b == 0 for b in bits[:3]) and not all(b == 0 for b in bits[3:]) and sum(bits) < len(bits):
            continue
        empty = {t for t, b in zip(every, bits) if b}
        check_files(c, dk, ck, empty)
        if len(c.violations) > 30:
            return
        if c.tier != 'quick':
            check_files(c, dk[::-1], ck[::-1], empty)
    check_files(c, dk, ck, set(), name_max=64)
    check_files(c, dk, ck, {('d', 'm0', 'm1')}, name_max=64)
    check_files(c, dk, [('a/b', None), ('a_b', 'm0'), ('a/b', 'm1'), ('/', None)], set())


# ---------------------------------------------------------------- C53: the STL files
@check('C53', 'abstract interpretation of the STL export over every pattern of empty surfaces, with open coordinates; value-flow analysis of the self-check',
       'two dielectric materials, nets with one to three interfaces, names with slashes, alike and too long; KLayout is not involved')
def c53(c: Ctx):
    """dump_stl() is interpreted for every combination of present and empty surfaces: each material and each net has one file with
    the triangles of its surfaces, facing the same side."""
    import itertools
    dk = [('m0', 'm1'), (None, 'm0'), ('m1', None)]
    ck = [('A', None), ('AB', 'm0'), ('A', 'm1'), ('a/b', None), ('a_b', 'm1')]
    every = [('d', a, b) for a, b in dk] + [('c', a, b) for a, b in ck]
    for bits in itertools.product((0, 1), repeat=len(every)):
        if c.tier == 'quick' and not all(b == 0 for b in bits[:3]) and not all(b == 0 for b in bits[3:]) and sum(bits) < len(bits):
            continue
        check_stl(c, dk, ck, {t for t, b in zip(every, bits) if b})
        if len(c.violations) > 30:
            return
    long = 'long_net_name_' * 6
    check_stl(c, dk, [(long + '1', None), (long + '2', 'm0'), ('B', None)], set(), name_max=64)
    self_check(c)


def cycle(ps):
    """a triangle, whichever corner it starts at"""
    ks = [tuple(p) for p in ps]
    return min((tuple(ks[i:] + ks[:i]) for i in range(3)), key=str)


def check_stl(c: Ctx, dk, ck, empty, name_max=255):
    I, dom, ret, tris = files_written(c, dk, ck, empty, name_max, method='dump_stl', prefix='')
    f = c.prog.funcs.get(GEN + '.dump_stl')
    loc = f.loc if f else ''
    ok = lambda rule, cond, what, msg: c.ob(rule, cond, what, msg, loc)
    ok('no-exception', not I.raised, 'dump_stl', f"an exception can be raised: {I.raised[:1]}")
    flip = lambda ps: [ps[0], ps[2], ps[1]]
    from collections import Counter
    want = {}
    for m in sorted({m for a, b in dk for m in (a, b) if m}):
        ts = []
        for (k, a, b), v in tris.items():
            if k == 'd' and a == m or k == 'c' and b == m:
                ts += [flip(t) for t in v]
            elif k == 'd' and b == m:
                ts += v
        want[f"material {m}"] = Counter(cycle(t) for t in ts)
    for n in sorted({n for n, _ in ck}):
        want[f"net {n}"] = Counter(cycle(t) for (k, a, b), v in tris.items() if k == 'c' and a == n for t in v)
    by, got = {}, []
    for x in dom.files:
        ok('written-once', isinstance(x.path, str) and x.path not in by and x.mode in ('w', 'wt'), 'STL file', f"{x.path} is written twice or not as a new text file")
        by[x.path] = x
        base = x.path.rsplit('/', 1)[-1]
        ok('in-directory', x.path == f"out/{base}" and base.endswith('.stl') and len(base) <= name_max, 'STL file', f"the file is called {x.path}")
        lines, rest = _lines(x.parts)
        lines = [l for l in lines if l]
        ok('stl-format', not rest and lines and lines[0][0] == 'solid' and lines[-1][0] == 'endsolid', 'STL file', 'is not begun with "solid" and ended with "endsolid"')
        body, ts, good = lines[1:-1], [], len(lines) >= 2 and (len(lines) - 2) % 7 == 0
        for i in range(0, len(body) - 6, 7):
            b = body[i:i + 7]
            vs = [[_value(t) for t in l[1:]] for l in b[2:5]]
            if b[0][:2] != ['facet', 'normal'] or len(b[0]) != 5 or b[1] != ['outer', 'loop'] or b[5] != ['endloop'] or b[6] != ['endfacet'] or \
                    any(l[0] != 'vertex' for l in b[2:5]) or any(len(v) != 3 or None in v for v in vs):
                good = False
                break
            ts.append(vs)
        ok('stl-format', good, 'STL file', 'holds something else than facets with three vertices of three numbers')
        if good:
            got.append((base, Counter(cycle(t) for t in ts)))
    left = list(got)
    for k, v in want.items():
        if not v:
            continue
        hit = [g for g in left if g[1] == v and (k.split(' ')[1][:8].replace('/', '_') in g[0])]
        if ok('stl-surface', bool(hit), k, 'has no STL file with exactly the triangles of its surfaces, facing its outside'):
            left.remove(hit[0])
    for g in left:
        ok('stl-surface', not g[1], f"{g[0]}", 'belongs to no material and no net')


def self_check(c: Ctx):
    """check(): every material and every net; every edge that occurs twice or has no partner is reported and counted"""
    q = GEN + '._check_tris'
    c.need(q in c.prog.funcs and GEN + '._normed_edges' in c.prog.funcs and GEN + '.check' in c.prog.funcs, q)
    edges_of_triangles(c)
    f = c.prog.funcs[q]
    e = c.analyse(q, opaque=[GEN + '._normed_edges', GEN + '._split_edges'])
    tri = T('param', f.node.args.args[2].arg)
    X = [ev.result for ev in e.events if ev.kind == 'call' and ev.callee == GEN + '._normed_edges' and ev.args == (tri,) and not ev.guards]
    if not c.ob('edges', len(X) == 1, q, 'the edges of the triangles are not compared', f.loc):
        return
    errs = [ev for ev in e.events if ev.kind == 'call' and ev.callee.endswith('.log.error') or ev.kind == 'call' and ev.callee.endswith('logger.error')]
    add = [ev for ev in e.events if ev.kind == 'call' and ev.name == 'add' and len(ev.args) == 1 and ev.loops and ev.loops[-1].iter is X[0]]
    S = {ev.recv for ev in add}
    if not c.ob('edges', len(S) == 1, q, 'the edges are not collected in one set', f.loc):
        return
    S = next(iter(S))
    el = add[0].args[0]
    twice = T('cmp', 'in', el, S)
    c.ob('edges', el.op == 'elem' and el.a[0] is X[0] and len(add[0].loops) == 1 and entails([T('not', twice)], conj(add[0].guards)), q,
         'an edge that is new is not remembered', add[0].loc)
    dup = [ev for ev in errs if ev.loops and ev.loops[-1].iter is X[0]]
    c.ob('duplicate-edge', len(dup) == 1 and len(dup[0].loops) == 1 and equiv(conj(dup[0].guards), twice), q,
         'an edge that occurs twice is not reported exactly once each time', dup[0].loc if dup else f.loc)
    at = {id(ev): i for i, ev in enumerate(e.events)}
    if dup:
        c.ob('duplicate-edge', at[id(dup[0])] < at[id(add[0])] or entails([conj(add[0].guards)], T('not', twice)), q, 'is looked for after it was added', dup[0].loc)
    opn = [ev for ev in errs if ev.loops and ev.loops[-1].iter is not None and ev.loops[-1].iter is S]
    good = False
    cond = None
    if len(opn) == 1 and len(opn[0].loops) == 1:
        x = opn[0].loops[0].elem
        for t in _subs(conj(opn[0].guards)):
            if t.op == 'cmp' and t.a[0] in ('in', 'not in') and t.a[2] is S:
                r = t.a[1]
                ok = is_new(r, 'Edge') and [v for v in r.a[1]] + [v for _, v in sorted(r.a[2])] in (
                    [T('attr', x, 'p1'), T('attr', x, 'p0')],) or is_call(r, '.reversed') and cargs(r) == (x,)
                cond = T('not', T('cmp', 'in', r, S))
                good = good or ok and equiv(conj(opn[0].guards), cond)
    c.ob('open-edge', good, q, 'an edge without its reverse is not reported exactly once', opn[0].loc if opn else f.loc)
    sp = [ev for ev in e.events if ev.kind == 'call' and ev.callee == GEN + '._split_edges']
    c.ob('split-edges', len(sp) == 1 and sp[0].args == (S,) and not sp[0].guards and not sp[0].loops and
         at[id(add[0])] < at[id(sp[0])] and all(at[id(sp[0])] < at[id(o)] for o in opn), q, 'edges are not split before they are compared', f.loc)
    # the number of errors
    conds = []
    ok = _counts(e, e.result, conds)
    c.ob('error-count', ok and len(conds) == 2 and any(equiv(x, twice) for x in conds) and cond is not None and any(equiv(x, cond) for x in conds), q,
         'does not count each of them', f.loc)
    # all surfaces
    q = GEN + '.check'
    f = c.prog.funcs[q]
    e = c.analyse(q, opaque=[GEN + '._check_tris', GEN + '._collect_diel_tris', GEN + '._collect_cond_tris'])
    ck = [ev for ev in e.events if ev.kind == 'call' and ev.callee == GEN + '._check_tris']
    me = T('param', 'self')
    for what, attr, col in (('material', 'materials', '_collect_diel_tris'), ('net', 'net_names', '_collect_cond_tris')):
        hit = [ev for ev in ck if len(ev.args) == 2 and is_call(ev.args[1], GEN + '.' + col)]
        ok = len(hit) == 1 and len(hit[0].loops) == 1 and not hit[0].guards
        if ok:
            it = hit[0].loops[0].iter
            while it is not None and (is_call(it, 'list', 'sorted', 'tuple', 'iter', 'enumerate') or is_call(it, '.keys') or is_call(it, '.items')):
                it = cargs(it)[0]
            a = [x for x in cargs(hit[0].args[1]) if x is not me]
            ok = it is T('attr', me, attr) and len(a) == 1 and a[0].op in ('elem', 'key') and _seq(a[0].a[0]) is it
        c.ob('all-surfaces', ok, q, f"the surface of each {what} is not checked", hit[0].loc if hit else f.loc)
    c.ob('all-surfaces', len(ck) == 2, q, f"{len(ck)} checks instead of two", f.loc)
    # the sum decides what is said at the end
    tot = {t for ev in e.events if ev.kind == 'call' for g, _ in ev.guards for t in _subs(g) if t.op == 'mu'}
    sums = [t for t in tot if _sums(e, t, {ev.result for ev in ck})]
    msgs = [ev for ev in e.events if ev.kind == 'call' and '.log.' in ev.callee and not ev.loops and any(mentions(a, *sums) for a in ev.args)]
    c.ob('error-sum', len(sums) == 1 and len(msgs) >= 1 and all(not sat([T('not', conj(m.guards)), T('not', T('cmp', '==', sums[0], const(0)))]) for m in msgs), q,
         'the errors of all surfaces are not added up and reported', f.loc)


def _seq(t):
    while is_call(t, 'list', 'sorted', 'tuple', 'iter', 'enumerate') or is_call(t, '.keys') or is_call(t, '.items'):
        t = cargs(t)[0]
    return t


def _counts(e, t, conds, depth=0):
    """t counts, loop by loop, how often conditions hold"""
    if depth > 6:
        return False
    p = pnorm(t)
    for m, k in p.items():
        if m == ():
            if k != 0:
                return False
            continue
        if k != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].op != 'mu':
            return False
        mu = m[0][0]
        init, up = e.mu_info[mu]
        leaves_ = list(gated_leaves(up))
        more = []
        for g, v in leaves_:
            d = padd(pnorm(v), pnorm(mu), -1)
            d = {a: b for a, b in d.items() if b}
            if d == {(): 1}:
                more.append(conj(g) if isinstance(g, (tuple, list)) else g)
            elif d:
                return False
        if not more:
            return False
        conds.append(more[0] if len(more) == 1 else T('or', *more))
        if not _counts(e, init, conds, depth + 1):
            return False
    return True


def _sums(e, t, results, depth=0):
    """t adds up the results, loop by loop"""
    seen = set()
    while t.op == 'mu' and depth < 6:
        depth += 1
        init, up = e.mu_info[t]
        d = {a: b for a, b in padd(pnorm(up), pnorm(t), -1).items() if b}
        if len(d) != 1 or list(d.values()) != [1]:
            return False
        k = next(iter(d))
        if len(k) != 1 or k[0][1] != 1 or k[0][0] not in results or k[0][0] in seen:
            return False
        seen.add(k[0][0])
        t = init
    return is_const(t, 0) and seen == set(results)


def edges_of_triangles(c: Ctx):
    from ..regions import FileDomain
    I = Interp(c.prog, FileDomain(255))
    cl = lambda n: ClassV(c.prog.classes[f"{MODULE}.{n}"])
    gen = I.call(cl('FasterCapModelGenerator'), [], dict(dbu=sym('dbu'), k_void=sym('k_void'), delaunay_amax=sym('amax'), delaunay_b=sym('b'),
                                                         materials=DObj(), net_names=LObj([])), 1)
    ts = LObj([(1, I.call(cl('Triangle'), [I.call(cl('Point'), [sym('p', j, i, a) for a in 'xyz'], {}, 1) for i in range(3)], {}, 1)) for j in range(2)])
    r = I.call(I.getattr(gen, '_normed_edges', 1), [ts], {}, 1)
    c.analysed |= I.inlined
    c.events += I.steps
    q = GEN + '._normed_edges'
    loc = c.prog.funcs[q].loc
    c.need(isinstance(r, LObj), 'the edges')
    got, norm = [], set()
    for g, ed in r.items:
        ends = []
        for k in ('p0', 'p1'):
            pt = I.getattr(ed, k, 1)
            vs = [I.getattr(pt, a, 1) for a in 'xyz']
            syms = [[t for t in _subs(v) if t.op == 'sym' and t.a[0] == 'p'] for v in vs]
            if any(len(set(x)) != 1 for x in syms):
                ends.append(None)
                continue
            ids = [x[0].a[1:] for x in syms]
            ends.append(ids[0][:2] if [i[2] for i in ids] == list('xyz') and len({i[:2] for i in ids}) == 1 else None)
            norm |= {subst(v, {x[0]: sym('x')}) for v, x in zip(vs, syms)}
        got.append((ends[0], ends[1], g))
    want = sorted((((j, i), (j, (i + 1) % 3)) for j in range(2) for i in range(3)))
    plain = sorted(x[:2] for x in got if None not in x[:2] and x[2] == 1)
    back = sorted((b, a) for a, b in plain)
    c.ob('edges', plain == want or back == want, q, 'the edges are not the three edges of each triangle, in one direction', loc)
    c.ob('edges', len(norm) == 1 and any(is_call(t, 'math.floor', 'round', 'math.ceil') for n in norm for t in _subs(n)), q,
         'the corners are not all rounded to the database grid in the same way', loc)


# ---------------------------------------------------------------- C36
QUICK = [(['a'], [], 1, (), True), ([], ['m0'], 1, (), True), (['a', 'b'], ['m0', 'm1'], 2, ('+a', '-m0'), True),
         (['a', 'b'], ['m0', 'm1', 'm2'], 3, ('+a', '-m0'), False),
         (['a'], ['m0', 'm1', 'm2'], 1, (), True)]
THOROUGH = QUICK + [(['a', 'b'], ['m0', 'm1', 'm2'], 2, ('+a', '-m0'), True), (['a', 'b'], ['m0', 'm1'], 3, (), True),
                    (['a', 'b', 'c'], ['m0', 'm1'], 2, (), True), (['a', 'b', 'c'], ['m0', 'm1', 'm2'], 4, (), False)]


@check('C36', 'abstract interpretation of the model builder in the pointwise domain (every region is its indicator at one arbitrary '
       'place, values are decision diagrams, emptiness and coordinates open)',
       'up to two nets, three materials and three slabs (thorough: three nets and four slabs); KLayout\'s region operations are exact set operations and their '
       'contours have the region on the right')
def c36(c: Ctx):
    """FasterCapModelBuilder and FasterCapModelGenerator are interpreted for layers with arbitrary shapes in every slab: the
    triangles of the finished model cover every place where two materials meet (a conductor before a dielectric, an earlier
    material before a later one), once, with the normal towards the outer side of the key, and no other place."""
    from .. import core
    import os
    tier = THOROUGH if c.tier == 'thorough' else QUICK
    for nets, mats, slabs, long, contour in tier:
        tag = f" ({len(nets)} nets, {len(mats)} materials, {slabs} slabs)"
        try:
            m = Model(c, nets, mats, slabs, long, contour)
            compare(c, m, tag)
        except MemoryError:
            raise AnalysisBroken(f"the conditions under which surfaces are made cannot be decided{tag}")
        for pc, a in m.dom.delaunay:
            vals = [pnorm(x if isinstance(x, T) else const(x)) for x in a]
            from ..q import pmul
            exp = [_div(pnorm(m.amax), pmul(pnorm(m.dbu), pnorm(m.dbu))), pnorm(m.bmin)]
            c.ob('triangulation', vals == exp, f"delaunay{tag}",
                 'the triangulation does not get the area limit in square database units and the angle parameter', _loc(c))
        if len(c.violations) > 30:
            return


