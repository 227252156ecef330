"""C32, C33, C34: requests to the R extraction engine, its results, the resistor network."""
from ..core import check, Ctx
from ..q import *
from ..bools import sat, entails, equiv, conj, feasible, specialise, enum_atom
from ..msgs import Msg, messages, attr
from ..vfa import const, mk_not, mk_cmp, mk_and, mk_or
from .netlists import live, raise_only
from .techinfo import path
from .caps import lookup

REX = 'klayout_pex.rcx25.r.r_extractor.RExtractor'
TI = 'klayout_pex.tech_info.TechInfo'
ME = T('param', 'self')
CTX = path(ME, 'pex_context')
TECH = path(CTX, 'tech')
ANN = path(CTX, 'annotated_layout')
EXTRACTED = path(CTX, 'extracted_layers')
RT = T('param', 'rex_tech')
KPX = 'klayout_pex_protobuf.'


def opaque_tech(ctx):
    return [q for q in ctx.prog.funcs if q.startswith(TI + '.') and 'milliohm' not in q]


def table(t):
    """(name of the TechInfo table, keys)"""
    b, ks = lookup(t)
    if b.op == 'call' and str(b.a[0]).startswith(TI + '.') and cargs(b) == (TECH,):
        return str(b.a[0])[len(TI) + 1:], ks
    return None, None


def pair_of(t):
    """layer(*pair) / layer(pair[0], pair[1]) of the annotated layout -> pair"""
    if not (is_call(t, '.layer', '.find_layer') and cargs(t)[0] is ANN):
        return None
    xs = list(cargs(t)[1:])
    if len(xs) == 1 and (is_new(xs[0], 'LayerInfo') or is_call(xs[0], 'LayerInfo')):
        xs = list(cargs(xs[0]))
    if len(xs) == 1 and xs[0].op == 'star':
        return xs[0].a[0]
    if len(xs) == 2 and all(x.op == 'item' and is_const(x.a[1], i) for i, x in enumerate(xs)) and xs[0].a[0] is xs[1].a[0]:
        return xs[0].a[0]
    return None


def gds_pair(t):
    """layer name of tech.gds_pair(name)"""
    if t is not None and is_call(t, f"{TI}.gds_pair") and cargs(t)[0] is TECH:
        return cargs(t)[1]
    return None


def presence(t):
    """condition on the existence of a table entry: (table, keys, value it has when the entry exists)"""
    if t.op == 'cmp' and t.a[0] in ('==', 'is') and is_const(t.a[2], None):
        n, k = table(t.a[1])
        return (n, k, False) if n and k else None
    if t.op == 'cmp' and t.a[0] == 'in':
        n, k = table(t.a[2])
        return (n, k + [t.a[1]], True) if n else None
    n, k = table(t)
    return (n, k, True) if n and k else None


class Layers:
    """the loop over the extracted layers and their source layers"""

    def __init__(self, e, loops):
        self.ok = False
        outer = [l for l in loops if is_call(l.iter, '.items') and cargs(l.iter)[0] is EXTRACTED or l.iter is EXTRACTED
                 or is_call(l.iter, '.values') and cargs(l.iter)[0] is EXTRACTED]
        if len(outer) != 1:
            return
        u = outer[0].uid
        self.key = T('key', EXTRACTED, u)
        self.info = [T('val', EXTRACTED, u), T('item', EXTRACTED, self.key), T('elem', T('call', '.values', (EXTRACTED,), ()), u)]
        inner = [l for l in loops if any(l.iter is path(i, 'source_layers') for i in self.info)]
        if len(inner) != 1:
            return
        self.src = T('elem', inner[0].iter, inner[0].uid)
        self.loops = {outer[0], inner[0]}
        self.uids = {outer[0].uid, inner[0].uid}
        self.ok = True

    def is_pair(self, t):
        return t is self.key or t is path(self.src, 'gds_pair') or any(t is path(i, 'gds_pair') for i in self.info)

    def is_lvs(self, t):
        return t is path(self.src, 'lvs_layer_name')

    def is_canonical(self, t):
        n, k = table(t)
        return n == 'canonical_layer_name_by_gds_pair' and len(k) == 1 and self.is_pair(k[0])

    def is_info(self, t):
        n, k = table(t)
        return n == 'computed_layer_info_by_gds_pair' and len(k) == 1 and self.is_pair(k[0])


def schema_enum(ctx, q):
    en = ctx.prog.protos.enums.get(q)
    ctx.need(en, f"no enum {q}")
    return en


def no_break(e, ev, raises=True):
    """no loop around the event can be left before its end (other than by raising)"""
    return all(k in ('raise', 'continue') for l in ev.loops for k, *_ in l.exits)


def layer_decide(L, purpose, kind, absent=()):
    """decides purpose, kind, and the presence of table entries"""
    pa = enum_atom(lambda x: is_attr(x, 'purpose') and is_attr(x.a[0], 'layer_info') and L.is_info(x.a[0].a[0]), purpose)
    ka = enum_atom(lambda x: is_attr(x, 'kind') and L.is_info(x.a[0]), kind)

    def f(t):
        v = pa(t)
        if v is not None:
            return v
        v = ka(t)
        if v is not None:
            return v
        p = presence(t)
        if p is not None:
            n, k, there = p
            known = {'computed_layer_info_by_gds_pair': L.is_pair, 'layer_resistance_by_layer_name': L.is_canonical,
                     'via_resistance_by_layer_name': L.is_canonical, 'contact_by_contact_lvs_layer_name': L.is_lvs,
                     'bottom_and_top_layer_name_by_via_computed_layer_name': L.is_lvs,
                     'contact_resistance_by_device_layer_name':
                         lambda x: is_attr(x, 'layer_below') and is_contact(L, x.a[0])}.get(n)
            if known and len(k) == 1 and known(k[0]):
                return there != (n in absent)
        return None
    return f


def is_contact(L, t):
    n, k = table(t)
    return n == 'contact_by_contact_lvs_layer_name' and len(k) == 1 and L.is_lvs(k[0])


CONDUCT = {'PURPOSE_N_IMPLANT': 'implant', 'PURPOSE_P_IMPLANT': 'implant', 'PURPOSE_METAL': 'metal'}
VIAS = {'PURPOSE_CONTACT': 'contact', 'PURPOSE_VIA': 'via'}


@check('C34', 'value-flow analysis with path conditions, decided per layer purpose; symbolic arithmetic on resistances',
       'The TechInfo tables are taken as C17 shows them. KLayout annotated_layout.layer(), the engine and its units are trusted.')
def c34(ctx: Ctx):
    """prepare_r_extractor_tech_pb: for every layer purpose and kind, which conductors and vias are handed over and with which field
    values; rex_core: translation of that message field by field."""
    q = f"{REX}.prepare_r_extractor_tech_pb"
    e = ctx.analyse(q, opaque=opaque_tech(ctx))
    conds, cm = messages(e, attr(RT, 'conductors'))
    vias, vm = messages(e, attr(RT, 'vias'))
    ctx.ob('messages', not cm and not vm and bool(conds) and bool(vias), q, 'conductors and vias are not added one by one')
    sk = Msg(e, RT, (), (), '')
    ctx.ob('skip_simplify', sk.vals('skip_simplify') == [path(ME, 'skip_simplify')], q, 'skip_simplify is not passed on')
    purposes = schema_enum(ctx, KPX + 'kpex.tech.tech_pb2.LayerInfo.Purpose')
    kinds = schema_enum(ctx, KPX + 'kpex.tech.tech_pb2.ComputedLayerInfo.Kind')
    for m in conds + vias:
        m.L = Layers(e, m.loops)
        ok = ctx.ob('per-source-layer', m.L.ok and len(m.loops) == 2 and no_break(e, m), q,
                    'is not added for each source layer of each extracted layer', m.loc)
        if not ok:
            return
    for pu in purposes:
        for ki in kinds:
            if ki in ('KIND_PIN', 'KIND_LABEL', 'KIND_UNSPECIFIED'):
                if ki == 'KIND_PIN':
                    for m in conds + vias:
                        g = specialise(conj(live(e, m.guards)), layer_decide(m.L, pu, ki))
                        ctx.ob('pin', g.op == 'const' and not g.a[0], f"{q} {pu} {ki}", 'a pin layer is a conductor of its own', m.loc)
                continue
            ac, av = [], []
            for ms, act in ((conds, ac), (vias, av)):
                for m in ms:
                    g = specialise(conj(live(e, m.guards)), layer_decide(m.L, pu, ki))
                    if not (g.op == 'const' and not g.a[0]):
                        act.append((m, g))
            where = f"{q} {pu} {ki}"
            what = CONDUCT.get(pu) or VIAS.get(pu)
            if not ctx.ob('kind', (len(ac), len(av)) == (pu in CONDUCT, pu in VIAS), where,
                          f"{len(ac)} conductors and {len(av)} vias for each layer"):
                continue
            for m, g in ac + av:
                ctx.ob('condition', g.op == 'const' and g.a[0], where, f"only added if {show(g)[:200]}", m.loc)
                entry(ctx, e, m, where, what, layer_decide(m.L, pu, ki))
                needed = {'contact': ['contact_by_contact_lvs_layer_name', 'contact_resistance_by_device_layer_name'],
                          'via': ['via_resistance_by_layer_name', 'bottom_and_top_layer_name_by_via_computed_layer_name']}.get(what, [])
                for n in needed:
                    used = [v for f in ('resistance', 'bottom_conductor.id') for v in m.vals(f) if v is not None]
                    sub = any(x.op == 'item' and table(x)[0] == n for v in used for x in subterms(v))
                    g0 = specialise(conj(live(e, m.guards)), layer_decide(m.L, pu, ki, absent=(n,)))
                    ctx.ob('incomplete', sub or g0.op == 'const' and not g0.a[0], f"{where} without {n}",
                           'a via without its data is handed over', m.loc)
    init = ctx.analyse(f"{REX}.__init__")
    for n in ('pex_context', 'substrate_algorithm', 'wire_algorithm', 'delaunay_b', 'delaunay_amax', 'via_merge_distance', 'skip_simplify'):
        v = init.final.heap.get((ME, n)) if init.final else None
        ctx.ob('parameter', v is T('param', n), f"{REX}.__init__", f"{n} is {show(v) if v is not None else 'not kept'}")
    translate(ctx)


def case_vals(m, name, dec):
    """field values when the conditions are decided"""
    out = []
    for g, v, ev in m.assignments(name):
        gg = specialise(conj(live(m.eng, g)), dec)
        if gg.op == 'const' and not gg.a[0]:
            continue
        for c, x in gated_leaves(v) if v is not None else [((), None)]:
            cc = specialise(conj(list(live(m.eng, g)) + list(c)), dec)
            if cc.op == 'const' and not cc.a[0]:
                continue
            out = [(c2, y) for c2, y in out if not (cc.op == 'const') and sat([c2, mk_not(cc)])]
            out.append((cc, x))
    return out


def single(m, name, dec):
    v = case_vals(m, name, dec)
    return v[0][1] if len(v) == 1 and v[0][0].op == 'const' else None


def entry(ctx, e, m, where, what, dec):
    L = m.L

    def field_is(name, ok, msg):
        v = single(m, name, dec)
        return ctx.ob('field', v is not None and ok(v), f"{where} {name}", f"{msg}: {show(v)[:200] if v is not None else 'unset'}", m.loc)
    field_is('layer.id', lambda v: pair_of(v) is not None and L.is_pair(pair_of(v)), 'is not the index of the layer')
    field_is('layer.canonical_layer_name', L.is_canonical, 'is not the canonical name of the layer')
    field_is('layer.lvs_layer_name', L.is_lvs, 'is not the LVS name of the layer')
    if what in ('implant', 'metal'):
        field_is('triangulation_min_b', lambda v: v is path(ME, 'delaunay_b'), 'is not the b parameter')
        field_is('triangulation_max_area', lambda v: v is path(ME, 'delaunay_amax'), 'is not the maximum area')
        alg = case_vals(m, 'algorithm', dec)
        if what == 'implant':
            ctx.ob('field', [v for _, v in alg] == [path(ME, 'substrate_algorithm')], f"{where} algorithm", 'is not the substrate algorithm', m.loc)
            field_is('resistance', lambda v: v.op == 'const' and v.a[0] == 0, 'an implant has a resistance of its own')
        else:
            cs = {v: c for c, v in alg}
            w, s = cs.get(path(ME, 'wire_algorithm')), cs.get(path(ME, 'substrate_algorithm'))

            def sub(c):
                return c.op == 'cmp' and c.a[0] == '==' and (
                    L.is_canonical(c.a[1]) and table(c.a[2])[0] == 'internal_substrate_layer_name' or
                    L.is_canonical(c.a[2]) and table(c.a[1])[0] == 'internal_substrate_layer_name')
            ok = len(alg) == 2 and w is not None and s is not None
            if ok:
                at = lambda yes: (lambda t: yes if sub(t) else None)
                ok = all(specialise(x, at(y)) is const(z) for x, y, z in ((s, True, True), (s, False, False), (w, False, True))) \
                    and specialise(mk_and([w, mk_not(s)]), at(True)) is const(False)
            ctx.ob('field', ok, f"{where} algorithm", f"wires and substrate are not told apart: {[(show(c)[:80], show(v)) for c, v in alg]}", m.loc)
            field_is('resistance', lambda v: ohms(L, v, 'layer_resistance_by_layer_name', None),
                     'is not the sheet resistance of the metal in ohms')
    else:
        def res(v):
            return ohms(L, v, 'contact_resistance_by_device_layer_name' if what == 'contact' else 'via_resistance_by_layer_name', 2)
        field_is('resistance', res, 'is not the resistance per contact in ohms times the contact area')
        field_is('merge_distance', lambda v: v is path(ME, 'via_merge_distance'), 'is not the merge distance')
        for name, i, fld in (('bottom_conductor.id', 0, 'layer_below'), ('top_conductor.id', 1, 'metal_above')):
            def end(v):
                n = gds_pair(pair_of(v)) if pair_of(v) is not None else None
                if n is None:
                    return False
                if is_attr(n, fld) and is_contact(L, n.a[0]):
                    return True
                tn, k = table(n)
                return what == 'via' and tn == 'bottom_and_top_layer_name_by_via_computed_layer_name' and len(k) == 2 and \
                    L.is_lvs(k[0]) and is_const(k[1], i)
            field_is(name, end, f"is not the layer {'below' if not i else 'above'} the contact")


def ohms(L, v, tab, width):
    """table[..].resistance / 1000 (* contact.width^2)"""
    p = pnorm(v)
    if len(p) != 1:
        return False
    (mono, c), = p.items()
    if c != Fraction(1, 1000):
        return False
    d = dict(mono)
    res = [a for a in d if isinstance(a, T) and is_attr(a, 'resistance') and table(a.a[0])[0] == tab]
    if len(res) != 1 or d.pop(res[0]) != 1:
        return False
    k = table(res[0].a[0])[1]
    if len(k) != 1 or not (L.is_canonical(k[0]) if tab != 'contact_resistance_by_device_layer_name' else
                           is_attr(k[0], 'layer_below') and is_contact(L, k[0].a[0])):
        return False
    if width is None:
        return not d
    return len(d) == 1 and all(isinstance(a, T) and is_attr(a, 'width') and is_contact(L, a.a[0]) and x == width for a, x in d.items())


# ------------------------------------------------------------------ rex_core
FIELDS = {'conductors': ('RExtractorTechConductor', 'add_conductor', {'layer': 'layer.id', 'triangulation_min_b': 'triangulation_min_b',
                                                                      'triangulation_max_area': 'triangulation_max_area',
                                                                      'resistance': 'resistance'}),
          'vias': ('RExtractorTechVia', 'add_via', {'cut_layer': 'layer.id', 'bottom_conductor': 'bottom_conductor.id',
                                                    'top_conductor': 'top_conductor.id', 'resistance': 'resistance',
                                                    'merge_distance': 'merge_distance'})}
ALG = {'ALGORITHM_SQUARE_COUNTING': 'SquareCounting', 'ALGORITHM_TESSELATION': 'Tesselation'}


def translate(ctx):
    q = 'klayout_pex.klayout.rex_core.klayout_r_extractor_tech'
    e = ctx.analyse(q)
    src = T('param', 'pb_tech')
    rets = [ev for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1]
    ok = len(rets) == 1 and is_new(rets[0].args[0], 'RExtractorTech')
    if not ctx.ob('translated', ok, q, 'does not return the engine\'s technology'):
        return
    k = rets[0].args[0]
    ctx.ob('translated', Msg(e, k, (), (), '').vals('skip_simplify') == [attr(src, 'skip_simplify')], f"{q} skip_simplify", 'is not passed on')
    for name, (cls, add, fields) in FIELDS.items():
        evs = [ev for ev in e.by_recv.get(k, []) if ev.kind == 'call' and ev.callee == '.' + add]
        if not ctx.ob('translated', len(evs) == 1, f"{q} {name}", f"{add} is called at {len(evs)} places"):
            continue
        ev = evs[0]
        ok = len(ev.loops) == 1 and ev.loops[0].iter is attr(src, name) and not live(e, ev.guards) and no_break(e, ev) and ev.args \
            and is_new(ev.args[0], cls)
        if not ctx.ob('translated', ok, f"{q} {name}", f"not one {cls} for every entry", ev.loc):
            continue
        x = T('elem', attr(src, name), ev.loops[0].uid)
        ok = ev.args[0].a[3] is not None and loops_of_new(e, ev.args[0]) == ev.loops
        ctx.ob('translated', ok, f"{q} {name}", 'entries share one object', ev.loc)
        m = Msg(e, ev.args[0], ev.guards, ev.loops, ev.loc, 0, ev.idx)
        for f, s in fields.items():
            ctx.ob('translated', m.vals(f) == [attr(x, s)], f"{q} {name}.{f}", f"is {[show(v)[:80] for v in m.vals(f) if v is not None]}, not {s}", ev.loc)
        if name == 'conductors':
            for en in schema_enum(ctx, KPX + 'kpex.klayout.r_extractor_tech_pb2.RExtractorTech.Algorithm'):
                if en not in ALG:
                    continue
                dec = enum_atom(lambda t: t is attr(x, 'algorithm'), en)
                v = case_vals(m, 'algorithm', dec)
                ok = len(v) == 1 and v[0][0].op == 'const' and v[0][1].op == 'ref' and v[0][1].a[0].split('.')[-1] == ALG[en]
                ctx.ob('translated', ok, f"{q} algorithm {en}", f"becomes {[show(y) for _, y in v if y is not None]}", ev.loc)


def loops_of_new(e, t):
    """loops around the place where the object is created"""
    for ev in e.events:
        if ev.result is t:
            return ev.loops
    return None


# ------------------------------------------------------------------ C32
LX = 'klayout_pex.klayout.lvsdb_extractor.KLayoutExtractionContext'
SC = 'klayout_pex.klayout.shapes_pb2_converter.ShapesConverter'


def unraised(e, guards):
    """guards without 'nothing was raised' and without conditions whose negation raises"""
    out = []
    rs = [live(e, ev.guards) for ev in e.events if ev.kind == 'raise']
    for t, p in live(e, guards):
        if any(len(r) == 1 and r[0] == (t, not p) for r in rs):
            continue
        out.append((t, p))
    return out


def appended(e, D):
    """what the lists of a dict of lists receive: [(key, value, event)]"""
    out = []
    for r, evs in list(e.by_recv.items()):
        k = None
        if r.op == 'item' and r.a[0] is D:
            k = r.a[1]
        elif is_call(r, '.setdefault') and len(cargs(r)) == 3 and cargs(r)[0] is D:
            k = cargs(r)[1]
        if k is not None:
            for ev in evs:
                if ev.kind == 'call' and ev.callee == '.append':
                    out.append((k, ev.args[0], ev))
                elif ev.kind == 'call' and ev.callee not in ('.append', '.get', '.copy', '.count', '.index'):
                    out.append((k, None, ev))
    for ev in e.by_recv.get(D, []):
        if ev.kind == 'setitem' or ev.kind == 'delitem' or ev.kind == 'call' and ev.callee in ('.update', '.clear', '.pop', '.popitem'):
            if not (ev.kind == 'setitem' and ev.args[1].op == 'lit' and not ev.args[1].a[1]):
                out.append((ev.args[0] if ev.args else None, None, ev))
    return out


def net_name_of(e, t, requests):
    """the name of the net whose request this is"""
    names = []
    for v in leaves(t):
        if v.op == 'item' or is_call(v, '.get', '.setdefault'):
            d, k = (v.a[0], v.a[1]) if v.op == 'item' else (cargs(v)[0], cargs(v)[1])
            sets = [ev for ev in e.by_recv.get(d, []) if ev.kind == 'setitem']
            if not sets or not all(any(m.t is x and m.val('net_name') is ev.args[0] for m in requests for x in leaves(ev.args[1])
                                       ) for ev in sets):
                return None
            names.append(k)
        else:
            m = [m for m in requests if m.t is v]
            if len(m) != 1:
                return None
            names.append(m[0].val('net_name'))
    return names[0] if names and all(n is names[0] for n in names) else None


def prepare(ctx):
    q = f"{REX}.prepare_request"
    e = ctx.analyse(q, opaque=opaque_tech(ctx) + [f"{REX}.prepare_r_extractor_tech_pb", 'klayout_pex.klayout'])
    rets = [ev for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1 and not ev.loops and ev.args and is_new(ev.args[0], 'RExtractionRequest')]
    R = rets[-1].args[0] if rets else None
    if not ctx.ob('request', R is not None, q, 'does not return a request'):
        return
    pt = calls(e, f"{REX}.prepare_r_extractor_tech_pb")
    ok = len(pt) == 1 and not unraised(e, pt[0].guards) and bind(ctx.prog, pt[0]).get('rex_tech') is attr(R, 'tech')
    ctx.ob('technology', ok, q, 'the technology is not part of the request')
    DEV = T('call', f"{LX}.devices_by_name", (CTX,), ())
    PIN = T('call', f"{LX}.pins_pb2_by_layer", (CTX,), ())

    def dict_values(t, d):
        return is_call(t, '.values') and cargs(t)[0] is d

    def whole(name, good):
        ms, merged = messages(e, attr(R, name))
        ok = not ms and len(merged) == 1 and not unraised(e, merged[0][1].guards) and no_break(e, merged[0][1]) and good(*merged[0])
        ctx.ob('complete', ok, f"{q} {name}", f"the request does not list all {name}")
    whole('devices', lambda v, ev: not ev.loops and dict_values(v, DEV))
    whole('pins', lambda v, ev: len(ev.loops) == 1 and (dict_values(ev.loops[0].iter, PIN) or ev.loops[0].iter is PIN or
                                                        is_call(ev.loops[0].iter, '.items') and cargs(ev.loops[0].iter)[0] is PIN)
          and v in (T('val', PIN, ev.loops[0].uid), T('item', PIN, T('key', PIN, ev.loops[0].uid)),
                    T('elem', ev.loops[0].iter, ev.loops[0].uid)) and ev.loops[0].iter is not PIN or v.op == 'item' and v.a[0] is PIN)
    requests, merged = messages(e, attr(R, 'net_extraction_requests'))
    ctx.ob('request', bool(requests) and not merged, f"{q} net_extraction_requests", 'no requests per net')
    for m in requests:
        n = m.val('net_name')
        ctx.ob('request', n is not None, f"{q} net_name", 'a request without net', m.loc)
        # a new request only when there is none for this net yet, and it is kept
        absent = []
        for t, p in m.guards:
            for x in subterms(t):
                if is_call(x, '.get') and len(cargs(x)) >= 2 and cargs(x)[1] is n:
                    absent.append((cargs(x)[0], x))
                elif x.op == 'cmp' and x.a[0] == 'in' and x.a[1] is n:
                    absent.append((x.a[2], x))
        ok = any(entails(list(m.guards), mk_not(x) if x.op == 'cmp' else mk_or([mk_not(x), mk_cmp('==', x, const(None))]))
                 and any(ev.kind == 'setitem' and ev.args[0] is n and m.t in leaves(ev.args[1]) and ev.loops == m.loops
                         for ev in e.by_recv.get(d, [])) for d, x in absent)
        ctx.ob('one-request-per-net', ok, f"{q} {m.loc}", 'a net can get several requests', m.loc)

    def entries(field):
        out = []
        for r in list(e.by_recv):
            if r.op == 'attr' and r.a[1] == field and r is not attr(R, field):
                n = net_name_of(e, r.a[0], requests)
                if n is None and not any(x is m.t for m in requests for x in leaves(r.a[0])):
                    continue
                ms, mg = messages(e, r)
                out += [(n, m) for m in ms] + [(n, None) for _ in mg]
            elif r.op == 'ite':
                ls = list(leaves(r))
                if all(x.op == 'attr' and x.a[1] == field for x in ls):
                    ns = {net_name_of(e, x.a[0], requests) for x in ls}
                    ms, mg = messages(e, r)
                    out += [(ns.pop() if len(ns) == 1 else None, m) for m in ms] + [(None, None) for _ in mg]
        return out
    for field, what in (('pins', 'pin'), ('device_terminals', 'terminal')):
        es = entries(field)
        if not ctx.ob('complete', len(es) == 1 and es[0][1] is not None, f"{q} {field}", f"{len(es)} places list the {what}s of a net"):
            continue
        n, m = es[0]
        src = m.base
        ok = src is not None and not unraised(e, m.guards) and no_break(e, m)
        if what == 'pin':
            ok = ok and len(m.loops) == 1 and m.loops[0].iter is attr(R, 'pins') and src is T('elem', attr(R, 'pins'), m.loops[0].uid)
        else:
            its = [l for l in m.loops if l.iter is attr(R, 'devices') or dict_values(l.iter, DEV)]
            ok = ok and len(m.loops) == 2 and len(its) == 1
            if ok:
                D = T('elem', its[0].iter, its[0].uid) if its[0].iter is attr(R, 'devices') else T('val', DEV, its[0].uid)
                tl = attr(D, 'terminals')
                inner = [l for l in m.loops if l.iter is tl]
                ok = len(inner) == 1 and src is T('elem', tl, inner[0].uid)
        ctx.ob('complete', ok, f"{q} {field}", f"not every {what} is listed in the request of its net", m.loc)
        ctx.ob('own-net', ok and n is attr(src, 'net_name'), f"{q} {field}", f"listed under {show(n)[:120] if n is not None else '?'}", m.loc)
    es = entries('region_by_layer')
    if not ctx.ob('complete', len(es) == 1 and es[0][1] is not None, f"{q} region_by_layer", f"{len(es)} places list the shapes of a net"):
        return
    n, m = es[0]
    L = Layers(e, m.loops)
    nets = [l for l in m.loops if is_call(l.iter, '.each_net')]
    ok = L.ok and len(nets) == 1 and len(m.loops) == 3 and no_break(e, m)
    if ok:
        c = cargs(nets[0].iter)[0]
        nl = T('call', '.netlist', (path(CTX, 'lvsdb'),), ())
        ok = is_call(c, '.circuit_by_name') and cargs(c)[0] is nl and cargs(c)[1] is path(CTX, 'annotated_top_cell', 'name') or \
            is_call(c, '.top_circuit') and cargs(c)[0] is nl or is_call(c, f"{LX}.top_circuit")
    if not ctx.ob('complete', ok, f"{q} region_by_layer", 'not every source layer of every layer is visited for every net', m.loc):
        return
    net = T('elem', nets[0].iter, nets[0].uid)
    ctx.ob('own-net', n is not None and is_call(n, '.expanded_name') and cargs(n)[0] is net, f"{q} region_by_layer",
           f"listed under {show(n)[:120] if n is not None else '?'}", m.loc)
    put = [ev for ev in calls(e, f"{SC}.klayout_region_to_pb") if any(a is attr(m.t, 'region') for a in list(ev.args) + list(ev.kw.values()))]
    ok = len(put) == 1 and put[0].loops == m.loops and equiv(conj(put[0].guards), conj(m.guards))
    r = list(put[0].args)[0] if ok else None
    ok = ok and is_call(r, f"{LX}.shapes_of_net") and cargs(r)[0] is CTX and L.is_pair(cargs(r)[1]) and cargs(r)[2] in (net, n)
    if not ctx.ob('own-net', ok, f"{q} region_by_layer.region", 'the region is not the shapes of this net on this layer', m.loc):
        return
    for f, good in (('layer.id', lambda v: pair_of(v) is not None and L.is_pair(pair_of(v))), ('layer.canonical_layer_name', L.is_canonical),
                    ('layer.lvs_layer_name', L.is_lvs)):
        v = m.val(f)
        ctx.ob('field', v is not None and good(v), f"{q} region_by_layer.{f}", f"is {show(v)[:120] if v is not None else 'unset'}", m.loc)
    g = unraised(e, m.guards)

    def nonempty(t):
        if t is r:
            return True
        if t.op == 'cmp' and t.a[0] in ('==', 'is') and t.a[1] is r and is_const(t.a[2], None):
            return False
        if is_call(t, '.is_empty') and cargs(t)[0] is r:
            return False
        if t.op == 'cmp' and any(is_call(x, '.count', '.size', 'len') and cargs(x)[0] is r for x in t.a[1:]):
            return (t.a[0] == '<') if is_const(t.a[1], 0) else (t.a[0] != '==') if is_const(t.a[2], 0) else None
        return None
    for ki in schema_enum(ctx, KPX + 'kpex.tech.tech_pb2.ComputedLayerInfo.Kind'):
        if ki in ('KIND_LABEL', 'KIND_UNSPECIFIED'):
            continue
        dec = layer_decide(L, '?', ki)
        x = specialise(conj(g), lambda t: nonempty(t) if nonempty(t) is not None else dec(t))
        ok = x is const(False) if ki == 'KIND_PIN' else x is const(True)
        ctx.ob('kind', ok, f"{q} region_by_layer {ki}", f"requested if {show(x)[:160]}", m.loc)


def deep(e, t):
    return t


def extraction(ctx):
    q = f"{REX}.extract"
    e = ctx.analyse(q, opaque=['klayout_pex.klayout', 'klayout_pex.tech_info'])
    RQ = T('param', 'rex_request')
    rets = [ev for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1 and not ev.loops]
    ok = len(rets) == 1 and rets[0].args and is_new(rets[0].args[0], 'RExtractionResult')
    if not ctx.ob('result', ok, q, 'does not return the result'):
        return
    RES = rets[0].args[0]
    xs = [ev for ev in calls(e, '.extract') if ev.recv is not None and is_new(ev.recv, 'RNetExtractor')]
    ok = len(xs) == 1 and len(xs[0].loops) == 1 and xs[0].loops[0].iter is attr(RQ, 'net_extraction_requests') and \
        not unraised(e, xs[0].guards) and no_break(e, xs[0])
    if not ctx.ob('every-net', ok, q, 'not every request is extracted'):
        return
    x = xs[0]
    REQ = T('elem', attr(RQ, 'net_extraction_requests'), x.loops[0].uid)
    ctx.ob('dbu', cargs(x.recv) == (path(CTX, 'dbu'),), q, 'the engine gets another database unit', x.loc)
    names = dict(zip(('tech', 'geo', 'vertex_ports', 'polygon_ports'), x.args))
    names.update(x.kw)
    tech = names.get('tech')
    ok = tech is not None and is_call(tech, 'klayout_r_extractor_tech') and cargs(tech) == (attr(RQ, 'tech'),)
    ctx.ob('technology', ok, q, 'the engine does not get the technology of the request', x.loc)

    def chain(loops, *fields):
        """element of REQ.f1, .f2 ... when the loops are exactly these"""
        if len(loops) != len(fields) + 1 or loops[0] is not x.loops[0]:
            return None
        t = REQ
        out = []
        for l, f in zip(loops[1:], fields):
            if l.iter is not attr(t, f):
                return None
            t = T('elem', l.iter, l.uid)
            out.append(t)
        return out

    def conv(v, fn, arg):
        return v is not None and is_call(v, f"{SC}.{fn}") and cargs(v)[1:] == (arg,)
    good_loops = lambda ev: not unraised(e, ev.guards) and no_break(e, ev) and ev.idx < x.idx
    # regions
    D = names.get('geo')
    evs = [ev for ev in e.by_recv.get(D, []) if ev.kind in ('setitem', 'delitem') or ev.kind == 'call' and ev.callee in ('.update', '.clear', '.pop')]
    extra = [ev for r in list(e.by_recv) if r.op == 'item' and r.a[0] is D for ev in e.by_recv[r] if ev.callee not in ('.count', '.bbox')]
    ev = evs[0] if len(evs) == 1 and not extra else extra[0] if len(extra) == 1 and not evs else None
    ok = ev is not None and good_loops(ev)
    if ok:
        c = chain(ev.loops, 'region_by_layer')
        ok = c is not None
        if ok:
            key = ev.args[0] if ev.kind == 'setitem' else ev.recv.a[1]
            v = ev.args[1] if ev.kind == 'setitem' else ev.args[0]
            if v.op == 'bin' and v.a[0] in '+|' and v.a[1].op == 'item' and v.a[1].a == (D, key):
                v = v.a[2]
            ok = key is attr(c[0], 'layer.id') and conv(v, 'klayout_region', attr(c[0], 'region')) and \
                (ev.kind == 'setitem' or ev.callee in ('.insert', '.__iadd__', '.__ior__'))
    ctx.ob('complete', ok, f"{q} regions", 'the engine does not get the region of each layer of the net under its layer', x.loc)
    inside = lambda t: t is not None and loops_of_new(e, t) is not None and x.loops[0] in loops_of_new(e, t) or t is not None and \
        t.op == 'lit' and x.loops[0] in e.created.get(t, ())
    ctx.ob('own-net', all(inside(names.get(k)) for k in ('geo', 'vertex_ports', 'polygon_ports')), q,
           'shapes or ports of one net are still there when the next net is extracted', x.loc)
    port_src = {}
    for pn, fn, fields, layer_at, arg in (
            ('vertex_ports', 'klayout_point', ('pins',), 0, 'label_point'),
            ('polygon_ports', 'klayout_polygon', ('device_terminals', 'region_by_layer', 'region.polygons'), 1, None)):
        ap = appended(e, names.get(pn))
        ok = len(ap) == 1 and ap[0][1] is not None and good_loops(ap[0][2])
        c = chain(ap[0][2].loops, *fields) if ok else None
        ok = ok and c is not None and ap[0][0] is attr(c[layer_at], 'layer.id') and \
            conv(ap[0][1], fn, attr(c[0], arg) if arg else c[-1])
        ctx.ob('complete', ok, f"{q} {pn}", 'the engine does not get each port of the net on its layer', x.loc)
        if ok:
            port_src[pn] = (c, ap[0])
    # results
    nets, mg = messages(e, attr(RES, 'networks'))
    ok = len(nets) == 1 and not mg and nets[0].loops == x.loops and not unraised(e, nets[0].guards)
    if not ctx.ob('every-net', ok, f"{q} networks", 'not one network per request'):
        return
    N = nets[0]
    ctx.ob('own-net', N.val('net_name') is attr(REQ, 'net_name'), f"{q} networks.net_name", 'the network is listed under another net', N.loc)
    nodes, mg = messages(e, attr(N.t, 'nodes'))
    els, mg2 = messages(e, attr(N.t, 'elements'))
    for what, ms, it in (('nodes', nodes, 'each_node'), ('elements', els, 'each_element')):
        ok = len(ms) == 1 and not (mg or mg2) and len(ms[0].loops) == 2 and ms[0].loops[0] is x.loops[0] and \
            is_call(ms[0].loops[1].iter, '.' + it) and cargs(ms[0].loops[1].iter) == (x.result,) and not unraised(e, ms[0].guards) and no_break(e, ms[0])
        if not ctx.ob('complete', ok, f"{q} {what}", f"not every one of the network's {what} is reported"):
            return
    n, el = nodes[0], els[0]
    rn = T('elem', n.loops[1].iter, n.loops[1].uid)
    re_ = T('elem', el.loops[1].iter, el.loops[1].uid)
    call = lambda t, *ns: call(T('call', '.' + ns[0], (t,), ()), *ns[1:]) if ns else t

    def fld(m, f, good, msg):
        v = m.vals(f)
        ctx.ob('field', len(v) == 1 and v[0] is not None and good(v[0]), f"{q} {'nodes' if m is n else 'elements'}.{f}",
               f"{msg}: {[show(y)[:120] for y in v if y is not None]}", m.loc)
    fld(n, 'node_id', lambda v: v is call(rn, 'object_id'), 'is not the id of the node')
    fld(n, 'node_name', lambda v: v is call(rn, 'to_s'), 'is not the name of the node')

    def layer_name(v):
        if not (v.op == 'item' and v.a[1] is call(rn, 'layer')):
            return False
        d = v.a[0]
        got = set()
        for en in dict_entries(e, d) or []:
            k, val, g, l = en
            if not g and len(l) == 1 and l[0].iter in (attr(RQ, 'tech.conductors'), attr(RQ, 'tech.vias')) and not l[0].exits:
                y = T('elem', l[0].iter, l[0].uid)
                if k is attr(y, 'layer.id') and val is attr(y, 'layer.canonical_layer_name'):
                    got.add(l[0].iter)
                    continue
            return False
        return len(got) == 2
    fld(n, 'layer_name', layer_name, 'is not the name of the layer of the node')
    fld(el, 'element_id', lambda v: v is call(re_, 'object_id'), 'is not the id of the element')
    fld(el, 'node_a.node_id', lambda v: v is call(re_, 'a', 'object_id'), 'is not the first node')
    fld(el, 'node_b.node_id', lambda v: v is call(re_, 'b', 'object_id'), 'is not the second node')
    ohm = [atom(call(re_, 'resistance')), pinv(atom(call(re_, 'conductance')))]
    fld(el, 'resistance', lambda v: pnorm(v) in ohm, 'is not the resistance in ohms')
    ty = call(rn, 'type')
    idx, lay = call(rn, 'port_index'), call(rn, 'layer')
    for kind in ('VertexPort', 'PolygonPort', 'Internal'):
        dec = enum_atom(lambda t: t is ty, kind)
        where = f"{q} nodes {kind}"
        v = single(n, 'net_name', dec)
        if kind == 'Internal':
            ctx.ob('node-net', v in (call(rn, 'to_s'), attr(REQ, 'net_name')), f"{where}.net_name", f"is {show(v)[:120] if v is not None else 'unset'}", n.loc)
        else:
            pn = 'vertex_ports' if kind == 'VertexPort' else 'polygon_ports'
            ok = v is attr(REQ, 'net_name') or pn in port_src and v is not None and port_net(e, v, idx, lay, inside, *port_src[pn])
            ctx.ob('node-net', ok, f"{where}.net_name", f"is not the net of its port: {show(v)[:160] if v is not None else 'unset'}", n.loc)
        box = kind != 'VertexPort'
        kv = single(n, 'location.kind', dec)
        ctx.ob('location', kv is not None and kv.op == 'ref' and kv.a[0].endswith('LOCATION_KIND_BOX' if box else 'LOCATION_KIND_POINT'),
               f"{where}.location.kind", f"is {show(kv)[:80] if kv is not None else 'unset'}", n.loc)
        loc = call(rn, 'location')
        dbu = path(CTX, 'dbu')
        it = lambda t: T('call', '.to_itype', (t, dbu), ())
        both = lambda t: [T('attr', it(t), c) for c in 'xy']
        if box:
            want = {'location.box.lower_left.x': [T('attr', it(attr(loc, 'p1')), 'x'), T('attr', it(loc), 'left')],
                    'location.box.lower_left.y': [T('attr', it(attr(loc, 'p1')), 'y'), T('attr', it(loc), 'bottom')],
                    'location.box.upper_right.x': [T('attr', it(attr(loc, 'p2')), 'x'), T('attr', it(loc), 'right')],
                    'location.box.upper_right.y': [T('attr', it(attr(loc, 'p2')), 'y'), T('attr', it(loc), 'top')],
                    'location.box.net': [v]}
        else:
            c = call(loc, 'center')
            want = {'location.point.x': [both(c)[0], T('attr', call(it(loc), 'center'), 'x')],
                    'location.point.y': [both(c)[1], T('attr', call(it(loc), 'center'), 'y')], 'location.point.net': [v]}
        for f, w in want.items():
            y = single(n, f, dec)
            if f.endswith('.net') and y is not None and any(y is attr(n.t, 'net_name') for _ in (0,)):
                y = v
            ok = y is not None and (y in w or any(norm_corner(y) is z for z in w))
            ctx.ob('location', ok, f"{where}.{f}", f"is {show(y)[:160] if y is not None else 'unset'}", n.loc)


def norm_corner(y):
    """b.p1.x of an integer box -> b.left ..."""
    if y.op == 'attr' and y.a[1] in 'xy' and y.a[0].op == 'attr' and y.a[0].a[1] in ('p1', 'p2'):
        return T('attr', y.a[0].a[0], {('p1', 'x'): 'left', ('p1', 'y'): 'bottom', ('p2', 'x'): 'right', ('p2', 'y'): 'top'}[y.a[0].a[1], y.a[1]])
    return y


def port_net(e, v, idx, lay, fresh, c, port):
    """v is the net of the port with this index on this layer: looked up in a table that is filled together with the ports"""
    proj = []
    while v.op in ('item', 'attr') and not (v.op == 'item' and v.a[1] is idx):
        proj.append((v.op, v.a[1]))
        v = v.a[0]
    if not (v.op == 'item' and v.a[1] is idx and v.a[0].op == 'item' and v.a[0].a[1] is lay):
        return False
    D = v.a[0].a[0]
    if not fresh(D):
        return False
    ap = appended(e, D)
    if len(ap) != 1 or ap[0][1] is None:
        return False
    k, val, ev = ap[0]
    pk, pv, pe = port
    if k is not pk or ev.loops != pe.loops or not equiv(conj(ev.guards), conj(pe.guards)):
        return False
    for op, a in reversed(proj):
        val = val.a[a.a[0]] if op == 'item' and val.op == 'tuple' and a.op == 'const' else T(op, val, a)
    # the ports of both kinds carry their net themselves
    return val is attr(c[0], 'net_name')


@check('C32', 'value-flow analysis: every net, pin, terminal, layer, node and element reaches the request and the result',
       'KLayout RNetExtractor, shapes_of_net (C24/C25 show its contents) and the shape converter (C41) are taken as given.')
def c32(ctx: Ctx):
    """prepare_request (contents of the request per net) and extract (ports and regions handed to the engine, fields of the result)."""
    prepare(ctx)
    extraction(ctx)
