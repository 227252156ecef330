"""C24, C25: layers, shapes, pins and devices of the LVS database."""
from ..core import check, Ctx
from ..q import *
from ..bools import sat, entails, equiv, conj, feasible, specialise, enum_atom, pick
from ..msgs import Msg, messages, attr
from ..vfa import const, mk_not, mk_cmp, mk_and, mk_or
from .netlists import live
from .techinfo import path
from .resist import (unraised, no_break, case_vals, single, schema_enum, appended, loops_of_new, TI, KPX)
from .caps import lookup

LX = 'klayout_pex.klayout.lvsdb_extractor.KLayoutExtractionContext'
SC = 'klayout_pex.klayout.shapes_pb2_converter.ShapesConverter'
ME = T('param', 'self')
TECHP = T('param', 'tech')
LVS = T('param', 'lvsdb')
BB = T('param', 'blackbox_devices')


def opaque_ti(ctx):
    return [q for q in ctx.prog.funcs if q.startswith(TI + '.')]


def table(t, tech):
    b, ks = lookup(t)
    if b.op == 'call' and str(b.a[0]).startswith(TI + '.') and cargs(b) == (tech,):
        return str(b.a[0])[len(TI) + 1:], ks
    return None, None


def present(t, tech):
    """(table, keys, value that this condition has when the entry exists)"""
    if t.op == 'cmp' and t.a[0] in ('==', 'is') and is_const(t.a[2], None):
        n, k = table(t.a[1], tech)
        return (n, k, False) if n and k else None
    if t.op == 'cmp' and t.a[0] == 'in':
        n, k = table(t.a[2], tech)
        return (n, k + [t.a[1]], True) if n else None
    n, k = table(t, tech)
    return (n, k, True) if n and k else None


class LvsLoop:
    """a loop over the layers of the LVS database"""

    def __init__(self, e, loops):
        idx = T('call', '.layer_indexes', (LVS,), ())
        nam = T('call', '.layer_names', (LVS,), ())
        self.ok = False
        if len(loops) != 1:
            return
        l = loops[0]
        u = l.uid
        it = l.iter
        while it is not None and is_call(it, 'list', 'tuple', 'iter') and len(cargs(it)) == 1:
            it = cargs(it)[0]
        parts = list(cargs(it)) if it is not None and is_call(it, 'enumerate', 'zip') else [it]
        parts = [y for x in parts for y in (cargs(x) if is_call(x, 'zip', 'enumerate') else [x])]
        if not parts or any(p not in (idx, nam) for p in parts):
            if not (it is not None and is_call(it, 'range') and cargs(it)[0] in (T('call', 'len', (idx,), ()), T('call', 'len', (nam,), ()))):
                return
            parts = []
        pos = [T('index', p, u) for p in (idx, nam)]
        self.idx = [T('elem', idx, u)] + [T('item', idx, p) for p in pos]
        self.names = [T('elem', nam, u)] + [T('item', nam, p) for p in pos] + [T('call', '.layer_name', (LVS, i), ()) for i in self.idx]
        self.positions = pos
        self.loop = l
        self.ok = True


def kind_decide(L, known, kind, black, extra=lambda t: None):
    is_info = lambda x: (lambda n, k: n == 'computed_layer_info_by_name' and len(k) == 1 and k[0] in L.names)(*table(x, TECHP))
    ka = enum_atom(lambda x: is_attr(x, 'kind') and is_info(x.a[0]), kind)

    def f(t):
        if t is BB:
            return black
        v = ka(t)
        if v is not None:
            return v
        p = present(t, TECHP)
        if p is not None and len(p[1]) == 1 and p[1][0] in L.names and p[0] in ('computed_layer_info_by_name', 'gds_pair_for_computed_layer_name'):
            return p[2] == known
        return extra(t)
    return f


@check('C24', 'value-flow analysis with path conditions, decided per kind of layer, known or unknown, both treatments of devices',
       'KLayout build_all_nets, cell_mapping_into and begin_shapes_rec are trusted. The names in the technology are those of C18/C19.')
def c24(ctx: Ctx):
    """prepare_extraction (layer map, network build, merged layers), shapes_of_net, shapes_of_layer: which layer and net each shape is
    attributed to."""
    layers(ctx)
    shapes(ctx)


def layers(ctx):
    q = f"{LX}.prepare_extraction"
    e = ctx.analyse(q, opaque=opaque_ti(ctx))
    rets = [ev for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1 and not ev.loops]
    ok = len(rets) == 1 and rets[0].args and is_new(rets[0].args[0], 'KLayoutExtractionContext')
    if not ctx.ob('context', ok, q, 'does not return the extraction context'):
        return
    kw = dict(ckw(rets[0].args[0]))
    names = ['lvsdb', 'tech', 'dbu', 'layer_index_map', 'lvsdb_regions', 'cell_mapping', 'annotated_top_cell', 'annotated_layout',
             'extracted_layers', 'unnamed_layers']
    kw.update(zip(names, cargs(rets[0].args[0])))
    lay = kw.get('annotated_layout')
    ctx.ob('context', kw.get('lvsdb') is LVS and kw.get('tech') is TECHP and lay is not None and is_new(lay, 'Layout'), q,
           'the context holds another database or technology')
    if lay is None:
        return
    dbu = T('attr', T('call', '.internal_layout', (LVS,), ()), 'dbu')
    st = [ev for ev in e.by_recv.get(lay, []) if ev.kind == 'store' and ev.callee == 'dbu']
    ctx.ob('context', kw.get('dbu') in (dbu, T('attr', lay, 'dbu')) and len(st) == 1 and st[0].args[0] is dbu and not st[0].guards, f"{q} dbu",
           'the database unit is not the one of the LVS database')
    top = kw.get('annotated_top_cell')
    ok = top is not None and is_call(strip(top), '.create_cell') or top is not None and top.op == 'new' and top.a[0] == '.create_cell'
    ctx.ob('context', ok and cargs(top) == (lay, T('param', 'top_cell')), f"{q} top cell", 'is not created under the requested name')
    ba = calls(e, '.build_all_nets')
    ok = len(ba) == 1 and ba[0].recv is LVS and not unraised(e, ba[0].guards) and not ba[0].loops
    if not ctx.ob('nets', ok, q, 'the nets are not built'):
        return
    ba = ba[0]
    a = dict(zip(('cmap', 'target', 'lmap', 'hier_mode', 'netname_prop', 'circuit_cell_name_prefix', 'net_cell_name_prefix',
                  'device_cell_name_prefix'), ba.args))
    a.update(ba.kw)
    cm = a.get('cmap')
    ok = cm is not None and is_call(strip(cm), '.cell_mapping_into') and cargs(cm)[:3] == (LVS, lay, top) and kw.get('cell_mapping') is cm
    ok = ok and len(cargs(cm)) >= 4 and equiv(cargs(cm)[3], mk_not(BB)) if ok else False
    ctx.ob('nets', ok, f"{q} cell mapping", 'does not map into the annotated layout, with device cells unless devices are black boxes', ba.loc)
    ctx.ob('nets', a.get('target') is lay, f"{q} target", 'the nets are built elsewhere', ba.loc)
    ctx.ob('nets', is_const(a.get('netname_prop', const(None)), 'net'), f"{q} net name property", 'is not the one that is read later', ba.loc)
    hm = a.get('hier_mode')
    ctx.ob('nets', hm is not None and str(hm.a[0] if hm.op == 'ref' else '').endswith('BNH_Flatten'), f"{q} hierarchy", 'the nets are not flattened', ba.loc)
    regions, imap = a.get('lmap'), kw.get('layer_index_map')
    ctx.ob('nets', kw.get('lvsdb_regions') is regions, f"{q} regions", 'the context holds another layer map')
    if regions is None or imap is None:
        ctx.fail('layer-map', q, 'there is no layer map')
        return
    # entries of the layer map
    sets = {}
    for d in (regions, imap):
        evs = [ev for ev in e.by_recv.get(d, []) if ev.kind in ('setitem', 'delitem') or ev.kind == 'call' and ev.callee in
               ('.update', '.pop', '.clear', '.popitem', '.setdefault')]
        ok = len(evs) >= 1 and all(ev.kind == 'setitem' for ev in evs)
        if not ctx.ob('layer-map', ok, q, 'the layer map is not filled layer by layer'):
            return
        sets[d] = evs
    for si, (sm, sr) in enumerate(zip(sets[imap], sets[regions])):
        L = LvsLoop(e, sm.loops)
        ok = L.ok and sr.loops == sm.loops and no_break(e, sm)
        if not ctx.ob('layer-map', ok, q, 'not every layer of the LVS database is visited', sm.loc):
            return
    ok = len(sets[imap]) == len(sets[regions])
    ctx.ob('layer-map', ok, q, 'the two maps are not filled together')
    if not ok:
        return
    gi = lambda L: [T('call', '.get_info', (T('call', '.internal_layout', (LVS,), ()), i), ()) for i in L.idx]

    def info_atom(L, empty):
        def f(t):
            if t.op == 'cmp' and t.a[0] == '==':
                for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if x in gi(L) and (is_new(y, 'LayerInfo') or is_call(y, 'LayerInfo')) and not cargs(y) and not ckw(y):
                        return empty
            if is_call(t, '.anonymous', '.is_anonymous') and cargs(t)[0] in gi(L):
                return empty
            return None
        return f
    KP = KPX + 'kpex.tech.tech_pb2.ComputedLayerInfo.Kind'
    cases = [(k, True, b, em) for k in schema_enum(ctx, KP) for b in (True, False) for em in (True, False)] + \
            [('?', False, b, em) for b in (True, False) for em in (True, False)]
    for kind, known, black, empty in cases:
        where = f"{q} {kind if known else 'unknown layer'}{' black box' if black else ''}{'' if not empty else ' without layer numbers'}"
        left = black and kind in ('KIND_DEVICE_RESISTOR', 'KIND_DEVICE_CAPACITOR') or not known and empty
        act = []
        for sm, sr in zip(sets[imap], sets[regions]):
            L = LvsLoop(e, sm.loops)
            dec = kind_decide(L, known, kind, black, info_atom(L, empty))
            gm, gr = (specialise(conj(unraised2(e, x.guards)), dec) for x in (sm, sr))
            if gm is const(False) and gr is const(False):
                continue
            act.append((L, sm, sr, gm, gr, dec))
        if left:
            ctx.ob('layer-map', not act, where, 'the layer is not left out')
            continue
        ok = len(act) == 1 and act[0][3] is const(True) and act[0][4] is const(True)
        if not ctx.ob('layer-map', ok, where, f"the layer is mapped {'twice' if len(act) > 1 else 'never' if not act else 'if ' + show(act[0][3])[:200]}"):
            continue
        L, sm, sr, _, _, dec = act[0]
        new = sm.args[1]
        ok = sm.args[0] in L.idx and sr.args[0] is new and sr.args[1] in [T('call', f, (LVS, i), ()) for f in ('.layer_by_index',) for i in L.idx] + \
            [T('call', '.layer_by_name', (LVS, n), ()) for n in L.names]
        ctx.ob('layer-map', ok, where, 'the region of the layer is mapped elsewhere', sm.loc)
        # a layer of its own, with the pair
        si = [ev for ev in calls(e, '.set_info', '.insert_layer') if ev.recv is lay] if False else \
            [ev for ev in e.by_recv.get(lay, []) if ev.kind == 'call' and ev.callee in ('.set_info', '.insert_layer') and ev.loops == sm.loops
             and specialise(conj(unraised2(e, ev.guards)), dec) is not const(False)]
        info = None
        if len(si) == 1 and si[0].callee == '.set_info' and si[0].args[0] is new and is_call(strip(new), '.layer') and cargs(new) == (lay,):
            info = si[0].args[1]
        elif len(si) == 1 and si[0].callee == '.insert_layer' and si[0].result is new:
            info = si[0].args[0]
        if not ctx.ob('layer-map', info is not None, where, 'the layer does not get an index of its own', sm.loc):
            continue
        v = pair_val(info, dec)
        if known:
            n, k = table(v, TECHP) if v is not None else (None, None)
            ok = n == 'gds_pair_for_computed_layer_name' and len(k) == 1 and k[0] in L.names or drw_pair(v, L)
            ctx.ob('layer-map', ok, where, f"gets the pair {show(v)[:160] if v is not None else '?'}, not the one of the technology", si[0].loc)
        else:
            ok = v is not None and v.op == 'tuple' and any(v.a == (T('attr', g, 'layer'), T('attr', g, 'datatype')) for g in gi(L))
            ctx.ob('layer-map', ok, where, f"gets the pair {show(v)[:160] if v is not None else '?'}", si[0].loc)
    merged(ctx, e, q, kw, imap, lay, top, ba)


def unraised2(e, guards):
    return [(t, p) for t, p in unraised(e, guards) if not (is_call(t, 'hasattr'))]


def pair_val(info, dec):
    if is_new(info, 'LayerInfo') or is_call(info, 'LayerInfo'):
        xs = list(cargs(info))
        if len(xs) == 1 and xs[0].op == 'star':
            return pick(xs[0].a[0], dec)
        if len(xs) == 2:
            xs = [pick(x, dec) for x in xs]
            if all(x.op == 'item' and is_const(x.a[1], i) for i, x in enumerate(xs)):
                ys = [pick(x.a[0], dec) for x in xs]
                if ys[0] is ys[1]:
                    return ys[0]
            return T('tuple', *xs)
    return None


def drw_pair(v, L):
    if v is None or v.op != 'tuple' or len(v.a) != 2:
        return False
    for x, f in zip(v.a, ('layer', 'datatype')):
        if not (is_attr(x, f) and is_attr(x.a[0], 'drw_gds_pair') and is_attr(x.a[0].a[0], 'layer_info')):
            return False
        n, k = table(x.a[0].a[0].a[0], TECHP)
        if n != 'computed_layer_info_by_name' or len(k) != 1 or k[0] not in L.names:
            return False
    return True


def merged(ctx, e, q, kw, imap, lay, top, ba):
    D, U = kw.get('extracted_layers'), kw.get('unnamed_layers')
    infos = [ev for ev in e.events if ev.result is not None and is_new(ev.result, 'KLayoutExtractedLayerInfo') and ev.kind == 'call']
    if not ctx.ob('merged', bool(infos) and D is not None and U is not None, q, 'there is no list of the extracted layers'):
        return
    adds = []       # (group key or None for unnamed, info, event, replaces)
    for ev in e.events:
        if ev.kind == 'setitem' and ev.recv is D:
            v = ev.args[1]
            src = dict(ckw(v)).get('source_layers', cargs(v)[0] if cargs(v) else None) if is_new(v, 'KLayoutMergedExtractedLayerInfo') else None
            its = list(src.a[1]) if src is not None and src.op == 'lit' and src.a[0] == 'list' else None
            pairv = dict(ckw(v)).get('gds_pair', cargs(v)[1] if len(cargs(v)) > 1 else None) if its is not None else None
            ctx.ob('merged', its is not None and (pairv is ev.args[0]), f"{q} group", 'a group of layers is not created with its pair', ev.loc)
            for x in its or []:
                adds.append((ev.args[0], x, ev, True))
            if not its:
                adds.append((ev.args[0], None, ev, True))
        elif ev.kind == 'call' and ev.callee == '.append' and ev.recv is U:
            adds.append((None, ev.args[0], ev, False))
        elif ev.kind == 'call' and ev.callee == '.append' and ev.recv is not None:
            gk = []         # the group it is appended to, on each path
            for v in leaves(ev.recv):
                ks = set()
                if is_attr(v, 'source_layers'):
                    for g in leaves(v.a[0]):
                        if g.op == 'item' and g.a[0] is D:
                            ks.add(g.a[1])
                        elif is_call(g, '.get', '.setdefault') and cargs(g)[0] is D:
                            ks.add(cargs(g)[1])
                        elif g.op == 'new':
                            ks |= {s.args[0] for s in e.by_recv.get(D, []) if s.kind == 'setitem' and s.args[1] is g}
                # list literal of a fresh group
                elif v.op == 'lit' and v.a[0] == 'list':
                    ks = {s.args[0] for s in e.by_recv.get(D, []) if s.kind == 'setitem' and
                          any(y is v for y in list(dict(ckw(s.args[1])).values()) + list(cargs(s.args[1])))}
                gk.append(ks)
            if any(gk) and all(len(ks) == 1 for ks in gk) and len(set.union(*gk)) == 1:
                adds.append((gk[0].copy().pop(), ev.args[0], ev, False))
    bad = [ev for ev in e.by_recv.get(D, []) if ev.kind == 'delitem' or ev.kind == 'call' and ev.callee in ('.pop', '.clear', '.update', '.popitem')]
    ctx.ob('merged', not bad, q, 'a group of layers is dropped', bad[0].loc if bad else '')
    KP = KPX + 'kpex.tech.tech_pb2.ComputedLayerInfo.Kind'
    cases = [(k, True, b) for k in schema_enum(ctx, KP) for b in (True, False)] + [('?', False, b) for b in (True, False)]
    for kind, known, black in cases:
        for has in (True, False) if known else (False,):
            where = f"{q} {kind if known else 'unknown layer'}{' black box' if black else ''} {'further' if has else 'first'} layer of its pair"
            left = black and kind in ('KIND_DEVICE_RESISTOR', 'KIND_DEVICE_CAPACITOR')
            act = []
            for key, x, ev, first in adds:
                L = LvsLoop(e, ev.loops)
                if not ctx.ob('merged', L.ok and no_break(e, ev), q, 'not every layer is listed', ev.loc):
                    return

                def extra(t):
                    for y in [t] + ([t.a[1]] if t.op == 'cmp' and t.a[0] in ('==', 'is') and is_const(t.a[2], None) else []):
                        if is_call(y, '.get') and cargs(y)[0] is D:
                            return has if y is t else not has
                    if t.op == 'cmp' and t.a[0] == 'in':
                        if t.a[2] is D:
                            return has
                        if t.a[2] is imap and t.a[1] in L.idx:
                            return True
                    m = map_entry(t.a[1], imap, L) if t.op == 'cmp' and is_const(t.a[2], None) else None
                    if m:
                        return False
                    return nonempty(t, lambda r: region_ok(e, r, imap, lay, top, L, ba))
                dec = kind_decide(L, known, kind, black, extra)
                g = specialise(conj(unraised2(e, ev.guards)), dec)
                if g is not const(False):
                    act.append((key, x, ev, first, g, dec, L))
            if left:
                ctx.ob('merged', not act, where, 'the layer is not left out')
                continue
            # appended to the group that was just created: counts once
            real = [a for a in act if a[1] is not None]
            ok = len(real) == 1 and real[0][4] is const(True) and not (has and any(a[3] for a in act))
            if not ctx.ob('merged', ok, where, 'replaces the layers listed before' if has and any(a[3] for a in act) else
                          f"the layer is listed {len(real)} times" + (f" if {show(real[0][4])[:120]}" if len(real) == 1 else '')):
                continue
            key, x, ev, first, g, dec, L = real[0]
            if not ctx.ob('merged', is_new(x, 'KLayoutExtractedLayerInfo'), where, 'another object is listed', ev.loc):
                continue
            f = dict(ckw(x))
            f.update(zip(('index', 'lvs_layer_name', 'gds_pair', 'region'), cargs(x)))
            ctx.ob('merged', f.get('lvs_layer_name') in L.names, f"{where} lvs_layer_name", 'is another layer', ev.loc)
            ctx.ob('merged', region_ok(e, f.get('region'), imap, lay, top, L, ba), f"{where} region",
                   'does not hold the shapes of the layer with their net', ev.loc)
            v = pick(f['gds_pair'], dec) if 'gds_pair' in f else None
            if known:
                n, k = table(v, TECHP) if v is not None else (None, None)
                ok = n == 'gds_pair_for_computed_layer_name' and len(k) == 1 and k[0] in L.names or drw_pair(v, L)
                ctx.ob('merged', ok and (pick(key, dec) is v or drw_pair(pick(key, dec), L)), f"{where} pair",
                       f"is {show(v)[:160] if v is not None else '?'}, not the one of the technology", ev.loc)
            else:
                ctx.ob('merged', key is None, where, 'a layer that is not known is listed among those of the technology', ev.loc)


def map_entry(t, imap, L):
    return t.op == 'item' and t.a[0] is imap and t.a[1] in L.idx or is_call(t, '.get') and cargs(t)[0] is imap and cargs(t)[1] in L.idx


def region_ok(e, r, imap, lay, top, L, ba):
    """Region(top.begin_shapes_rec(map[layer])) with properties, read after the nets were built"""
    if r is None or not is_new(r, 'Region') or len(cargs(r)) != 1:
        return False
    it = cargs(r)[0]
    s = it
    if not ((s.op == 'new' and s.a[0] == '.begin_shapes_rec' or is_call(s, '.begin_shapes_rec')) and len(cargs(s)) == 2):
        return False
    c, i = cargs(s)
    if not (c is top or is_call(c, '.top_cell') and cargs(c)[0] is lay) or not map_entry(i, imap, L):
        return False
    evs = e.by_recv.get(r, [])
    made = [ev for ev in e.events if ev.result is r]
    return bool(made) and made[0].idx > ba.idx and any(ev.kind == 'call' and ev.callee == '.enable_properties' and ev.loops == made[0].loops and
                                                       set(ev.guards) <= set(made[0].guards) for ev in evs)


def nonempty(t, is_region):
    if is_call(t, '.is_empty') and is_region(cargs(t)[0]):
        return False
    if t.op == 'cmp':
        for i, x in enumerate(t.a[1:]):
            if is_call(x, '.count', '.size', 'len') and is_region(cargs(x)[0]):
                o = t.a[2 - i]
                if t.a[0] == '<' and i == 0 and is_const(o, 1):
                    return False
                if t.a[0] == '<' and i == 1 and is_const(o, 0):
                    return True
                if t.a[0] == '==' and is_const(o, 0):
                    return False
    if is_call(t, '.count', '.size', 'len') and is_region(cargs(t)[0]):
        return True
    return None


# ------------------------------------------------------------------ shapes of a layer / net
EXTRACTED = T('attr', ME, 'extracted_layers')
GP = T('param', 'gds_pair')


def is_entry(t):
    return t.op == 'item' and t.a == (EXTRACTED, GP) or is_call(t, '.get') and cargs(t)[:2] == (EXTRACTED, GP)


def walked(e, ev):
    """(region, shape terms, transformation factors or None, guards of the loop) of the innermost shape iteration around an event"""
    if not ev.loops:
        return None
    l = ev.loops[-1]
    if l.iter is not None:
        r = l.iter
        if is_call(r, '.each'):
            r = cargs(r)[0]
        return r, [T('elem', l.iter, l.uid)], None
    c = l.cond
    if c is None:
        return None
    c = c.a[0] if c.op == 'not' else None
    if c is None or not is_call(c, '.at_end'):
        return None
    it = cargs(c)[0]
    base = it.a[0] if it.op == 'item' and is_const(it.a[1], 0) else None
    if base is None or not (base.op in ('new', 'call') and base.a[0] == '.begin_shapes_rec' and len(cargs(base)) == 1):
        return None
    nx = [x for x in e.by_recv.get(it, []) if x.kind == 'call' and x.callee == '.next']
    ok = len(nx) == 1 and nx[0].loops == ev.loops and nx[0].idx > ev.idx and entails(list(ev.guards), conj(nx[0].guards)) and \
        all(t is c for t, p in nx[0].guards if (t, p) not in outer_guards(e, l))
    if not ok:
        return None
    return cargs(base)[0], [T('call', '.shape', (it,), ())], (T('item', base, const(1)), T('call', '.trans', (it,), ()))


def outer_guards(e, l):
    """guards that hold already around the loop"""
    xs = [set(ev.guards) for ev in e.events if l in ev.loops]
    out = set.intersection(*xs) if xs else set()
    return out


def factors(t):
    if t.op == 'bin' and t.a[0] == '*':
        return factors(t.a[1]) + factors(t.a[2])
    if is_call(t, '.transformed') and len(cargs(t)) == 2:
        return factors(cargs(t)[1]) + factors(cargs(t)[0])
    return [t]


def placed(v, shapes, trans):
    """(is it the shape in place, net property that it carries)"""
    fs = factors(v)
    if trans is not None:
        if len(fs) != 3 or tuple(fs[:2]) != trans:
            return False, None
        fs = fs[2:]
    if len(fs) != 1:
        return False, None
    p, net = fs[0], None
    if is_new(p, 'PolygonWithProperties') or is_call(p, 'PolygonWithProperties'):
        args = cargs(p)
        if len(args) != 2:
            return False, None
        d = args[1]
        kv = d.a[1] if d.op == 'lit' and d.a[0] == 'dict' else ()
        if len(kv) == 1:
            k, w = kv[0] if isinstance(kv[0], tuple) else kv[0].a
            if is_const(k, 'net'):
                net = w
        p = args[0]
    poly = [T('attr', s, 'polygon') for s in shapes] + [T('call', '.polygon', (s,), ()) for s in shapes] + \
        ([s for s in shapes] if trans is None else [])
    if p not in poly:
        return False, None
    if net is None and trans is None and p in shapes:
        net = T('call', '.property', (p, const('net')), ())
    return True, net


def group_loop(e, loops):
    src = [l for l in loops if l.iter is not None and is_attr(l.iter, 'source_layers') and is_entry(l.iter.a[0])]
    return src[0] if len(src) == 1 else None


def shapes(ctx):
    q = f"{LX}.shapes_of_net"
    e = ctx.analyse(q, opaque=opaque_ti(ctx))
    rets = [ev for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1 and ev.args and len(ev.loops) == 0 and not is_const(ev.args[0], None)]
    rets = [ev for ev in rets if any(not is_const(v, None) for v in leaves(ev.args[0]))]
    net = T('param', 'net')
    regs = {v for ev in rets for v in leaves(ev.args[0]) if not is_const(v, None)}
    if ctx.ob('of-net', len(regs) == 1 and all(is_new(r, 'Region') and not cargs(r) for r in regs), q, 'does not return a region of its own'):
        R = regs.pop()
        ins = [ev for ev in e.by_recv.get(R, []) if ev.kind == 'call' and ev.callee not in ('.enable_properties',)]
        ok = len(ins) == 1 and ins[0].callee == '.insert' and len(ins[0].loops) == 2
        w = walked(e, ins[0]) if ok else None
        l = group_loop(e, ins[0].loops) if ok else None
        ok = ok and w is not None and l is not None and no_break(e, ins[0]) and w[0] is T('attr', T('elem', l.iter, l.uid), 'region')
        if ctx.ob('of-net', ok, q, 'the shapes of each source layer are not visited one by one'):
            ok, _ = placed(ins[0].args[0], w[1], w[2])
            ctx.ob('of-net', ok, q, f"inserts {show(ins[0].args[0])[:160]}, not the shape in its place", ins[0].loc)
            got = T('call', '.property', (w[1][0], const('net')), ())
            for is_net in (True, False):
                def dec(t):
                    if is_call(t, 'isinstance') and cargs(t)[0] is net:
                        return is_net if str(cargs(t)[1]).endswith('Net') or show(cargs(t)[1]).endswith('Net') else not is_net
                    if is_call(t, 'hasattr') and cargs(t)[0] is net:
                        return is_net
                    if is_entry(t) or t.op == 'cmp' and t.a[0] == 'in' and t.a[1:] == (GP, EXTRACTED):
                        return True
                    if t.op == 'cmp' and is_const(t.a[2], None) and is_entry(t.a[1]):
                        return False
                    if is_attr(t, 'source_layers') and is_entry(t.a[0]):
                        return True
                    if t.op == 'cmp' and any(is_call(x, 'len') and is_attr(cargs(x)[0], 'source_layers') for x in t.a[1:]):
                        return False if t.a[0] == '==' and is_const(t.a[2], 0) else None
                    if is_call(t, '.at_end'):
                        return False
                    return None
                want = T('call', '.expanded_name', (net,), ()) if is_net else net
                g = specialise(conj(unraised(e, ins[0].guards)), dec)
                ctx.ob('of-net', g is mk_cmp('==', got, want), f"{q} {'Net' if is_net else 'net name'}",
                       f"the shape belongs to the net if {show(g)[:200]}", ins[0].loc)
    q = f"{LX}.shapes_of_layer"
    e = ctx.analyse(q, opaque=opaque_ti(ctx))
    for n in (1, 2):
        def dec(t):
            if is_entry(t) or t.op == 'cmp' and t.a[0] == 'in' and t.a[1:] == (GP, EXTRACTED):
                return True
            if t.op == 'cmp' and is_const(t.a[2], None) and is_entry(t.a[1]):
                return False
            if is_attr(t, 'source_layers') and is_entry(t.a[0]):
                return True
            if t.op == 'cmp':
                for i, x in enumerate(t.a[1:]):
                    if is_call(x, 'len') and is_attr(cargs(x)[0], 'source_layers'):
                        o = t.a[2 - i]
                        if o.op == 'const' and isinstance(o.a[0], int):
                            if t.a[0] == '==':
                                return n == o.a[0] if o.a[0] < 2 else None
                            if t.a[0] == '<':
                                a, b = (n, o.a[0]) if i == 0 else (o.a[0], n)
                                return a < b if n == 1 or (o.a[0] < 2 if i == 1 else o.a[0] <= 2) else None
            if is_call(t, '.at_end'):
                return False
            return None
        where = f"{q} {'one source layer' if n == 1 else 'several source layers'}"
        vals = []
        for ev in e.events:
            if ev.kind == 'return' and len(ev.ctx) == 1 and ev.args:
                g = specialise(conj(unraised(e, ev.guards)), dec)
                if g is const(False):
                    continue
                vals.append((g, pick(ev.args[0], dec)))
        if not ctx.ob('of-layer', len(vals) == 1, where, f"returns {[show(v)[:80] for _, v in vals]}"):
            continue
        v = vals[0][1]
        if v.op == 'attr' and v.a[1] == 'region':
            x = v.a[0]
            ok = n == 1 and x.op == 'item' and is_const(x.a[1], 0) and is_attr(x.a[0], 'source_layers') and is_entry(x.a[0].a[0])
            ctx.ob('of-layer', ok, where, f"returns {show(v)[:120]}")
            continue
        if not ctx.ob('of-layer', is_new(v, 'Region') and not cargs(v), where, f"returns {show(v)[:120]}"):
            continue
        ins = [ev for ev in e.by_recv.get(v, []) if ev.kind == 'call' and ev.callee not in ('.enable_properties',)]
        ok = len(ins) == 1 and ins[0].callee == '.insert' and len(ins[0].loops) == 2
        w = walked(e, ins[0]) if ok else None
        l = group_loop(e, ins[0].loops) if ok else None
        ok = ok and w is not None and l is not None and no_break(e, ins[0]) and w[0] is T('attr', T('elem', l.iter, l.uid), 'region') and \
            specialise(conj(unraised(e, ins[0].guards)), dec) is const(True)
        if ctx.ob('of-layer', ok, where, 'not every shape of each source layer is taken'):
            ok, net = placed(ins[0].args[0], w[1], w[2])
            ctx.ob('of-layer', ok and net is T('call', '.property', (w[1][0], const('net')), ()), where,
                   'the shape is not inserted in its place with its net', ins[0].loc)
            en = [ev for ev in e.by_recv.get(v, []) if ev.callee == '.enable_properties' and ev.idx < ins[0].idx and
                  specialise(conj(unraised(e, ev.guards)), dec) is const(True)]
            ctx.ob('of-layer', bool(en), where, 'the region does not keep the nets')


# ------------------------------------------------------------------ C25
TECH = path(ME, 'tech')
LVSM = path(ME, 'lvsdb')
ANNM = path(ME, 'annotated_layout')
IMAP = path(ME, 'layer_index_map')
call = lambda t, n, *a: T('call', '.' + n, (t,) + a, ())


@check('C25', 'value-flow analysis: every device, parameter, terminal and pin label reaches the list, with the net and layer of its source',
       'KLayout shapes_of_terminal and the text and region operators are trusted; shapes are converted as C41 shows.')
def c25(ctx: Ctx):
    """devices_by_name, pins_pb2_by_layer, pins_of_layer, labels_of_layer: completeness and field values under every path."""
    devices(ctx)
    pins(ctx)
    of_layer(ctx)


def tidy_guards(e, m):
    return unraised(e, m.guards)


def devices(ctx):
    q = f"{LX}.devices_by_name"
    e = ctx.analyse(q, opaque=opaque_ti(ctx) + [SC])
    rets = [ev for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1]
    if not ctx.ob('devices', len(rets) == 1 and rets[0].args, q, 'does not return the devices'):
        return
    D = rets[0].args[0]
    top = [call(call(LVSM, 'netlist'), 'top_circuit'), T('call', f"{LX}.top_circuit", (ME,), ())]
    ents = dict_entries(e, D) or []
    ok = len(ents) == 1 and len(ents[0][3]) == 1 and not unraised(e, ents[0][2])
    l = ents[0][3][0] if ok else None
    ok = ok and l.iter is not None and is_call(l.iter, '.each_device') and cargs(l.iter)[0] in top and \
        all(k in ('raise', 'continue') for k, *_ in l.exits)
    if not ctx.ob('devices', ok, q, 'not every device of the top circuit is listed'):
        return
    key, d = ents[0][0], ents[0][1]
    dk = T('elem', l.iter, l.uid)
    cont = [k for k, *_ in l.exits if k == 'continue']
    ctx.ob('devices', not cont, q, 'devices are skipped')
    if not ctx.ob('devices', is_new(d, 'Device') and loops_of_new(e, d) == (l,), q, 'devices share one message'):
        return
    m = Msg(e, d, (), (l,), '')
    cls = call(dk, 'device_class')
    nm = call(dk, 'expanded_name')
    for f, want in (('id', [call(dk, 'id')]), ('device_name', [nm]), ('device_class_name', [T('attr', cls, 'name')]),
                    ('device_abstract_name', [T('attr', T('attr', dk, 'device_abstract'), 'name')])):
        v = m.val(f)
        ctx.ob('device', v in want, f"{q} {f}", f"is {show(v)[:120] if v is not None else 'unset'}")
    ctx.ob('device', key is nm or key is T('attr', d, 'device_name'), f"{q} key", 'devices are not listed under their name')
    # parameters
    ps, mg = messages(e, attr(d, 'parameters'))
    ok = len(ps) == 1 and not mg and len(ps[0].loops) == 2 and ps[0].loops[0] is l and no_break(e, ps[0]) and not unraised(e, ps[0].guards) and \
        ps[0].loops[1].iter is call(cls, 'parameter_definitions')
    if ctx.ob('parameter', ok, q, 'not every parameter is listed'):
        p = ps[0]
        pd = T('elem', p.loops[1].iter, p.loops[1].uid)
        for f, want in (('id', [call(pd, 'id')]), ('name', [T('attr', pd, 'name')]),
                        ('value', [call(dk, 'parameter', call(pd, 'id')), call(dk, 'parameter', T('attr', pd, 'name'))])):
            v = p.val(f)
            ctx.ob('parameter', v in want, f"{q} parameter {f}", f"is {show(v)[:120] if v is not None else 'unset'}", p.loc)
    # terminals
    ts, mg = messages(e, attr(d, 'terminals'))
    ok = bool(ts) and not mg and all(len(t.loops) in (2, 3) and t.loops[0] is l and t.loops[1].iter is call(cls, 'terminal_definitions') for t in ts)
    if not ctx.ob('terminal', ok, q, 'not every terminal is listed'):
        return
    for connected in (False, True):
        where = f"{q} {'connected' if connected else 'unconnected'} terminal"
        act = []
        for t in ts:
            g, td, ref = terminal_case(e, t, dk, connected)
            if g is not const(False):
                act.append((t, g, td, ref))
        ok = len(act) == 1 and act[0][1] is const(True) and all(k in ('raise', 'continue', 'break') for x in act[0][0].loops for k, *_ in x.exits)
        if not ctx.ob('terminal', ok, where, f"is listed {len(act)} times" + (f" if {show(act[0][1])[:200]}" if len(act) == 1 else '')):
            continue
        t, _, td, ref = act[0]
        net = call(dk, 'net_for_terminal', call(td, 'id'))
        # a loop is left early only after the terminal was found
        for lp in t.loops[:2]:
            ctx.ob('terminal', not any(k == 'break' for k, *_ in lp.exits), where, 'later terminals are lost', t.loc)
        dec = case_atoms(dk, td, connected) if ref is None else match_atoms(dk, td, connected, ref)
        for f, want in (('device_id', [call(dk, 'id')]), ('terminal_id', [call(td, 'id')]), ('name', [T('attr', td, 'name')])):
            v = single(t, f, dec)
            ctx.ob('terminal', v in want or f == 'device_id' and v is T('attr', d, 'id'), f"{where} {f}", f"is {show(v)[:120] if v is not None else 'unset'}", t.loc)
        vs = [v for _, v in case_vals(t, 'net_name', dec)]
        if connected:
            ctx.ob('terminal', len(vs) == 1 and vs[0] is call(net, 'expanded_name'), f"{where} net_name",
                   f"is {[show(v)[:120] for v in vs if v is not None]}", t.loc)
        else:
            ctx.ob('terminal', all(v is None or is_const(v, '') for v in vs), f"{where} net_name", 'is in some net', t.loc)
        rs, mg = messages(e, attr(t.t, 'region_by_layer'))
        if not connected:
            bad = [r for r in rs if specialise(conj(unraised(e, r.guards)), dec) is not const(False)]
            ctx.ob('terminal', not bad and not mg, f"{where} shapes", 'has shapes', t.loc)
            continue
        if not ctx.ob('terminal-shapes', len(rs) == 1 and not mg, where, 'the shapes are not listed layer by layer', t.loc):
            continue
        r = rs[0]
        sl = r.loops[-1] if r.loops else None
        src = sl.iter if sl is not None else None
        ok = src is not None and is_call(src, '.items') and is_call(cargs(src)[0], '.shapes_of_terminal') and \
            cargs(cargs(src)[0])[0] is LVSM and no_break(e, r)
        if not ctx.ob('terminal-shapes', ok, where, 'the shapes on some layer are not listed', r.loc):
            continue
        shp = cargs(src)[0]
        nt = cargs(shp)[1]
        refs = T('elem', call(net, 'each_terminal'), next((x.uid for x in r.loops if x.iter is call(net, 'each_terminal')), -1))
        ctx.ob('terminal-shapes', nt is refs, where, 'the shapes are those of another terminal', r.loc)
        li = T('key', shp, sl.uid)
        ri = [T('item', IMAP, li), T('call', '.get', (IMAP, li), ()), T('call', '.get', (IMAP, li, const(None)), ())]

        def infos(v):
            return v.op == 'item' and is_call(v.a[0], '.layer_infos') and cargs(v.a[0])[0] is ANNM and v.a[1] in ri or \
                is_call(v, '.get_info') and cargs(v)[0] is ANNM and cargs(v)[1] in ri

        def canon(v):
            n, k = table(v, TECH)
            if n != 'canonical_layer_name_by_gds_pair' or len(k) != 1 or k[0].op != 'tuple' or len(k[0].a) != 2:
                return False
            return all(is_attr(x, f) and infos(x.a[0]) for x, f in zip(k[0].a, ('layer', 'datatype')))

        def full(x):
            v = dec2(x)
            if v is not None:
                return v
            if x in ri:
                return True
            if x.op == 'cmp' and x.a[0] in ('==', 'is') and is_const(x.a[2], None):
                if x.a[1] in ri or canon(x.a[1]):
                    return False
            if x.op == 'cmp' and x.a[0] == 'in':
                if x.a[2] is IMAP and x.a[1] is li:
                    return True
                n, k = table(x.a[2], TECH)
                if n and canon(T('item', x.a[2], x.a[1])):
                    return True
            return None
        dec2 = match_atoms(dk, td, connected, refs)
        g = specialise(conj(unraised(e, r.guards)), full)
        ctx.ob('terminal-shapes', g is const(True), where, f"only listed if {show(g)[:200]}", r.loc)
        v = single(r, 'layer.id', full)
        ctx.ob('terminal-shapes', v in ri, f"{where} layer", f"is {show(v)[:120] if v is not None else 'unset'}", r.loc)
        v = single(r, 'layer.canonical_layer_name', full)
        ctx.ob('terminal-shapes', v is not None and canon(v), f"{where} layer name", f"is {show(v)[:120] if v is not None else 'unset'}", r.loc)
        put = [ev for ev in calls(e, f"{SC}.klayout_region_to_pb") if any(a is attr(r.t, 'region') for a in list(ev.args) + list(ev.kw.values()))]
        ok = len(put) == 1 and put[0].loops == r.loops and specialise(conj(unraised(e, put[0].guards)), full) is const(True)
        ok = ok and (list(put[0].args) + list(put[0].kw.values()))[0] is T('val', shp, sl.uid)
        ctx.ob('terminal-shapes', ok, f"{where} region", 'does not hold the shapes of the layer', r.loc)


def case_atoms(dk, td, connected):
    net = call(dk, 'net_for_terminal', call(td, 'id'))
    nets = (net, call(dk, 'net_for_terminal', T('attr', td, 'name')))

    def f(t):
        if t in nets:
            return connected
        if t.op == 'cmp' and t.a[0] in ('==', 'is') and is_const(t.a[2], None) and t.a[1] in nets:
            return not connected
        return None
    return f


def match_atoms(dk, td, connected, ref):
    base = case_atoms(dk, td, connected)
    rd, rt = call(ref, 'device'), call(ref, 'terminal_id')
    same = [{dk, rd}, {call(dk, 'expanded_name'), call(rd, 'expanded_name')}, {call(dk, 'id'), call(rd, 'id')},
            {call(td, 'id'), rt}, {call(td, 'id'), call(call(ref, 'terminal_def'), 'id')},
            {T('attr', td, 'name'), T('attr', call(ref, 'terminal_def'), 'name')}]

    def f(t):
        v = base(t)
        if v is not None:
            return v
        if t.op == 'cmp' and t.a[0] == '==' and set(t.a[1:]) in same:
            return True
        return None
    return f


def terminal_case(e, t, dk, connected):
    td = T('elem', t.loops[1].iter, t.loops[1].uid)
    net = call(dk, 'net_for_terminal', call(td, 'id'))
    g = unraised(e, t.guards)
    if len(t.loops) == 3:
        if t.loops[2].iter is not call(net, 'each_terminal'):
            return T('loop'), td, None
        ref = T('elem', t.loops[2].iter, t.loops[2].uid)
        # both the device and the terminal are compared
        x = specialise(conj(g), match_atoms(dk, td, connected, ref))
        if x is const(True):
            rd = call(ref, 'device')
            dev = any(call(rd, n) in set(subterms(conj(g))) for n in ('expanded_name', 'id')) or rd in set(subterms(conj(g)))
            ter = any(y in set(subterms(conj(g))) for y in (call(ref, 'terminal_id'), call(ref, 'terminal_def')))
            if not (dev and ter):
                return T('unmatched'), td, ref
        return x, td, ref
    return specialise(conj(g), case_atoms(dk, td, connected)), td, None


def pins(ctx):
    q = f"{LX}.pins_pb2_by_layer"
    e = ctx.analyse(q, opaque=opaque_ti(ctx) + [f"{LX}.pins_of_layer", f"{LX}.labels_of_layer"])
    rets = [ev for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1]
    if not ctx.ob('pins', len(rets) == 1 and rets[0].args, q, 'does not return the pins'):
        return
    D = rets[0].args[0]
    ap = appended(e, D)
    if not ctx.ob('pins', len(ap) == 1 and ap[0][1] is not None, q, 'pins are not listed one by one'):
        return
    key, pin, ev = ap[0]
    outer = [l for l in ev.loops if l.iter is EXTRACTED or l.iter is not None and is_call(l.iter, '.items', '.keys') and cargs(l.iter)[0] is EXTRACTED]
    ok = len(outer) == 1 and len(ev.loops) == 3 and no_break(e, ev)
    u = outer[0].uid if ok else -1
    k0 = T('key', EXTRACTED, u)
    infos = [T('val', EXTRACTED, u), T('item', EXTRACTED, k0)]
    sl = [l for l in ev.loops if l.iter is not None and is_attr(l.iter, 'source_layers') and l.iter.a[0] in infos]
    ok = ok and len(sl) == 1
    if not ctx.ob('pins', ok, q, 'not every source layer of every layer is visited', ev.loc):
        return
    src = T('elem', sl[0].iter, sl[0].uid)
    is_pair = lambda t: t is k0 or t is T('attr', src, 'gds_pair') or any(t is T('attr', i, 'gds_pair') for i in infos)

    def canon(t):
        n, k = table(t, TECH)
        return n == 'canonical_layer_name_by_gds_pair' and len(k) == 1 and is_pair(k[0])

    def drw(t):
        n, k = table(t, TECH)
        return n == 'gds_pair_for_layer_name' and len(k) == 1 and canon(k[0])
    ctx.ob('pins', drw(key), f"{q} key", f"is {show(key)[:160]}, not the layer pair", ev.loc)
    lab = [l for l in ev.loops if l not in (outer[0], sl[0])][0]
    it = lab.iter
    PN, LN = f"{LX}.pins_of_layer", f"{LX}.labels_of_layer"
    a = b = None
    if it is not None and it.op == 'bin' and it.a[0] == '&':
        a, b = it.a[1:]
    elif it is not None and is_call(it, '.interacting') and len(cargs(it)) == 2:
        a, b = cargs(it)
    ok = a is not None and is_call(a, LN) and is_call(b, PN) and all(cargs(x)[0] is ME and drw(cargs(x)[1]) for x in (a, b))
    if not ctx.ob('pins', ok, q, 'the labels are not those on the pins of the layer', ev.loc):
        return

    def dec(t):
        if t.op == 'cmp' and t.a[0] in ('==', 'is') and is_const(t.a[2], None) and drw(t.a[1]):
            return False
        if t.op == 'cmp' and t.a[0] == 'in' and (drw(t.a[1]) and table(t.a[2], TECH)[0] == 'layer_info_by_gds_pair' or
                                                 canon(t.a[1]) and table(t.a[2], TECH)[0] == 'gds_pair_for_layer_name'):
            return True
        if drw(t):
            return True
        return None
    g = specialise(conj(unraised(e, ev.guards)), dec)
    ctx.ob('pins', g is const(True), q, f"a pin is only listed if {show(g)[:200]}", ev.loc)
    if not ctx.ob('pins', is_new(pin, 'Pin') and loops_of_new(e, pin) is not None and set(loops_of_new(e, pin)) == set(ev.loops), q,
                  'pins share one message', ev.loc):
        return
    m = Msg(e, pin, ev.guards, ev.loops, ev.loc)
    t = T('elem', lab.iter, lab.uid)
    pos = [call(t, 'position')] + [T('attr', t, 'position')]
    for f, good in (('label', lambda v: v is T('attr', t, 'string')), ('label_point.x', lambda v: v in [T('attr', p, 'x') for p in pos] or v is T('attr', t, 'x')),
                    ('label_point.y', lambda v: v in [T('attr', p, 'y') for p in pos] or v is T('attr', t, 'y')),
                    ('layer.canonical_layer_name', canon), ('layer.id', lambda v: layer_id(v, is_pair)),
                    ('layer.lvs_layer_name', lambda v: lvs_name(v, is_pair, src))):
        v = single(m, f, dec)
        ctx.ob('pin', v is not None and good(v), f"{q} {f}", f"is {show(v)[:160] if v is not None else 'unset'}", ev.loc)

    def of_pin(v, guards=()):
        """the net of the pin shape at the label"""
        if v.op == 'ite':
            return all(of_pin(x, list(guards) + list(c)) for c, x in gated_leaves(v) if not is_const(x, None) and not is_const(x, ''))
        if v.op == 'mu' and v in e.mu_info:
            init, upd = e.mu_info[v]
            l = e.loop_by_uid.get(v.a[0])
            if not (is_const(init, '') or is_const(init, None) or init is attr(pin, 'net_name')) or l is None or l.iter is not b:
                return False
            return all(x is v or of_pin(x, c) for c, x in gated_leaves(upd))
        if is_call(v, '.property') and is_const(cargs(v)[1], 'net'):
            p = cargs(v)[0]
            return p.op == 'elem' and p.a[0] is b and (not guards or any(inside(x, p) for x, pol in guards if pol) or
                                                     any(l.uid == p.a[1] and any(k in ('break', 'return') for k, *_ in l.exits) for l in e.loop_by_uid.values()))
        return False

    def inside(x, p):
        return is_call(x, '.inside', '.touches') and cargs(x)[0] is p and cargs(x)[1] in pos or \
            x.op == 'and' and any(inside(y, p) for y in x.a)
    sets = [(gd, v, s) for gd, v, s in m.assignments('net_name') if sat(list(gd) + list(ev.guards)) or s is not None]
    ok = bool(sets)
    for gd, v, s in sets:
        if v is None:
            ok = False
        elif s is not None and len(s.loops) == len(ev.loops) + 1:
            l = s.loops[-1]
            p = T('elem', l.iter, l.uid)
            ok = ok and l.iter is b and v is call(p, 'property', const('net')) and any(inside(x, p) for x, pol in gd if pol)
            rest = [x for x in unraised(e, gd) if x not in list(ev.guards) and not inside(x[0], p)]
            ok = ok and specialise(conj(rest), dec) is const(True)
        else:
            ok = ok and (of_pin(v) or is_const(v, ''))
    ok = ok and any(not is_const(v, '') for _, v, _ in sets)
    for l in e.loop_by_uid.values():
        if l.iter is b:
            p = T('elem', l.iter, l.uid)
            ok = ok and all(any(pol and inside(x, p) for x, pol in g) for k, g, *_ in l.exits if k in ('break', 'return'))
    ctx.ob('pin', ok, f"{q} net_name", 'is not the net of the pin at the label', ev.loc)
    vs = [v for _, v in case_vals(m, 'label_point.net', dec)]
    names = [v for _, v, _ in sets]
    ok = bool(vs) and all(v is not None and (v is attr(pin, 'net_name') or v in names or is_const(v, '') or of_pin(v) or
                                             v.op == 'mu' and all(x is attr(pin, 'net_name') or x in names or x is v
                                                                  for y in e.mu_info.get(v, (const(None),)) for x in leaves(y))) for v in vs)
    ctx.ob('pin', ok, f"{q} label_point.net", 'is not the net of the pin', ev.loc)


def layer_id(v, is_pair):
    if not (is_call(v, '.layer', '.find_layer') and cargs(v)[0] is ANNM):
        return False
    xs = list(cargs(v)[1:])
    if len(xs) == 1 and xs[0].op == 'star':
        return is_pair(xs[0].a[0])
    return len(xs) == 2 and all(x.op == 'item' and is_const(x.a[1], i) and is_pair(x.a[0]) for i, x in enumerate(xs))


def lvs_name(v, is_pair, src):
    if v is T('attr', src, 'lvs_layer_name'):
        return True
    if is_attr(v, 'name') and is_attr(v.a[0], 'layer_info'):
        n, k = table(v.a[0].a[0], TECH)
        return n == 'computed_layer_info_by_gds_pair' and len(k) == 1 and is_pair(k[0])
    return False


def of_layer(ctx):
    for fn, fld in (('pins_of_layer', 'pin_gds_pair'), ('labels_of_layer', 'label_gds_pair')):
        q = f"{LX}.{fn}"
        e = ctx.analyse(q, opaque=opaque_ti(ctx))

        def pair(t):
            if t.op == 'star':
                t = t.a[0]
            if is_new(t, 'LayerInfo') or is_call(t, 'LayerInfo'):
                xs = list(cargs(t))
                return pair(xs[0]) if len(xs) == 1 else pair(T('tuple', *xs))
            if t.op != 'tuple' or len(t.a) != 2:
                return False
            for x, f in zip(t.a, ('layer', 'datatype')):
                if not (is_attr(x, f) and is_attr(x.a[0], fld)):
                    return False
                n, k = table(x.a[0].a[0], TECH)
                if n != 'layer_info_by_gds_pair' or k != [GP]:
                    return False
            return True
        rets = [(ev, c, v) for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1 and ev.args for c, v in gated_leaves(ev.args[0])]
        if fn == 'pins_of_layer':
            def there(yes, many=False):
                def f(t):
                    y = t.a[1] if t.op == 'cmp' and t.a[0] in ('==', 'is') and is_const(t.a[2], None) else t
                    if is_call(y, '.get') and cargs(y)[0] is EXTRACTED and pair(cargs(y)[1]):
                        return yes if y is t else not yes
                    if t.op == 'cmp' and t.a[0] == 'in' and t.a[2] is EXTRACTED and pair(t.a[1]):
                        return yes
                    return None
                return f

            def entry(t):
                return t.op == 'item' and t.a[0] is EXTRACTED and pair(t.a[1]) or is_call(t, '.get') and cargs(t)[0] is EXTRACTED and pair(cargs(t)[1])

            def shapes_ok(v):
                return is_attr(v, 'region') and (v.a[0].op == 'item' and is_const(v.a[0].a[1], 0) and is_attr(v.a[0].a[0], 'source_layers') and
                                                 entry(v.a[0].a[0].a[0]))
            none_ok = lambda v: is_new(v, 'Region') and not cargs(v)
        else:
            def there(yes):
                def f(t):
                    y = t.a[1] if t.op == 'cmp' and t.a[0] in ('==', 'is') and is_const(t.a[2], None) else None
                    if y is not None and is_call(y, '.find_layer') and cargs(y)[0] is ANNM:
                        return not yes
                    return None
                return f

            def shapes_ok(v):
                if not (is_new(v, 'Texts') and len(cargs(v)) == 1):
                    return False
                it = cargs(v)[0]
                if not (it.op in ('call', 'new') and it.a[0] in ('.begin_shapes', '.begin_shapes_rec')):
                    return False
                xs = list(cargs(it))
                lay = xs[-1]
                tops = [call(LVSM, 'internal_top_cell'), path(ME, 'annotated_top_cell'), call(ANNM, 'top_cell')]
                if it.a[0] == '.begin_shapes':
                    tops += [call(x, 'cell_index') for x in tops] + [T('attr', x, 'cell_index') for x in tops]
                    ok = len(xs) == 3 and xs[0] is ANNM and xs[1] in tops
                else:
                    ok = len(xs) == 2 and xs[0] in tops[1:]
                return ok and is_call(lay, '.find_layer', '.layer') and cargs(lay)[0] is ANNM and \
                    pair(cargs(lay)[1] if len(cargs(lay)) == 2 else T('tuple', *cargs(lay)[1:]))
            none_ok = lambda v: is_new(v, 'Texts') and not cargs(v)
        got = {}
        for yes in (True, False):
            vs = []
            for ev, c, v in rets:
                g = specialise(conj(list(unraised(e, ev.guards)) + list(c)), there(yes))
                if g is not const(False):
                    vs.append(v)
            ok = len(vs) >= 1 and all(shapes_ok(v) if yes else none_ok(v) for v in vs)
            ctx.ob('of-layer', ok, f"{q} {'present' if yes else 'absent'}", f"returns {[show(v)[:140] for v in vs]}")
