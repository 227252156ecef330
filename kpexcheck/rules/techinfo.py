"""C17 lookups of the technology."""
from fractions import Fraction
from ..core import check, Ctx
from ..q import *
from ..bools import sat, entails, equiv, conj, feasible, specialise, enum_atom
from ..vfa import truthy, const, mk_not, mk_cmp, mk_and
from .netlists import live

TI = 'klayout_pex.tech_info.TechInfo'
ME = T('param', 'self')
TYPES = ['LAYER_TYPE_UNSPECIFIED', 'LAYER_TYPE_SUBSTRATE', 'LAYER_TYPE_NWELL', 'LAYER_TYPE_DIFFUSION', 'LAYER_TYPE_FIELD_OXIDE',
         'LAYER_TYPE_SIMPLE_DIELECTRIC', 'LAYER_TYPE_CONFORMAL_DIELECTRIC', 'LAYER_TYPE_SIDEWALL_DIELECTRIC', 'LAYER_TYPE_METAL']
DIEL = {'LAYER_TYPE_SIMPLE_DIELECTRIC': 'simple_dielectric_layer', 'LAYER_TYPE_CONFORMAL_DIELECTRIC': 'conformal_dielectric_layer',
        'LAYER_TYPE_SIDEWALL_DIELECTRIC': 'sidewall_dielectric_layer'}


def path(t, *names):
    for n in names:
        for x in n.split('.'):
            t = T('attr', t, x)
    return t


TECH = path(ME, 'tech')
STACK = path(TECH, 'process_stack.layers')


def pair(x, *pre):
    b = path(x, *pre)
    return T('tuple', path(b, 'layer'), path(b, 'datatype'))


# property: (source, key of an entry x, value of an entry x)
TABLES = {
    'gds_pair_for_computed_layer_name': ('lvs_computed_layers', lambda x: path(x, 'layer_info.name'), lambda x: pair(x, 'layer_info.drw_gds_pair')),
    'computed_layer_info_by_name': ('lvs_computed_layers', lambda x: path(x, 'layer_info.name'), lambda x: x),
    'computed_layer_info_by_gds_pair': ('lvs_computed_layers', lambda x: pair(x, 'layer_info.drw_gds_pair'), lambda x: x),
    'canonical_layer_name_by_gds_pair': ('lvs_computed_layers', lambda x: pair(x, 'layer_info.drw_gds_pair'),
                                         lambda x: path(x, 'original_layer_name')),
    'layer_info_by_name': ('layers', lambda x: path(x, 'name'), lambda x: x),
    'gds_pair_for_layer_name': ('layers', lambda x: path(x, 'name'), lambda x: pair(x, 'drw_gds_pair')),
    'layer_info_by_gds_pair': ('layers', lambda x: pair(x, 'drw_gds_pair'), lambda x: x),
    'process_stack_layer_by_name': ('process_stack.layers', lambda x: path(x, 'name'), lambda x: x),
    'layer_resistance_by_layer_name': ('process_parasitics.resistance.layers', lambda x: path(x, 'layer_name'), lambda x: x),
    'contact_resistance_by_device_layer_name': ('process_parasitics.resistance.contacts', lambda x: path(x, 'device_layer_name'), lambda x: x),
    'via_resistance_by_layer_name': ('process_parasitics.resistance.vias', lambda x: path(x, 'via_name'), lambda x: x),
    'substrate_cap_by_layer_name': ('process_parasitics.capacitance.substrates', lambda x: path(x, 'layer_name'), lambda x: x),
    'sidewall_cap_by_layer_name': ('process_parasitics.capacitance.sidewalls', lambda x: path(x, 'layer_name'), lambda x: x),
}
FILTERS = {   # property: (layer types, single)
    'process_substrate_layer': ('LAYER_TYPE_SUBSTRATE', True),
    'process_diffusion_layers': ('LAYER_TYPE_DIFFUSION', False),
    'field_oxide_layer': ('LAYER_TYPE_FIELD_OXIDE', True),
    'process_metal_layers': ('LAYER_TYPE_METAL', False),
    'gate_poly_layer': ('LAYER_TYPE_METAL', True),
}
OPAQUE = ['klayout_pex.util.multiple_choice']


def canonical_entry(it):
    """source sequence of a loop"""
    while it is not None and it.op == 'call' and is_call(it, 'list', 'tuple', 'iter', 'enumerate') and cargs(it):
        it = cargs(it)[0]
    return it


def loop_elem(l):
    x = l.elem
    if x is not None and x.op == 'tuple' and is_call(l.iter, 'enumerate'):
        x = x.a[1]
    return x


def comp_of(e, x):
    for k, c in e.comps.items():
        if c.get('elt') is x and c['loops'] and loop_elem(c['loops'][0]) is x:
            return T('comp', c['kind'], k)
    return None


def ref_name(t):
    return str(t.a[0]).split('.')[-1] if t.op == 'ref' else None


def by_type(e, guards, x):
    """residual condition per layer type of the entry x"""
    return {ty: specialise(list(guards), enum_atom(lambda t: t is T('attr', x, 'layer_type'), ty)) for ty in TYPES}


def is_included(t, x):
    """the dielectric filter applied to the name of x (as a condition term)"""
    t = t.a[0] if t.op == 'truthy' else t
    return t.op == 'call' and str(t.a[0]).endswith('is_included') and any(a is T('attr', ME, 'dielectric_filter') for a in cargs(t)) and \
        any(a is T('attr', x, 'name') for a in cargs(t))


@check('C17', 'value-flow analysis of every lookup property; comparison with the table of (source, key, value) that their names state',
       'Decides, for every technology, source, key, orientation and value of each lookup table, the layer types behind each layer list, '
       'and the unit factors as polynomials. If a technology has two entries with the same key, the last one counts. Lookups that nothing '
       'reads are not checked.')
def c17(ctx: Ctx):
    """Each table of TechInfo: which repeated field of the tech file it runs over, unconditionally, its key and its value."""
    P = ctx.prog
    n = 0
    for name, (src, key, val) in TABLES.items():
        q = f"{TI}.{name}"
        if q not in P.funcs:
            continue
        n += 1
        e = ctx.analyse(q, opaque=OPAQUE)
        ents = dict_entries(e, e.result) if e.result is not None else None
        ok = ents is not None and len(ents) == 1
        if not ok:
            ctx.fail('lookup-table', q, 'the lookup is not one table over the entries of the tech file')
            continue
        k, v, g, lp = ents[0]
        ok = len(lp) == 1 and canonical_entry(lp[0].iter) is path(TECH, src) and not live(e, g) and not lp[0].exits
        ctx.ob('lookup-source', ok, q, f"the table runs over {show(lp[0].iter) if lp else None} when {show(conj(live(e, g)))[:80]}")
        if not lp:
            continue
        x = loop_elem(lp[0])
        ctx.ob('lookup-key', k is key(x), q, f"the key is {show(k)[:120]}")
        ctx.ob('lookup-value', v is val(x), q, f"the value is {show(v)[:120]}")
    ctx.need(n >= 10, 'the lookup tables of TechInfo are gone')
    q = f"{TI}.pin_layer_mapping_for_drw_gds_pair"
    if q in P.funcs:
        e = ctx.analyse(q, opaque=OPAQUE)
        ents = dict_entries(e, e.result) if e.result is not None else None
        ok = ents is not None and len(ents) == 1 and len(ents[0][3]) == 1 and canonical_entry(ents[0][3][0].iter) is path(TECH, 'layers')
        if ok:
            k, v, g, lp = ents[0]
            x = loop_elem(lp[0])
            ok = k is pair(x, 'drw_gds_pair') and v is pair(x, 'pin_gds_pair') and not lp[0].exits and \
                all(is_call(c.a[0] if c.op == 'truthy' else c, '.HasField') and is_const(cargs(c.a[0] if c.op == 'truthy' else c)[1], 'pin_gds_pair')
                    and p for c, p in live(e, g)) and bool(live(e, g))
        ctx.ob('pin-table', ok, q, 'the drawing pair of each layer that has a pin pair is not mapped to it')
    q = f"{TI}.process_stack_layer_by_gds_pair"
    if q in P.funcs:
        e = ctx.analyse(q, opaque=OPAQUE)
        ents = dict_entries(e, e.result) if e.result is not None else None
        ok = ents is not None and len(ents) == 1 and len(ents[0][3]) == 1 and canonical_entry(ents[0][3][0].iter) is STACK
        if ok:
            k, v, g, lp = ents[0]
            x = loop_elem(lp[0])
            tb = k.a[0] if k.op == 'item' else cargs(k)[0] if is_call(k, '.get') else None
            nm = k.a[1] if k.op == 'item' else cargs(k)[1] if is_call(k, '.get') else None
            inner = dict_entries(e, tb) if tb is not None else None
            ok = v is x and nm is path(x, 'name') and inner is not None and len(inner) == 1 and len(inner[0][3]) == 1 and \
                canonical_entry(inner[0][3][0].iter) is path(TECH, 'layers')
            if ok:
                y = loop_elem(inner[0][3][0])
                ok = inner[0][0] is path(y, 'name') and inner[0][1] is pair(y, 'drw_gds_pair')
                # entries without a layer of their name are left out
                ok = ok and all(p and (c.op == 'cmp' and c.a[0] == 'in' and c.a[1] is nm or mentions(c, k)) for c, p in live(e, g))
        ctx.ob('stack-pair', ok, q, 'an entry of the process stack is not found under the GDS pair of the layer of its name')
    for name, (ty, single) in FILTERS.items():
        q = f"{TI}.{name}"
        if q not in P.funcs:
            continue
        e = ctx.analyse(q, opaque=OPAQUE)
        t = e.result
        rv = list(leaves(t)) if t is not None else []
        its = None
        if single:
            ok = False
            if t is not None and t.op == 'item' and is_const(t.a[1], 0):
                t, ok = t.a[0], True
            elif is_call(t, 'next') and cargs(t):
                t, ok = cargs(t)[0], True
            elif t is not None and t.op == 'elem':     # result of next() of a generator
                ok = False
                inner = [ev for ev in e.events if ev.kind == 'return' and ev.loops and ev.args and ev.args[0] is t]
                if inner:       # returned from the loop: the first match
                    its = [(ev.args[0], ev.guards, ev.loops) for ev in inner]
                    t, ok = None, len(inner) == 1
                else:
                    t = comp_of(e, t)
                    ok = t is not None
            ctx.ob('layer-first', ok, q, f"the result is {show(e.result)[:100]}, not the first matching layer")
            if not ok:
                continue
        its = list_items(e, t) if t is not None else its
        ok = its is not None and len(its) == 1
        if not ok:
            ctx.fail('layer-list', q, 'the layers are not selected from the process stack')
            continue
        v, g, lp = its[0]
        ok = len(lp) == 1 and canonical_entry(lp[0].iter) is STACK and v is loop_elem(lp[0])
        ctx.ob('layer-source', ok, q, 'the layers are not those of the process stack in its order')
        if ok:
            r = by_type(e, live(e, g), v)
            good = all(r[x].op == 'const' and r[x].a[0] == (x == ty) for x in TYPES)
            ctx.ob('layer-type', good, q, f"layers of type {[x for x in TYPES if not (r[x].op == 'const' and not r[x].a[0])]} are selected")
    dielectrics(ctx)
    contacts(ctx)
    pairs(ctx)
    units(ctx)
    nested(ctx, 'overlap_cap_by_layer_names', 'overlaps', 'top_layer_name', 'bottom_layer_name', 'area_capacitance', 'OverlapCapacitance')
    nested(ctx, 'side_overlap_cap_by_layer_names', 'sideoverlaps', 'in_layer_name', 'out_layer_name', 'perimeter_capacitance',
           'SideOverlapCapacitance')
    q = f"{TI}.internal_substrate_layer_name"
    if q in P.funcs:
        e = ctx.analyse(q)
        ctx.ob('substrate-name', e.result is not None and is_const(e.result, 'VSUBS'), q, f"the substrate is called {show(e.result)}")
    loading(ctx)


def loading(ctx):
    q = f"{TI}.parse_tech_def"
    if q in ctx.prog.funcs:
        e = ctx.analyse(q)
        r = e.result
        ok = r is not None and is_call(r, 'google.protobuf.json_format.Parse') and len(cargs(r)) >= 2 and is_call(cargs(r)[0], '.read') and \
            is_call(cargs(cargs(r)[0])[0], 'open') and is_param(path_root(cargs(cargs(cargs(r)[0])[0])[0]), 'jsonpb_path')
        ok = ok and not any(k == 'ignore_unknown_fields' and not is_const(v, False) for k, v in ckw(r).items())
        ctx.ob('tech-file', ok, q, f"the technology is {show(r)[:120] if r is not None else None}")
        bad = [ev for ev in e.events if ev.recv is r and ev.kind in ('store', 'setitem')]
        ctx.ob('tech-unmodified', not bad, q, 'the technology is modified after reading')
    q = f"{TI}.__init__"
    if q in ctx.prog.funcs:
        e = ctx.analyse(q, opaque=OPAQUE)
        st = {ev.callee: ev.args[0] for ev in e.events if ev.kind == 'store' and ev.recv is ME}
        f = st.get('dielectric_filter')
        df = T('param', 'dielectric_filter')
        lv = list(gated_leaves(f)) if f is not None else []
        ok = bool(lv) and all(l is df if entails(c, truthy(df)) or l is df else any(is_const(a, 'all') for a in list(cargs(l)) + list(ckw(l).values()))
                              for c, l in lv)
        ctx.ob('filter', ok, q, f"the dielectric filter is {show(f)[:100] if f is not None else None}")
        ctx.ob('tech', st.get('tech') is T('param', 'tech'), q, 'the technology is not kept')


def dielectrics(ctx):
    q = f"{TI}.filtered_dielectric_layers"
    if q in ctx.prog.funcs:
        e = ctx.analyse(q, opaque=OPAQUE)
        its = list_items(e, e.result) if e.result is not None else None
        ok = its is not None and len(its) == 1 and len(its[0][2]) == 1 and canonical_entry(its[0][2][0].iter) is STACK
        if ok:
            v, g, lp = its[0]
            ok = v is loop_elem(lp[0]) and not [x for x in lp[0].exits if x[0] in ('break', 'return')]
            r = by_type(e, live(e, g), v)
            for ty in TYPES:
                good = is_included(r[ty], v) if ty in DIEL else (r[ty].op == 'const' and r[ty].a[0] is False)
                ctx.ob('dielectric-filter', good, f"{q}:{ty}", f"a layer of this type is included when {show(r[ty])[:100]}")
        ctx.ob('dielectric-layers', ok, q, 'the dielectrics are not selected from the process stack in its order')
    q = f"{TI}.dielectric_by_name"
    if q in ctx.prog.funcs:
        e = ctx.analyse(q, opaque=OPAQUE)
        ents = dict_entries(e, e.result) if e.result is not None else None
        ctx.ob('dielectric-table', bool(ents), q, 'the dielectric constants are not a table')
        for ty in TYPES:
            live_ents = []
            for k, v, g, lp in ents or []:
                if len(lp) != 1 or canonical_entry(lp[0].iter) is not STACK:
                    ctx.fail('dielectric-table', f"{q}:source", 'the table is not built over the process stack')
                    return
                x = loop_elem(lp[0])
                r = by_type(e, live(e, g), x)[ty]
                if not (r.op == 'const' and not r.a[0]):
                    live_ents.append((k, spec_value(v, x, ty), r, x))
            if ty not in DIEL:
                ctx.ob('dielectric-none', not live_ents, f"{q}:{ty}", 'a layer that is no dielectric has a dielectric constant')
                continue
            ok = len(live_ents) == 1 and live_ents[0][0] is path(live_ents[0][3], 'name') and \
                live_ents[0][1] is path(live_ents[0][3], DIEL[ty], 'dielectric_k') and is_included(live_ents[0][2], live_ents[0][3])
            ctx.ob('dielectric-k', ok, f"{q}:{ty}", f"the dielectric constant is {[show(v)[:80] for _, v, _, _ in live_ents]}")
    q = f"{TI}.sidewall_dielectric_layer"
    if q in ctx.prog.funcs:
        e = ctx.analyse(q, opaque=OPAQUE)
        lists = {l.a[0] for l in leaves(e.result) if l.op == 'item' and is_const(l.a[1], 0)} if e.result is not None else set()
        ok = len(lists) == 1
        ctx.ob('sidewall-result', ok, q, f"the result is {show(e.result)[:100] if e.result is not None else None}")
        if ok:
            lst = lists.pop()
            for c, l in gated_leaves(e.result):
                empty = not sat(list(c) + [truthy(lst)])
                ctx.ob('sidewall-none', is_const(l, None) if empty else l.op == 'item', q, 'a missing dielectric does not give None')
            multi = [ev for ev in e.events if ev.kind == 'raise']
            ctx.ob('sidewall-ambiguous', any(is_two(live(e, ev.guards), lst) for ev in multi), q, 'an ambiguous dielectric is not an error')
            its = list_items(e, lst) or []
            lname = T('param', 'layer_name')
            for ty in TYPES:
                conds = []
                for v, g, lp in its:
                    if len(lp) != 1 or canonical_entry(lp[0].iter) is not STACK or v is not loop_elem(lp[0]):
                        ctx.fail('sidewall-source', q, 'the dielectric is not looked for in the process stack')
                        return
                    r = by_type(e, live(e, g), v)[ty]
                    if not (r.op == 'const' and not r.a[0]):
                        conds.append((r, v))
                if ty in ('LAYER_TYPE_SIDEWALL_DIELECTRIC', 'LAYER_TYPE_CONFORMAL_DIELECTRIC'):
                    ok = len(conds) == 1
                    if ok:
                        r, v = conds[0]
                        ref = mk_cmp('==', path(v, DIEL[ty], 'reference'), lname)
                        rest = specialise(r, lambda t: True if is_included(t, v) else None)
                        none = specialise(r, lambda t: False if is_included(t, v) else None)
                        ok = equiv(rest, ref) and none.op == 'const' and not none.a[0]
                    ctx.ob('sidewall-reference', ok, f"{q}:{ty}", f"the condition is {[show(c)[:120] for c, _ in conds]}")
                else:
                    ctx.ob('sidewall-kind', not conds, f"{q}:{ty}", 'a layer of another type is taken for a sidewall dielectric')
    q = f"{TI}.simple_dielectric_above_metal"
    if q in ctx.prog.funcs:
        above(ctx, q)


def is_two(guards, lst):
    """the condition holds exactly if the list has more than one entry: evaluated for the lengths 0, 1, 2, 3"""
    n = T('call', 'len', (lst,), ())

    def val(k):
        def f(t):
            if t is lst or t is truthy(lst) or t is truthy(n):
                return k > 0
            if t.op == 'cmp':
                a, b = (t.a[1], t.a[2]) if len(t.a) == 3 else t.a[1] if len(t.a) == 2 else (None, None)
                vs = [k if x is n else x.a[0] if x.op == 'const' else None for x in (a, b)]
                if None not in vs and n in (a, b):
                    x, y = vs
                    return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}.get(t.a[0])
            return None
        return f
    for k in (0, 1, 2, 3):
        r = specialise(list(guards), val(k))
        if r.op != 'const' or bool(r.a[0]) != (k > 1):
            return False
    return True


def spec_value(v, x, ty):
    """conditional value for a given layer type"""
    while v.op == 'ite':
        c = specialise(v.a[0], enum_atom(lambda t: t is T('attr', x, 'layer_type'), ty))
        if c.op != 'const':
            return v
        v = v.a[1] if c.a[0] else v.a[2]
    return v


def above(ctx, q):
    """dielectric directly above a metal and its height: found metal F (by name), first simple dielectric D after it, up to the next metal.
    The loop is compared with the state machine over (F, D) by its transition conditions."""
    e = ctx.analyse(q, opaque=OPAQUE)
    rets = [ev for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1]
    lname = T('param', 'layer_name')
    loops = [l for l in e.loop_by_uid.values() if canonical_entry(l.iter) is STACK]
    if len(loops) != 1:
        ctx.fail('above-source', q, 'the stack is not scanned once')
        return
    lp = loops[0]
    x = loop_elem(lp)
    is_type = lambda ty: mk_cmp('==', T('attr', x, 'layer_type'), T('ref', f"{LT_REF}{ty}"))
    N, S, M = mk_cmp('==', path(x, 'name'), lname), is_type('LAYER_TYPE_SIMPLE_DIELECTRIC'), is_type('LAYER_TYPE_METAL')
    stay = [mk_not(conj(g)) for kind, g in ((c[0], c[1]) for c in lp.exits) if kind != 'continue']
    state = {t: u for t, (i, u) in e.mu_info.items() if is_const(i, None)}
    inc = {t for u in list(state.values()) + [ev.args[0] for ev in rets if ev.args] for t in subterms(u) if is_included(t, x)} | \
        {y for ev in rets for t, p in ev.guards for y in subterms(t) if is_included(y, x)}
    ctx.need(len(inc) >= 1, f"{q}: the dielectric filter is not applied")
    I = truthy(sorted(inc, key=repr)[0])
    facts = [mk_not(mk_and([S, M]))]
    for t in state:     # None or a layer
        isn = mk_cmp('==', t, const(None))
        facts += [mk_not(mk_and([isn, truthy(t)])), mk_not(mk_and([mk_not(isn), mk_not(truthy(t))]))]
    F = [t for t, u in state.items() if feasible(u, facts + stay + [N]) == [x] and feasible(u, facts + stay + [mk_not(N)]) == [t]]
    ctx.ob('above-metal', len(F) == 1, q, 'the metal is not the layer of the given name')
    if len(F) != 1:
        return
    F = F[0]
    D = [t for t, u in state.items() if t is not F and x in feasible(u, facts + stay)]
    ctx.ob('above-first', len(D) == 1, q, 'the dielectric is not kept while scanning')
    if len(D) != 1:
        return
    D = D[0]
    u = state[D]
    take = [mk_not(N), truthy(F), mk_not(truthy(D)), S, I]
    ctx.ob('above-first', feasible(u, facts + stay + take) == [x] and feasible(u, facts + stay + [mk_not(mk_and(take))]) == [D], q,
           'the layer is not the first included simple dielectric above the metal')
    excl = [mk_not(N), truthy(F), mk_not(truthy(D)), S, mk_not(I)]
    metal = [mk_not(N), truthy(F), M]
    seen = {}
    for ev in rets:
        v = ev.args[0] if ev.args else None
        if v is None or v.op != 'tuple' or len(v.a) != 2:
            ctx.fail('above-result', q, 'the result is not a pair of layer and height', ev.loc)
            continue
        d, h = v.a
        if lp not in ev.loops:
            ctx.ob('above-last', feasible(d, facts) == [D], q, f"at the end of the stack the layer is {show(d)[:80]}", ev.loc)
            continue
        g = list(ev.guards)
        if feasible(d, facts + g) == [const(None)]:
            ctx.ob('above-excluded', is_const(h, 0.0, 0), q, f"the height of no layer is {show(h)[:60]}", ev.loc)
            seen.setdefault('excl', []).append(conj(g))
        else:
            ctx.ob('above-dielectric', feasible(d, facts + g) == [D], q, f"the layer is {show(d)[:80]}", ev.loc)
            want = padd(pnorm(path(x, 'metal_layer.z')), pnorm(path(F, 'metal_layer.z')), -1)
            ctx.ob('above-height', pnorm(h) == want, q, f"the height is {show(h)[:100]}", ev.loc)
            seen.setdefault('metal', []).append(conj(g))
    from ..vfa import mk_or
    ctx.ob('above-excluded', 'excl' in seen and equiv(mk_or(seen['excl']), mk_and(excl), under=facts), q,
           'no layer is returned in other cases than an excluded dielectric')
    ctx.ob('above-next-metal', 'metal' in seen and equiv(mk_or(seen['metal']), mk_and(metal), under=facts), q,
           'the height does not end at the next metal')


LT_REF = 'klayout_pex_protobuf.kpex.tech.process_stack_pb2.ProcessStackInfo.'


def contacts(ctx):
    q = f"{TI}.contact_by_contact_lvs_layer_name"
    SPEC = {'LAYER_TYPE_NWELL': 'nwell_layer', 'LAYER_TYPE_DIFFUSION': 'diffusion_layer', 'LAYER_TYPE_METAL': 'metal_layer'}
    for name, types, by_name in (('contact_by_contact_lvs_layer_name', SPEC, True),
                                 ('contact_by_device_lvs_layer_name', {k: v for k, v in SPEC.items() if k != 'LAYER_TYPE_METAL'}, False)):
        q = f"{TI}.{name}"
        if q not in ctx.prog.funcs:
            continue
        e = ctx.analyse(q, opaque=OPAQUE)
        ents = dict_entries(e, e.result) if e.result is not None else None
        ctx.ob('contact-table', bool(ents), q, 'the contacts are not a table')
        for ty in TYPES:
            got = []
            for k, v, g, lp in ents or []:
                if len(lp) != 1 or canonical_entry(lp[0].iter) is not STACK:
                    ctx.fail('contact-source', q, 'the contacts are not those of the process stack')
                    return
                x = loop_elem(lp[0])
                r = by_type(e, live(e, g), x)[ty]
                if not (r.op == 'const' and not r.a[0]):
                    got.append((spec_value(k, x, ty), spec_value(v, x, ty), r, x))
            if ty in types:
                ok = len(got) == 1
                if ok:
                    k, v, r, x = got[0]
                    c = path(x, types[ty], 'contact_above')
                    ok = v is c and k is (path(c, 'name') if by_name else path(x, 'name')) and r.op == 'const'
                ctx.ob('contact-entry', ok, f"{q}:{ty}", f"the entry is {[(show(k)[:60], show(v)[:60]) for k, v, _, _ in got]}")
            else:
                ctx.ob('contact-other', not got, f"{q}:{ty}", 'a layer without contact has an entry')
    q = f"{TI}.bottom_and_top_layer_name_by_via_computed_layer_name"
    if q in ctx.prog.funcs:
        e = ctx.analyse(q, opaque=OPAQUE)
        ents = dict_entries(e, e.result) if e.result is not None else None
        ok = ents is not None and len(ents) == 1 and len(ents[0][3]) == 1 and canonical_entry(ents[0][3][0].iter) is STACK or \
            ents is not None and len(ents) == 1 and len(ents[0][3]) == 1
        if ok:
            k, v, g, lp = ents[0]
            x = loop_elem(lp[0])
            c = path(x, 'metal_layer.contact_above')
            r = by_type(e, live(e, g), x)
            has = lambda t: is_call(t.a[0] if t.op == 'truthy' else t, '.HasField') and cargs(t.a[0] if t.op == 'truthy' else t)[0] is path(x, 'metal_layer')
            ok = canonical_entry(lp[0].iter) is STACK and k is path(c, 'name') and v is T('tuple', path(c, 'layer_below'), path(c, 'metal_above')) and \
                has(r['LAYER_TYPE_METAL']) and all(r[t].op == 'const' and not r[t].a[0] for t in TYPES if t != 'LAYER_TYPE_METAL')
        ctx.ob('via-layers', ok, q, 'a via is not listed with the layers below and above it, for each metal that has a via')


def pairs(ctx):
    q = f"{TI}.gds_pair"
    if q not in ctx.prog.funcs:
        return
    e = ctx.analyse(q, opaque=OPAQUE)
    ln = T('param', 'layer_name')

    def look(t):
        """name of the table that is looked up"""
        if is_call(t, '.get') and cargs(t)[1] is ln and (len(cargs(t)) == 2 or is_const(cargs(t)[2], None)):
            tb = cargs(t)[0]
        elif t.op == 'item' and t.a[1] is ln:
            tb = t.a[0]
        else:
            return None
        ents = dict_entries(e, tb)
        if ents is None or len(ents) != 1 or len(ents[0][3]) != 1:
            return None
        s = canonical_entry(ents[0][3][0].iter)
        return 'computed' if s is path(TECH, 'lvs_computed_layers') else 'plain' if s is path(TECH, 'layers') else None
    lv = list(gated_leaves(e.result)) if e.result is not None else []
    ls = {t: look(t) for t in all_terms(e.result) if look(t)}
    comp = [t for t, k in ls.items() if k == 'computed' and is_call(t, '.get')]
    ok = bool(lv)
    for c, l in lv:
        k = look(l)
        if k == 'computed':
            continue
        found = [truthy(t) for t in comp] + [T('cmp', 'in', ln, cargs(t)[0]) for t in comp]
        found += [t for t, p in c if t.op == 'cmp' and t.a[0] in ('in', '==')]
        if k == 'plain':
            ok = ok and any(entails(c, mk_not(f)) or entails(c, f) and f.op == 'cmp' and f.a[0] == '==' for f in found)
        else:
            ok = ok and is_const(l, None)
    ok = ok and {look(l) for c, l in lv} >= {'computed', 'plain'}
    ctx.ob('pair-order', ok, q, f"the pair is {show(e.result)[:200] if e.result is not None else None}")


def all_terms(t):
    return list(subterms(t)) if t is not None else []


def units(ctx):
    th = Fraction(1, 1000)
    q = f"{TI}.milliohm_to_ohm"
    if q in ctx.prog.funcs:
        e = ctx.analyse(q)
        ctx.ob('unit', e.result is not None and pnorm(e.result) == {((T('param', 'milliohm'), 1),): th}, q, f"the value is {show(e.result)}")
    for n, r in (('contact', 'contact_resistance'), ('via', 'via_resistance')):
        q = f"{TI}.milliohm_by_cnt_to_ohm_by_square_for_{n}"
        if q in ctx.prog.funcs:
            e = ctx.analyse(q)
            want = pmul(pnorm(T('attr', T('param', r), 'resistance')), pmul({(): th}, pnorm(T('bin', '**', T('attr', T('param', 'contact'), 'width'),
                                                                                              const(2)))))
            ctx.ob('unit', e.result is not None and pnorm(e.result) == want, q, f"the value is {show(e.result)[:150]}")


def nested(ctx, name, field_name, outer, inner, subst_field, cls):
    """dict[outer][inner]: explicit entries, and the substrate entries derived from the substrate capacitances"""
    q = f"{TI}.{name}"
    if q not in ctx.prog.funcs:
        return
    e = ctx.analyse(q, opaque=OPAQUE)
    d = e.result
    CAP = path(TECH, 'process_parasitics.capacitance')
    subs, srcs = path(CAP, 'substrates'), path(CAP, field_name)
    ents = []
    if d is None or dict_entries(e, d) is None:
        ctx.fail('nested-table', q, 'the capacitances are not a table')
        return
    ents = [(k, v, live(e, g), lp) for k, v, g, lp in dict_entries(e, d)]
    flat = []           # (outer key, inner key, value, guards, loops)
    for k, v, g, lp in ents:
        for k2, v2, g2, l2 in dict_entries(e, v) or []:
            g2 = [x for x in live(e, g2) if x not in g]
            flat.append((k, k2, v2, list(g) + g2, list(lp) + [l for l in l2 if l not in lp]))
    for ev in e.events:
        if ev.kind == 'setitem' and ev.recv is not d:
            b = ev.recv
            if b.op == 'item' and b.a[0] is d:      # the entry has to exist already
                flat.append((b.a[1], ev.args[0], ev.args[1], list(live(e, ev.guards)) + [(mk_cmp('in', b.a[1], d), True)], list(ev.loops)))
            elif is_call(b, '.setdefault') and cargs(b)[0] is d:
                flat.append((cargs(b)[1], ev.args[0], ev.args[1], list(live(e, ev.guards)), list(ev.loops)))
        if ev.kind == 'call' and ev.callee == '.update' and ev.recv is not None and ev.args:
            b = ev.recv
            k0 = b.a[1] if b.op == 'item' and b.a[0] is d else cargs(b)[1] if is_call(b, '.setdefault') and cargs(b)[0] is d else None
            if k0 is not None:
                for k2, v2, g2, l2 in dict_entries(e, ev.args[0]) or []:
                    flat.append((k0, k2, v2, list(live(e, ev.guards)) + list(live(e, g2)), list(ev.loops) + list(l2)))
    sub = expl = 0
    conds = []
    for k, k2, v, g, lp in flat:
        so, si, sv = origin(e, k), origin(e, k2), origin(e, v)
        if so and so[0] is subs:
            sub += 1
            x = so[1]
            ok = so[2] == ('layer_name',) and is_const(k2, 'VSUBS') and v.op in ('new', 'call') and is_call_or_new(v, cls) and not g
            ctx.ob('substrate-key', ok, q, f"the substrate entry is [{show(k)[:50]}][{show(k2)[:50]}]")
            want = {outer: (so[0], 'layer_name'), 'capacitance': (so[0], subst_field)}
            for f, (s, n) in want.items():
                fv = field(e, v, f)
                o = origin(e, fv) if fv is not None else None
                ctx.ob('substrate-value', o is not None and o[0] is subs and o[2] == (n,), f"{q}:{f}", f"{f} is {show(fv)[:60] if fv is not None else None}")
            fv = field(e, v, inner)
            ctx.ob('substrate-value', fv is not None and is_const(fv, 'VSUBS'), f"{q}:{inner}", f"{inner} is {show(fv)[:60] if fv is not None else None}")
            continue
        if sv and sv[0] is srcs:
            # the group of the outer key must be the group of the entry
            ok = so and so[0] is srcs and so[2] == (outer,) and si and si[0] is srcs and si[2] == (inner,) and sv[2] == ()
            ctx.ob('nested-orientation', ok, q, f"an entry is stored as [{show(k)[:60]}][{show(k2)[:60]}]")
            grp = group_condition(e, k, v, outer, srcs)
            ctx.ob('nested-group', grp, q, f"entries of other layers than the {outer} are listed")
            member = mk_cmp('in', k, d)
            rest = [x for x in g if not (x[0] is member)]
            conds.append((g, member, v))
            ctx.ob('nested-complete', not [x for x in rest if not group_literal(x, outer, srcs)], q,
                   f"entries are only listed when {show(conj(rest))[:100]}")
            expl += 1
            continue
        ctx.fail('nested-known', q, f"the table has another entry: [{show(k)[:50]}][{show(k2)[:50]}]")
    ctx.ob('nested-parts', sub >= 1 and expl >= 1, q, f"{sub} substrate entries and {expl} explicit entries are listed")
    if conds:
        m = conds[0][1]
        pos = any(not sat(list(g) + [mk_not(m)]) for g, _, _ in conds)
        neg = any(not sat(list(g) + [m]) for g, _, _ in conds)
        anyw = any(sat(list(g) + [m]) and sat(list(g) + [mk_not(m)]) for g, _, _ in conds)
        ctx.ob('nested-both', anyw or (pos and neg), q, 'entries are lost if the layer is (or is not) in the table already')


def is_call_or_new(v, cls):
    return str(v.a[0]).split('.')[-1] == cls


def origin(e, t, depth=0):
    """(repeated field, element, attribute path) behind a key or value: follows tables built here"""
    if t is None or depth > 8:
        return None
    if t.op == 'attr':
        o = origin(e, t.a[0], depth + 1)
        return (o[0], o[1], o[2] + (t.a[1],)) if o else None
    if t.op == 'elem':
        s = canonical_entry(t.a[0])
        if is_call(s, '.values') or is_call(s, '.keys', '.items'):
            return None
        return (s, t, ())
    if t.op in ('key', 'val'):
        inner = t.a[0]
        ents = dict_entries(e, inner)
        if ents is None and inner.op in ('key', 'val'):
            # value of a table of tables
            ents2 = dict_entries(e, inner.a[0])
            if ents2 and len(ents2) == 1:
                ents = dict_entries(e, ents2[0][1])
        if ents and len(ents) == 1:
            k, v, g, lp = ents[0]
            return origin(e, k if t.op == 'key' else v, depth + 1)
    return None


def group_literal(lit, outer, srcs):
    t, p = lit
    return p and t.op == 'cmp' and t.a[0] == '==' and all(x.op == 'attr' and x.a[1] == outer for x in t.a[1:])


def group_condition(e, k, v, outer, srcs):
    """the value's own outer field equals the outer key: same element, or a table filtered by equality"""
    if k.op == 'attr' and k.a[0] is v and k.a[1] == outer:
        return True
    # k = key of table of tables, v = val of val of it
    if k.op == 'key' and v.op == 'val' and v.a[0].op == 'val' and v.a[0].a[0] is k.a[0]:
        ents = dict_entries(e, k.a[0])
        if ents and len(ents) == 1:
            k1, v1, g1, _ = ents[0]
            sub = dict_entries(e, v1)
            if sub and len(sub) == 1:
                k2, v2, g2, l2 = sub[0]
                need = mk_cmp('==', T('attr', v2, outer), k1)
                return need in [t for t, p in g2 if p] or T('cmp', '==', k1, T('attr', v2, outer)) in [t for t, p in g2 if p] or \
                    k1 is T('attr', v2, outer)
            if v1.op == 'lit' and v1.a[0] == 'dict':
                return False
    return False
