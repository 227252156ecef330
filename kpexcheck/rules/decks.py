"""C23, C50: the LVS decks export the layers that the technology declares, and connect them as the process stack says."""
from __future__ import annotations
import os
from typing import *

from ..core import check, Ctx
from ..deck import Deck
from ..fold import Fold, Unknown
from ..model import AnalysisBroken
from ..q import *
from .pdks import CONFIG, pdk_values
from .tables import each_tech, loc_of, short, Tech

_DECKS: Dict[str, Deck] = {}
DRAWN = {'METAL', 'VIA', 'CONTACT', 'MIM_CAP', 'NWELL', 'DNWELL', 'NTAP', 'PTAP'}


def deck_of(ctx: Ctx, name) -> Optional[Deck]:
    """the deck that PDK.config selects for a PDK"""
    from ..vfa import T
    e = ctx.analyse(CONFIG)
    fold = Fold(ctx.prog, {T('param', 'self'): name}, {'__file__': '/ROOT/klayout_pex/kpex_cli.py'},
                {'exists': lambda p: True, 'isdir': lambda p: True, 'isfile': lambda p: True})
    try:
        for ev in e.events:
            if ev.kind == 'return' and len(ev.ctx) == 1 and ev.args and all(bool(fold(c)) == p for c, p in ev.guards):
                p = os.path.normpath(fold(field(e, ev.args[0], 'pex_lvs_script_path')))
                q = os.path.join(ctx.prog.repo, os.path.relpath(p, '/ROOT'))
                if not os.path.isfile(q):
                    return None
                if q not in _DECKS:
                    _DECKS[q] = Deck(q)
                return _DECKS[q]
    except (Unknown, AttributeError):
        pass
    return None


def at(ctx, st):
    return f"{os.path.relpath(st.file, ctx.prog.repo)}:{st.line}"


def both(ctx):
    names = set(pdk_values(ctx).values())
    for t in each_tech(ctx):
        if t.msg.get('name') not in names:
            continue            # C21
        try:
            d = deck_of(ctx, t.msg.get('name'))
        except (AnalysisBroken, RecursionError) as x:
            ctx.fail('deck', t.name, f"the LVS deck of {t.name} cannot be read: {x}", 'pdk')
            continue
        if d is None:
            ctx.fail('deck', t.name, f"the LVS deck of {t.name} cannot be found", 'pdk')
            continue
        for f in {s.file for s in d.stmts}:
            ctx.analysed.add(os.path.relpath(f, ctx.prog.repo))
        yield t, d


@check('C23', 'the layer definitions of the LVS decks (parsed with their includes) against the computed layers that the generator declares (clang syntax tree)',
       'Every PDK and every computed layer. Derivations are followed through the receivers of the layer operations; the effect of the operations is not judged.')
def c23(ctx: Ctx):
    """Every computed layer is exported by the LVS deck of its PDK under its own name, after its definition, and derives from the drawn layer it declares."""
    n = 0
    for t, d in both(ctx):
        for nm, c in t.comp.items():
            n += 1
            who = f"{t.name}: {nm}"
            where = loc_of(ctx, c)
            if not ctx.ob('exported', nm in d.exported, who, f"{who}: the LVS deck does not export a layer of this name", where):
                continue
            ex = at(ctx, d.exported[nm])
            if not ctx.ob('defined', nm in d.defs, who, f"{who} is exported by the LVS deck, but not defined there", ex):
                continue
            order = {id(s): i for i, s in enumerate(d.stmts)}
            first = min(order.get(id(s), 0) for _, s in d.defs[nm])
            ctx.ob('order', first <= order.get(id(d.exported[nm]), 1 << 30), who, f"{who} is exported before it is defined", ex)
            k, p = t.kind(c), short(c.get('layer_info.purpose'))
            o = c.get('original_layer_name') or ''
            b, _, sfx = o.partition('.')
            l = t.canon.get(b)
            if l is None or not (p in DRAWN or k in ('PIN', 'LABEL')):
                continue
            want = t.gds(l, 'pin_gds_pair' if k == 'PIN' else 'label_gds_pair' if k == 'LABEL' else 'drw_gds_pair')
            got = d.roots(nm)
            if p in ('NTAP', 'PTAP', 'NWELL', 'DNWELL') and k == 'REGULAR':
                ok = want in got or not got or want in d.all_roots(nm) or any(
                    t.gds(x) in got and t.purpose(x['name'] if isinstance(x, dict) else x.get('name')) in ('DIFF', 'NTAP_OR_PTAP') for x in t.layers)
            else:
                ok = want in got
            ctx.ob('drawn', ok, who, f"{who} comes from {o} {want}, the LVS deck derives it from {sorted(got)}", at(ctx, d.defs[nm][-1][1]))
            # nothing of another conductor or via is mixed in
            if k not in ('PIN', 'LABEL') and p in ('METAL', 'VIA', 'CONTACT', 'MIM_CAP'):
                others = [x for x in t.layers if t.purpose(x.get('name')) in ('METAL', 'VIA', 'CONTACT') and x.get('name') != b and t.gds(x) in got]
                ctx.ob('pure', not others, who, f"{who}: the LVS deck also takes shapes of {', '.join(str(x.get('name')) for x in others)}", at(ctx, d.defs[nm][-1][1]))
    ctx.need(n > 0, 'no computed layers')


@check('C50', 'the connections of the LVS decks (parsed with their includes) against the process stack that the generator declares (clang syntax tree)',
       'Every PDK, every contact of its process stack, every pin and label layer, every connection of the deck. Layers are attributed to conductors '
       'by the drawn layer they are derived from.')
def c50(ctx: Ctx):
    """Connections of the LVS deck are those of the process stack: contacts join the two layers they are declared between, metals of different levels are never joined
    directly, pins and labels belong to their metal."""
    for t, d in both(ctx):
        up = t.conductors()
        drawn = {t.gds(l): l.get('name') for l in t.layers}
        pins = {}
        for l in t.layers:
            for f in ('pin_gds_pair', 'label_gds_pair'):
                if t.gds(l, f):
                    pins[t.gds(l, f)] = l.get('name')
        memo = {}

        def base(layer):
            """conductor or via that the shapes of a deck layer belong to"""
            if layer not in memo:
                names = {drawn[g] for g in d.roots(layer) if g in drawn}
                hit = [x for x in names if x in up or t.purpose(x) in ('VIA', 'CONTACT', 'MIM_CAP')]
                memo[layer] = hit[0] if len(hit) == 1 else None
            return memo[layer]
        # between which layers a drawn via goes
        ends: Dict[str, Set[str]] = {}
        for l, k, dd, co in t.contacts():
            v = t.canonical(co.get('name'))
            if v is None:
                continue
            e = ends.setdefault(v, set())
            e.add(t.canonical(co.get('metal_above')))
            e.add(t.canonical(co.get('layer_below')))
            e.add(t.canonical(l.get('name')))
        plates = {x for x in list(t.canon) + list(t.comp) if t.purpose(x) == 'MIM_CAP'}
        for a, b, st in d.connects:
            ca, cb = base(a), base(b)
            who = f"{t.name}: connect({a}, {b})"
            for x, o in ((ca, cb), (cb, ca)):
                if x in up and o in up:
                    ctx.ob('levels', x == o, who, f"{t.name}: {a} ({ca}) and {b} ({cb}) are connected without a contact", at(ctx, st))
                elif x in ends and o in up:
                    ctx.ob('via', o in ends[x], who, f"{t.name}: {a} and {b} are connected: {x} goes from {' to '.join(sorted(map(str, ends[x])))}, not to {o}", at(ctx, st))
                elif x in ends and o in ends:
                    ctx.ob('via', x == o, who, f"{t.name}: the contacts {a} ({ca}) and {b} ({cb}) are connected directly", at(ctx, st))
                if x is not None and o is None:
                    y = b if x is ca and a != b else a
                    pn = {pins[g] for g in d.roots(y) if g in pins and g not in drawn}
                    if len(pn) == 1 and x in up:
                        ctx.ob('pin', pn == {x}, who, f"{t.name}: {y} belongs to {', '.join(pn)}, but is connected to {x}", at(ctx, st))
        g = d.graph()

        def joined(a, ok, want):
            """is a layer of <want> reached from <a> through layers that <ok> permits"""
            seen, todo = {a}, [a]
            while todo:
                x = todo.pop()
                if x != a and want(x):
                    return True
                for y in g.get(x, ()):
                    if y not in seen and (ok(y) or want(y)):
                        seen.add(y)
                        todo.append(y)
            return want(a)
        for l, k, dd, co in t.contacts():
            nm = co.get('name')
            if nm is None:
                continue
            v = t.canonical(nm)
            for end in (co.get('layer_below'), co.get('metal_above')):
                c = t.canonical(end)
                who = f"{t.name}: {nm} to {end}"
                if c in up:
                    r = joined(nm, lambda x: base(x) == v, lambda x: base(x) == c)
                    if not r and end == co.get('layer_below') and k == 'metal_layer' and t.purpose(l.get('name')) == 'MIM_CAP':
                        r = joined(nm, lambda x: base(x) == v, lambda x: x == l.get('name') or base(x) == t.canonical(l.get('name')))
                elif end in plates or t.purpose(end) == 'MIM_CAP':
                    r = joined(nm, lambda x: base(x) == v, lambda x: x == end or base(x) == c)
                else:
                    # diffusions: the computed layer of this implant
                    ds = {x for x in t.comp if t.canonical(x) == c}
                    r = joined(nm, lambda x: base(x) == v, lambda x: x in ds or x == end)
                ctx.ob('joined', r, who, f"{t.name}: the LVS deck does not connect {nm} to {end}", at(ctx, d.exported[nm]) if nm in d.exported else loc_of(ctx, co))
        for nm, c in t.comp.items():
            k = t.kind(c)
            if k not in ('PIN', 'LABEL'):
                continue
            b = (c.get('original_layer_name') or '').partition('.')[0]
            if b in up:
                r = any(base(y) == b for y in g.get(nm, ()))
                if k == 'PIN':
                    # or it is a part of the metal
                    r = r or t.gds(t.canon[b]) in d.all_roots(nm)
                ctx.ob('attached', r, f"{t.name}: {nm}", f"{t.name}: {nm} is not connected to a layer of {b}", at(ctx, d.exported[nm]) if nm in d.exported else loc_of(ctx, c))
        # every part of a conductor that the extraction knows is connected to the rest of it
        for m in up:
            parts = [x for x in t.comp if t.canonical(x) == m and t.kind(t.comp[x]) == 'REGULAR' and short(t.comp[x].get('layer_info.purpose')) == 'METAL']
            for x in parts:
                ctx.ob('in-use', x in g, f"{t.name}: {x}", f"{t.name}: {x} is not connected to anything", at(ctx, d.exported[x]) if x in d.exported else loc_of(ctx, t.comp[x]))
