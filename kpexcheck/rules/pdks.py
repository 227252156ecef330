"""C21: selecting a PDK selects its technology file, its LVS deck and its halo."""
from __future__ import annotations
import os
import re
from typing import *

from ..core import check, Ctx
from ..model import AnalysisBroken
from ..fold import Fold, Unknown
from ..q import *
from .cli import main_engine, CLI
from .tables import each_tech, loc_of, rel, generator

CONFIG = 'klayout_pex.kpex_cli.PDK.config'
WHERE = {'source checkout': True, 'installed package': False}


def pdk_values(ctx):
    c = ctx.prog.classes.get('klayout_pex.kpex_cli.PDK')
    ctx.need(c is not None, 'the PDKs are no longer declared by kpex_cli.PDK')
    f = Fold(ctx.prog)
    return {m: f.enum(f'klayout_pex.kpex_cli.PDK.{m}') for m in c.consts if not m.startswith('_')}


@check('C21', 'derivation of the paths a PDK resolves to (value flow, constant folding), cross-referenced with the files the generator writes and the decks of the repository',
       'Every PDK, in a source checkout and in an installed package; the file system is the repository as committed.')
def c21(ctx: Ctx):
    from ..vfa import T
    repo = ctx.prog.repo
    pdks = pdk_values(ctx)
    techs = {t.stem: t for t in each_tech(ctx)}
    e = ctx.analyse(CONFIG)
    rets = [ev for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1]
    subject = T('param', 'self')
    used: Dict[tuple, set] = {}
    for member, value in sorted(pdks.items()):
        for kind, git in WHERE.items():
            who = f"{value} ({kind})"
            root = '/ROOT'
            fold = Fold(ctx.prog, {subject: value}, {'__file__': f'{root}/klayout_pex/kpex_cli.py'},
                        {'exists': lambda p, git=git: git if str(p).rstrip('/').endswith('.git') else True,
                         'isdir': lambda p, git=git: git if str(p).rstrip('/').endswith('.git') else True,
                         'isfile': lambda p, git=git: git if str(p).rstrip('/').endswith('.git') else True})
            try:
                hits = [ev for ev in rets if ev.args and all(bool(fold(c)) == pol for c, pol in ev.guards)]
                ctx.ob('config', len(hits) == 1 and not [ev for ev in e.events if ev.kind == 'raise' and all(bool(fold(c)) == p for c, p in ev.guards)],
                       f"config of {who}", f"PDK {value} has {len(hits)} configurations", e.events[0].loc if e.events else CONFIG)
                if len(hits) != 1:
                    continue
                cfg = hits[0].args[0]
                vals = {}
                for f in ('name', 'tech_pb_json_path', 'pex_lvs_script_path'):
                    x = field(e, cfg, f)
                    if x is None:
                        raise Unknown(f"field {f} of the configuration")
                    vals[f] = fold(x)
            except Unknown as x:
                ctx.fail('config', f"config of {who}", f"cannot tell what the configuration of {value} is: {x}", CONFIG)
                continue
            loc = hits[0].loc
            ctx.ob('name', vals['name'] == value, f"name of {who}", f"the configuration of {value} is named {vals['name']}", loc)
            tp = os.path.normpath(vals['tech_pb_json_path'])
            d, stem = os.path.split(tp)
            ctx.ob('tech-dir', d == f'{root}/klayout_pex_protobuf', f"technology of {who}", f"the technology file of {who} is expected at {tp}", loc)
            if ctx.ob('tech-file', stem in techs, f"technology of {who}", f"{who}: the generator does not write {stem} (it writes {', '.join(sorted(techs))})", loc):
                t = techs[stem]
                ctx.ob('tech-of-pdk', t.msg.get('name') == value, f"technology of {who}",
                       f"{who}: {stem} describes the technology {t.msg.get('name')}", loc_of(ctx, t.msg, 'name'))
            lp = os.path.normpath(vals['pex_lvs_script_path'])
            base = f'{root}/' if git else f'{root}/klayout_pex/'
            if ctx.ob('deck-dir', lp.startswith(base + 'pdk/'), f"deck of {who}", f"the LVS deck of {who} is expected at {lp}, the PDKs are below {base}pdk", loc):
                rp = lp[len(base):]
                ctx.ob('deck-file', os.path.isfile(os.path.join(repo, rp)), f"deck of {who}", f"{who}: there is no LVS deck {rp}", loc)
                ctx.ob('deck-of-pdk', rp.split('/')[1] == value, f"deck of {who}", f"{who}: the LVS deck {rp} is that of another PDK", loc)
                used.setdefault((rp, stem), set()).add(value)
    for (rp, stem), vs in used.items():
        ctx.ob('own-files', len(vs) == 1, f"{rp}, {stem}", f"{', '.join(sorted(vs))} share {rp} and {stem}", CONFIG)
    for stem, t in techs.items():
        ctx.ob('selectable', t.msg.get('name') in pdks.values(), f"{stem}", f"no PDK {t.msg.get('name')} can be selected for {stem}", loc_of(ctx, t.msg, 'name'))
        halo = t.msg.get('process_parasitics.side_halo')
        pm = t.msg.get('process_parasitics')
        if ctx.ob('halo', isinstance(halo, (int, float)) and 0 < halo < 1000, f"{t.name}: side halo", f"{t.name}: the side halo is {halo} um", loc_of(ctx, pm, 'side_halo')):
            # the reach of fringe fields: beyond the height of the tallest metal of the process nothing is left
            tall = max((m.get('z', 0.0) for l, m in t.of_kind('metal_layer')), default=0.0)
            ctx.ob('halo', halo >= tall / 2, f"{t.name}: side halo reaches", f"{t.name}: the side halo of {halo} um is below half of the height of the metals ({tall} um)",
                   loc_of(ctx, pm, 'side_halo'))
    _, _, gen = generator(ctx)
    for stem, ws in gen.items():
        ctx.ob('one-writer', len(ws) == 1, stem, f"{stem} is written {len(ws)} times", rel(ctx, ws[-1][1]))
    # the configuration of the selected PDK is what runs
    m, args = main_engine(ctx)
    for callee, par, attr in (('tech_info.TechInfo.from_json', 'jsonpb_path', 'tech_pbjson_path'), ('lvs_runner.LVSRunner.run_klayout_lvs', 'lvs_script', 'lvs_script_path')):
        evs = [ev for ev in m.events if ev.kind == 'call' and ev.callee and ev.callee.endswith(callee)]
        ctx.ob('used', evs, callee, f"main never calls {callee}", CLI)
        for ev in evs:
            v = bind(ctx.prog, ev).get(par)
            ctx.ob('used', v is not None and v.op == 'attr' and v.a[1] == attr and v.a[0] is args, f"{callee} {par}",
                   f"{callee} gets {v!r} as {par}, not the {attr} of the arguments"[:200], ev.loc)
    va = ctx.analyse(f'{CLI}.validate_args')
    ap = T('param', 'args')
    for attr, f in (('tech_pbjson_path', 'tech_pb_json_path'), ('lvs_script_path', 'pex_lvs_script_path')):
        st = [ev for ev in va.events if ev.kind == 'store' and ev.callee == attr and ev.recv is ap]
        want = T('attr', T('attr', T('attr', ap, 'pdk'), 'config'), f)
        ctx.ob('stored', st, f"args.{attr}", f"validate_args does not set args.{attr}", f'{CLI}.validate_args')
        for ev in st:
            v = ev.args[0]
            ok = v is want or v.op == 'attr' and v.a[1] == f and v.a[0].op == 'attr' and v.a[0].a[1] == 'config' and \
                mentions(v, want.a[0].a[0])
            ctx.ob('stored', ok, f"args.{attr}", f"args.{attr} is {v!r}, not the {f} of the selected PDK"[:200], ev.loc)
