"""kpex_cli: C03 (options), C04 (validation), C05 (engine selection), C06 (LVS cache), C07 (output directory),
C08 (field solver pipeline), C09 (2.5D table)."""
import ast
from ..core import check, Ctx
from ..q import *
from ..bools import sat, entails, equiv, conj, feasible
from . import runners

CLI = 'klayout_pex.kpex_cli.KpexCLI'
LIB = ['klayout_pex.' + m for m in (
    'fastercap', 'fastcap', 'magic', 'rcx25', 'klayout', 'tech_info', 'common', 'util', 'env', 'netlist', 'netlistsvg')]


def main_engine(ctx: Ctx):
    e = ctx.analyse(f'{CLI}.main', opaque=LIB + [f'{CLI}.parse_args', f'{CLI}.setup_logging', f'{CLI}.validate_args'])
    pa = [ev for ev in e.events if ev.kind == 'call' and ev.callee == f'{CLI}.parse_args']
    ctx.need(pa, 'KpexCLI.main no longer calls parse_args')
    return e, pa[0].result


def one(ctx, e, name):
    evs = calls(e, name)
    return evs


def A_(args, dest):
    return T('attr', args, dest)


def strlike(t):
    """value ignoring str() / f"{x}" around it"""
    while True:
        if t.op == 'fstr' and len(t.a) == 1:
            t = t.a[0]
        elif is_call(t, 'str') and t.op == 'call' and len(cargs(t)) == 1:
            t = cargs(t)[0]
        else:
            return t


FLOW = {
    # sink: {parameter: args attribute}
    'fastercap.fastercap_runner.run_fastercap': dict(
        exe_path='fastercap_exe_path', tolerance='fastercap_tolerance', d_coeff='fastercap_d_coeff',
        mesh_refinement_value='fastercap_mesh_refinement_value', ooc_condition='fastercap_ooc_condition',
        auto_preconditioner='fastercap_auto_preconditioner', galerkin_scheme='fastercap_galerkin_scheme',
        jacobi_preconditioner='fastercap_jacobi_preconditioner'),
    'fastcap.fastcap_runner.run_fastcap': dict(exe_path='fastcap_exe_path'),
    'magic.magic_runner.run_magic': dict(exe_path='magic_exe_path', magicrc_path='magicrc_path'),
    'magic.magic_runner.prepare_magic_script': dict(
        gds_path='effective_gds_path', cell_name='effective_cell_name', pex_mode='magic_pex_mode',
        c_threshold='magic_cthresh', r_threshold='magic_rthresh', tolerance='magic_tolerance', halo='magic_halo',
        short_mode='magic_short_mode', merge_mode='magic_merge_mode'),
    'fastercap.fastercap_input_builder.FasterCapInputBuilder': dict(
        k_void='k_void', delaunay_amax='delaunay_amax', delaunay_b='delaunay_b'),
    'rcx25.extractor.RCX25Extractor': dict(pex_mode='pex_mode', scale_ratio_to_fit_halo='scale_ratio_to_fit_halo'),
    'tech_info.TechInfo.from_json': dict(jsonpb_path='tech_pbjson_path', dielectric_filter='dielectric_filter'),
    'klayout.lvsdb_extractor.KLayoutExtractionContext.prepare_extraction': dict(
        top_cell='effective_cell_name', blackbox_devices='blackbox_devices'),
    'klayout.lvs_runner.LVSRunner.run_klayout_lvs': dict(
        exe_path='klayout_exe_path', lvs_script='lvs_script_path', gds_path='effective_gds_path',
        schematic_path='effective_schematic_path', verbose='klayout_lvs_verbose'),
    'klayout.netlist_expander.NetlistExpander.expand': dict(blackbox_devices='blackbox_devices'),
    'rcx25.netlist_expander.RCX25NetlistExpander.expand': dict(blackbox_devices='blackbox_devices'),
}

# option string, destination, kind of value
OPTIONS = [
    ('--log_level', 'log_level', 'str'), ('--threads', 'num_threads', 'int'), ('--pdk', 'pdk', 'PDK'),
    ('--out_dir', 'output_dir_base_path', 'str'), ('--gds', 'gds_path', 'str'), ('--schematic', 'schematic_path', 'str'),
    ('--lvsdb', 'lvsdb_path', 'str'), ('--cell', 'cell_name', 'str'), ('--cache-lvs', 'cache_lvs', 'bool'),
    ('--cache-dir', 'cache_dir_path', 'str'), ('--lvs-verbose', 'klayout_lvs_verbose', 'bool'),
    ('--blackbox', 'blackbox_devices', 'bool'), ('--fastercap', 'run_fastercap', 'flag'),
    ('--fastcap', 'run_fastcap', 'flag'), ('--magic', 'run_magic', 'flag'), ('--2.5D', 'run_2_5D', 'flag'),
    ('--k_void', 'k_void', 'float'), ('--delaunay_amax', 'delaunay_amax', 'float'),
    ('--delaunay_b', 'delaunay_b', 'float'), ('--geo_check', 'geometry_check', 'bool'),
    ('--diel', 'dielectric_filter', 'str'), ('--tolerance', 'fastercap_tolerance', 'float'),
    ('--d_coeff', 'fastercap_d_coeff', 'float'), ('--mesh', 'fastercap_mesh_refinement_value', 'float'),
    ('--ooc', 'fastercap_ooc_condition', 'float'), ('--auto_precond', 'fastercap_auto_preconditioner', 'bool'),
    ('--galerkin', 'fastercap_galerkin_scheme', 'flag'), ('--jacobi', 'fastercap_jacobi_preconditioner', 'flag'),
    ('--magicrc', 'magicrc_path', 'str'), ('--magic_mode', 'magic_pex_mode', 'MagicPEXMode'),
    ('--magic_cthresh', 'magic_cthresh', 'float'), ('--magic_rthresh', 'magic_rthresh', 'number'),
    ('--magic_tolerance', 'magic_tolerance', 'float'), ('--magic_halo', 'magic_halo', 'float'),
    ('--magic_short', 'magic_short_mode', 'MagicShortMode'), ('--magic_merge', 'magic_merge_mode', 'MagicMergeMode'),
    ('--mode', 'pex_mode', 'PEXMode'), ('--halo', 'halo', 'float'), ('--scale', 'scale_ratio_to_fit_halo', 'bool'),
]
EXES = dict(fastcap_exe_path='FASTCAP_EXE', fastercap_exe_path='FASTERCAP_EXE', klayout_exe_path='KLAYOUT_EXE',
            magic_exe_path='MAGIC_EXE')


def type_ok(kind, ev):
    ty, action = ev.kw.get('type'), ev.kw.get('action')
    if kind == 'flag':
        return action is not None and is_const(action, 'store_true') and (ev.kw.get('default') in (None, FALSE))
    if action is not None and not is_const(action, 'store'):
        return False
    if kind == 'str':
        return ty is None or is_ref(ty, 'str')
    if kind == 'float':
        return ty is not None and is_ref(ty, 'float')
    if kind == 'int':
        return ty is not None and is_ref(ty, 'int')
    if kind == 'number':
        return ty is not None and (is_ref(ty, 'int') or is_ref(ty, 'float'))
    if kind == 'bool':
        return ty is not None and is_ref(ty, 'true_or_false')
    return ty is not None and is_ref(ty, kind)


def parse_engine(ctx):
    return ctx.analyse(f'{CLI}.parse_args', opaque=['klayout_pex.util', 'klayout_pex.env'])


def arg_events(e):
    return [ev for ev in e.events if ev.kind == 'call' and ev.name == 'add_argument']


@check('C03', 'def-use chains from each command line option to the argument vectors and scripts of the tools',
       'Decides the chain option -> destination -> engine parameter -> argument position/flag, with the exact condition of '
       'optional flags. Option values are opaque. The meaning of the flags is that of the tools\' manuals.')
def c03(ctx: Ctx):
    """Three links per option: add_argument (destination and conversion), the parameter binding at the engine call in
    KpexCLI, and the flag in the argv/script that the engine builds."""
    for q, spec in runners.ARGV.items():
        runners.check_argv(ctx, q, spec)
    # options
    pe = parse_engine(ctx)
    by_opt = {}
    dests = {}
    for ev in arg_events(pe):
        opts = [a.a[0] for a in ev.args if a.op == 'const']
        d = ev.kw.get('dest')
        dest = d.a[0] if d is not None and d.op == 'const' else (opts[0].lstrip('-').replace('-', '_') if opts else None)
        for o in opts:
            by_opt.setdefault(o, []).append((dest, ev))
        dests.setdefault(dest, []).append(ev)
    ctx.need(by_opt, 'no command line options found')
    for opt, dest, kind in OPTIONS:
        evs = by_opt.get(opt, [])
        ctx.ob('option-destination', len(evs) == 1 and evs[0][0] == dest, f"{CLI}.parse_args:{opt}",
               f"the option {opt} is stored in {[d for d, _ in evs]}, not in {dest}", evs[0][1].loc if evs else '')
        for d, ev in evs[:1]:
            ctx.ob('option-type', type_ok(kind, ev), f"{CLI}.parse_args:{opt}",
                   f"the value of {opt} is not converted as {kind}", ev.loc)
            ctx.ob('option-unconditional', not ev.guards, f"{CLI}.parse_args:{opt}", 'the option exists only sometimes',
                   ev.loc)
            ctx.ob('option-own-destination', len(dests[d]) == 1, f"{CLI}.parse_args:{opt}",
                   'two options write the same destination', ev.loc)
    # tool locations
    ns = pe.result
    for attr, var in EXES.items():
        v = field(pe, ns, attr) if ns is not None else None
        ok = v is not None and v.op == 'item' and is_param(v.a[0].a[0] if v.a[0].op == 'attr' else v.a[0], 'env') and is_ref(v.a[1], f'EnvVar.{var}')
        ctx.ob('tool-location', ok, f"{CLI}.parse_args:{attr}",
               f"{attr} is {show(v) if v is not None else 'not set'}, not env[EnvVar.{var}]")
    # bindings at the engine calls
    e, args = main_engine(ctx)
    for sink, spec in FLOW.items():
        evs = calls(e, 'klayout_pex.' + sink)
        ctx.ob('engine-called', bool(evs), f"{CLI}.main -> {sink}", 'the engine is never called')
        for ev in evs:
            b = bind(ctx.prog, ev)
            for p, dest in spec.items():
                v = b.get(p)
                ok = v is not None and path_root(v) is A_(args, dest)
                ctx.ob('option-reaches-engine', ok, f"{sink}:{p}",
                       f"parameter {p} gets {show(v) if v is not None else 'its default'} instead of args.{dest}", ev.loc)
    # threads
    run = calls(e, 'fastercap_runner.run_fastercap')
    for ev in run:
        sets = [s for s in e.events if (s.kind == 'setitem' and is_ref(s.recv, 'os.environ') and
                                        is_const(s.args[0], 'OMP_NUM_THREADS')) or
                (s.kind == 'call' and s.callee == 'os.putenv' and is_const(s.args[0], 'OMP_NUM_THREADS'))]
        sets = [s for s in sets if dominates(s, ev)]
        ctx.ob('threads-reach-solver', bool(sets) and strlike(sets[-1].args[1]) is A_(args, 'num_threads'),
               f"{CLI}.main:OMP_NUM_THREADS", 'the number of threads does not reach FasterCap', ev.loc)
    # halo override
    st = [s for s in e.events if s.kind == 'store' and s.callee == 'side_halo']
    ok = len(st) == 1 and st[0].args[0] is A_(args, 'halo') and \
        equiv(list(st[0].guards), T('not', mk_cmp('==', A_(args, 'halo'), NONE)))
    ctx.ob('halo-override', ok, f"{CLI}.main:halo",
           'the side halo is not replaced exactly when --halo is given', st[0].loc if st else '')
    tech = calls(e, 'TechInfo.from_json')
    for s in st[:1]:
        ctx.ob('halo-override-target', bool(tech) and same(s.recv, T('attr', T('attr', tech[0].result, 'tech'),
                                                                     'process_parasitics')),
               f"{CLI}.main:halo", f"the halo is stored in {show(s.recv)}", s.loc)
        for sink in ('RCX25Extractor',):
            for ev in calls(e, sink):
                ctx.ob('halo-before-use', s.idx < ev.idx, f"{CLI}.main:halo", 'the halo is replaced after its use', s.loc)
    # geometry check
    chk = [ev for ev in calls(e, '.check') if 'fastercap_model_generator' in ev.callee or ev.callee == '.check']
    b = calls(e, 'FasterCapModelGenerator.write_fastcap')
    ok = bool(chk) and any(equiv(list(c.guards), list(b[0].guards) + [(A_(args, 'geometry_check'), True)]) for c in chk
                           if b)
    ctx.ob('geometry-check', ok, f"{CLI}.main:geometry_check", 'the geometry check does not run exactly when requested')


# ------------------------------------------------------------------ C04
VALIDATED = ('effective_cell_name', 'input_mode', 'output_dir_path', 'tech_pbjson_path', 'lvs_script_path', 'log_level',
             'dielectric_filter', 'cache_dir_path')
VALIDATED_GDS = ('effective_gds_path', 'effective_schematic_path')


def fresh(args, names):
    """the parser's namespace has no derived settings"""
    return [(T('call', 'hasattr', (args, const(n)), ()), False) for n in names]


@check('C04', 'branch-condition dataflow (decision diagrams over the conditions) of the validation and of its caller',
       'Decides that each reported problem excludes normal return, that each derived setting is assigned on every normal '
       'return, that validation failure ends in sys.exit with a non-zero constant, and the order relative to the engines. '
       'Decides nothing about problems the validation does not look for.')
def c04(ctx: Ctx):
    """validate_args: for each error() call, its path condition contradicts the condition of the normal exit; each derived
    setting has no unassigned path at the normal exit. setup_logging: handler exits non-zero. main: validation dominates."""
    vq = f'{CLI}.validate_args'
    f = ctx.prog.funcs.get(vq)
    ctx.need(f is not None, 'KpexCLI.validate_args is gone')
    e = ctx.analyse(vq, opaque=['klayout_pex.util', 'klayout_pex.klayout'])
    args = T('param', 'args')
    fr = fresh(args, VALIDATED + VALIDATED_GDS + ('layout',))
    errs = [ev for ev in e.events if ev.kind == 'call' and ev.callee in ('klayout_pex.log.logger.error',
                                                                        'klayout_pex.log.error')]
    ctx.ob('errors-found', len(errs) >= 8, vq, f"only {len(errs)} problems are reported")
    fin = list(e.final.guards) if e.final is not None else [(FALSE, True)]
    for ev in errs:
        msg = show(ev.args[0])[:80] if ev.args else ''
        bad = sat(fr + list(ev.guards) + fin)
        ctx.ob('error-fails-validation', not bad, f"{vq}:{msg}",
               'the validation can succeed after reporting this problem', ev.loc)
    raises = [r for r in e.events if r.kind == 'raise' and is_new(r.args[0], 'ArgumentValidationError')]
    ctx.ob('validation-error-raised', bool(raises), vq, 'the validation never fails')
    def undefined(name, under):
        v = e.final.heap.get((args, name)) if e.final is not None else None
        d = T('attr', args, name)
        if v is None:
            return name not in [x[1] for x in OPTIONS]
        if name in [x[1] for x in OPTIONS]:
            return False
        return any(l is d and sat(fr + list(c) + fin + under) for c, l in gated_leaves(v))
    for n in VALIDATED:
        ctx.ob('setting-defined', not undefined(n, []), f"{vq}:{n}",
               f"args.{n} can be unset after a successful validation")
    gds = e.final.heap.get((args, 'input_mode')) if e.final else None
    for n in VALIDATED_GDS:
        u = [mk_cmp('==', gds, T('ref', 'klayout_pex.kpex_cli.InputMode.GDS'))] if gds is not None else []
        ctx.ob('setting-defined', not undefined(n, u), f"{vq}:{n}",
               f"args.{n} can be unset in GDS mode after a successful validation")
    # what the settings are
    h = e.final.heap if e.final else {}
    for n, want in (('tech_pbjson_path', 'tech_pb_json_path'), ('lvs_script_path', 'pex_lvs_script_path')):
        v = h.get((args, n))
        ctx.ob('setting-source', v is not None and v.op == 'attr' and v.a[1] == want and
               mentions(v, T('attr', args, 'pdk')), f"{vq}:{n}", f"args.{n} is {show(v) if v is not None else None}")
    v = h.get((args, 'input_mode'))
    ctx.ob('setting-source', v is not None and not sat(fr + fin + [
        mk_cmp('==', v, T('ref', 'klayout_pex.kpex_cli.InputMode.GDS')), mk_cmp('==', T('attr', args, 'gds_path'), NONE)]),
           f"{vq}:input_mode", 'GDS mode without a GDS file')
    v = h.get((args, 'input_mode'))
    ctx.ob('setting-source', v is not None and not sat(fr + fin + [
        mk_cmp('==', v, T('ref', 'klayout_pex.kpex_cli.InputMode.LVSDB')),
        mk_cmp('==', T('attr', args, 'lvsdb_path'), NONE)]),
           f"{vq}:input_mode", 'LVSDB mode without a LVSDB file')
    v = h.get((args, 'effective_cell_name'))
    if v is not None:
        for c, l in gated_leaves(v):
            if l is T('attr', args, 'effective_cell_name') or not sat(fr + fin + list(c)):
                continue
            ok = l is T('attr', args, 'cell_name') and entails(fr + fin + list(c), T('attr', args, 'cell_name')) or \
                (l.op == 'attr' and l.a[1] == 'name' and not sat(fr + fin + list(c) + [T('attr', args, 'cell_name'),
                                                                                       T('attr', args, 'gds_path')]))
            ctx.ob('cell-name-source', ok, f"{vq}:effective_cell_name={show(l)[:60]}",
                   f"the effective cell name can be {show(l)}")
    v = h.get((args, 'effective_schematic_path'))
    if v is not None:
        for c, l in gated_leaves(v):
            if l is T('attr', args, 'effective_schematic_path') or not sat(fr + fin + list(c)):
                continue
            sp = T('attr', args, 'schematic_path')
            ok = l is sp or not sat(fr + fin + list(c) + [sp])
            ctx.ob('schematic-source', ok, f"{vq}:effective_schematic_path", 'a given schematic is not used')
    v = h.get((args, 'cache_dir_path'))
    if v is not None:
        for c, l in gated_leaves(v):
            cd = T('attr', args, 'cache_dir_path')
            ok = l is cd or not sat(list(c) + [T('not', mk_cmp('==', cd, NONE)), cd])
            ctx.ob('cache-dir-source', ok, f"{vq}:cache_dir_path", 'a given cache directory is not used')
    rejected(ctx, e, args, vq, fr + fin, h)
    # caller
    sq = f'{CLI}.setup_logging'
    s = ctx.analyse(sq, opaque=[vq, 'klayout_pex.log'])
    va = calls(s, vq)
    ctx.ob('validated', bool(va) and not [l for l in va[0].guards if l[0].op != 'tryok'] and not va[0].loops, sq,
           'the arguments are not validated on every path')
    for ev in va[:1]:
        for l in ev.guards:
            if l[0].op != 'tryok' or s.final is None:
                continue
            ok = not s.try_alive.get(l[0].a[0]) or not sat(list(s.final.guards) + [(l[0], False)])
            ctx.ob('failure-not-swallowed', ok, sq, 'the program continues after a failed validation', ev.loc)
    exits = [x for x in s.events if x.kind == 'call' and x.callee in ('sys.exit', 'os._exit', 'exit', 'quit')]
    for x in exits:
        a = x.args[0] if x.args else None
        ctx.ob('exit-nonzero', a is not None and a.op == 'const' and a.a[0] not in (0, None, False), sq,
               'the program ends with status 0 after a failed validation', x.loc)
    m, margs = main_engine(ctx)
    su = [ev for ev in m.events if ev.kind == 'call' and ev.callee in (sq, vq)]
    ctx.ob('validation-first', bool(su) and not su[0].guards and not su[0].loops, f'{CLI}.main',
           'the arguments are not validated on every path')
    for ev in m.events:
        if su and ev.kind == 'call' and ev.callee.startswith(tuple(LIB)) and not ev.callee.startswith(
                ('klayout_pex.env', 'klayout_pex.util')):
            ctx.ob('validation-before-use', su[0].idx < ev.idx, f"{CLI}.main -> {ev.callee}",
                   'runs before the arguments were validated', ev.loc)
    for x in m.events:
        if x.kind == 'call' and x.callee in ('sys.exit', 'os._exit'):
            a = x.args[0] if x.args else None
            ctx.ob('exit-nonzero', a is not None and a.op == 'const' and a.a[0] not in (0, None, False), f'{CLI}.main',
                   'an error exit ends with status 0', x.loc)


def rejected(ctx, e, args, vq, base, h):
    """each of the problems of the statement excludes a normal return"""
    def given(n):
        a = T('attr', args, n)
        return [a, mk_not(mk_cmp('==', a, NONE))]

    def absent(n):
        a = T('attr', args, n)
        return [mk_not(a), mk_cmp('==', a, NONE)]

    def reject(what, conds, msg):
        ctx.ob('problem-rejected', not sat(base + conds), f"{vq}:{what}", f"the validation succeeds although {msg}")

    def file_tests(v, also=()):
        return [ev.result for ev in e.events if ev.kind == 'call' and (
            ev.callee in ('os.path.isfile',) + also and ev.args and path_root(ev.args[0]) is path_root(v) or
            ev.callee in ('.is_file',) and ev.recv is not None and path_root(ev.recv) is path_root(v))]

    for n, under in (('klayout_exe_path', []), ('tech_pbjson_path', []), ('lvs_script_path', []), ('gds_path', given('gds_path')),
                     ('lvsdb_path', absent('gds_path') + given('lvsdb_path')),
                     ('schematic_path', given('gds_path') + given('schematic_path'))):
        v = h.get((args, n), T('attr', args, n)) if n in ('tech_pbjson_path', 'lvs_script_path') else T('attr', args, n)
        ts = file_tests(v, ('shutil.which',) if n == 'klayout_exe_path' else ())
        if n == 'schematic_path':
            x = h.get((args, 'effective_schematic_path'))
            ts += [t for l in leaves(x) if l is v for t in file_tests(x)] if x is not None else []
        ctx.ob('file-checked', bool(ts), f"{vq}:{n}", f"nothing checks that the file args.{n} exists")
        if ts:
            reject(n, under + [mk_not(t) for t in ts] + [mk_cmp('==', t, NONE) for t in ts if is_call(t, 'shutil.which')], f"the file args.{n} does not exist")
    flags = [T('attr', args, x) for x in ('run_magic', 'run_fastcap', 'run_fastercap', 'run_2_5D')]

    def no(t):
        return [mk_not(t), mk_cmp('==', t, FALSE), mk_not(mk_cmp('==', t, TRUE))]
    reject('engines', [c for t in flags for c in no(t)], 'no engine is selected')
    reject('magic', absent('gds_path') + [flags[0], mk_cmp('==', flags[0], TRUE), mk_not(mk_cmp('==', flags[0], FALSE))],
           'Magic is selected without a layout')
    reject('input', absent('gds_path') + absent('lvsdb_path'), 'there is neither a layout nor a LVS database')
    for n in ('log_level', 'dielectric_filter'):
        v = h.get((args, n))
        bad = v is None or any(l is T('attr', args, n) and sat(base + list(c)) for c, l in gated_leaves(v))
        ctx.ob('problem-rejected', not bad, f"{vq}:{n}", f"the validation succeeds with args.{n} as it was given (a text)")
    # top cell: the name of a top cell is used only if there is a single one
    v = h.get((args, 'effective_cell_name'))
    for c, l in gated_leaves(v) if v is not None else ():
        tops = [x for x in subterms(l) if is_call(x, '.top_cells') or is_call(x, '.each_top_cell')]
        if not tops or not sat(base + list(c)):
            continue
        one = [x for t in base + list(c) for x in subterms(t[0] if isinstance(t, tuple) else t)
               if x.op == 'cmp' and x.a[0] == '==' and any(is_call(y, 'len') for y in x.a[1:]) and any(is_const(y, 1) for y in x.a[1:])]
        ok = any(not sat(base + list(c) + [mk_not(x)]) for x in one)
        ctx.ob('problem-rejected', ok, f"{vq}:top-cell", 'the validation succeeds although the layout has several top cells and '
               'none was chosen')
    # an explicit cell has to exist
    cells = ('.cells', '.each_cell', '.top_cells', '.cell', '.cell_by_name', '.each_top_cell')
    cand = [m for m, (i, u) in e.mu_info.items() if i is NONE and u is not None and any(is_call(x, *cells) for x in subterms(u))]
    for ev in e.events:
        if ev.kind == 'call' and ev.result is not None and (ev.callee == 'next' or ev.callee == '.cell') and \
                (ev.callee == '.cell' or len(ev.args) == 2 and ev.args[1] is NONE):
            cand.append(ev.result)
    conds = []
    for t in cand:
        conds += [mk_not(t), mk_cmp('==', t, NONE)]
    has = [ev.result for ev in e.events if ev.kind == 'call' and ev.callee == '.has_cell']
    for ev in e.events:
        for t, p in ev.guards:
            has += [x for x in subterms(t) if x.op == 'exists' and mentions(x, T('attr', args, 'cell_name')) and
                    any(is_call(y, *cells) for y in subterms(x))]
    conds += [mk_not(t) for t in has]
    ctx.ob('cell-checked', bool(conds), f"{vq}:cell_name", 'nothing checks that the chosen cell exists')
    if conds:
        reject('cell_name', given('gds_path') + given('cell_name') + conds, 'the chosen cell does not exist in the layout')


def lit_not(t):
    return mk_not(truthy(t)) if t.op != 'ite' else T('not', t)


# ------------------------------------------------------------------ C05
ENGINES = {
    'magic.magic_runner.run_magic': 'run_magic',
    'magic.magic_runner.prepare_magic_script': 'run_magic',
    'fastercap.fastercap_runner.run_fastercap': 'run_fastercap',
    'fastcap.fastcap_runner.run_fastcap': 'run_fastcap',
    'rcx25.extractor.RCX25Extractor.extract': 'run_2_5D',
}


@check('C05', 'path-condition and ordering analysis of KpexCLI.main over all its callees',
       'Decides the exact condition under which each engine call is reached and that the context it gets was prepared from '
       'the database read before. What an engine does is decided by other checks.')
def c05(ctx: Ctx):
    """Per engine call: path condition == (selected [and layers were found]); dominated by the LVS database read and by
    prepare_extraction on this very database."""
    e, args = main_engine(ctx)
    prep = calls(e, 'KLayoutExtractionContext.prepare_extraction')
    ctx.ob('context-prepared', len(prep) == 1, f'{CLI}.main', 'the extraction context is not prepared exactly once')
    layers = T('attr', prep[0].result, 'extracted_layers') if prep else None
    reads = [r for r in e.events if r.kind == 'call' and r.callee == '.read' and is_new(r.recv, 'LayoutVsSchematic')]
    gdsmode = mk_cmp('==', A_(args, 'input_mode'), T('ref', 'klayout_pex.kpex_cli.InputMode.GDS'))
    lvsmode = mk_cmp('==', A_(args, 'input_mode'), T('ref', 'klayout_pex.kpex_cli.InputMode.LVSDB'))
    for sink, flag in ENGINES.items():
        evs = calls(e, 'klayout_pex.' + sink)
        ctx.ob('engine-reachable', len(evs) == 1, f"{CLI}.main -> {sink}", f"{len(evs)} calls of the engine")
        for ev in evs:
            want = [(A_(args, flag), True)]
            under = []
            if flag == 'run_magic':
                # validated: Magic needs a GDS
                under = [gdsmode]
            else:
                under = [T('or', gdsmode, lvsmode) if gdsmode is not lvsmode else gdsmode]
            if flag != 'run_magic' and layers is not None:
                want.append((layers, True))
            ctx.ob('engine-condition', equiv(list(ev.guards), want, under) and not ev.loops, f"{CLI}.main -> {sink}",
                   f"the engine runs under {show(conj(ev.guards))} instead of {show(conj(want))}", ev.loc)
            if flag == 'run_magic':
                continue
            for p in prep:
                ctx.ob('prepared-before-engine', p.idx < ev.idx, f"{CLI}.main -> {sink}",
                       'the engine runs before the extraction context is prepared', ev.loc)
    for p in prep:
        b = bind(ctx.prog, p)
        db = b.get('lvsdb')
        rd = [r for r in reads if r.recv is db and r.idx < p.idx]
        ctx.ob('database-read', bool(rd) and not sat(
            list(p.guards) + [T('or', gdsmode, lvsmode) if gdsmode is not lvsmode else gdsmode] +
            [lit_not(conj(r.guards)) for r in rd]), f'{CLI}.main',
            'the extraction context can be prepared from a database that was never read', p.loc)
        modes = [A_(args, 'run_fastcap'), A_(args, 'run_fastercap'), A_(args, 'run_2_5D')]
        ctx.ob('database-only-if-needed', equiv(list(p.guards), mk_or(modes), [mk_or(modes + [A_(args, 'run_magic')]), T('or', gdsmode, lvsmode) if gdsmode is not lvsmode else gdsmode]), f'{CLI}.main',
               'the LVS database is prepared although no engine needs it, or not although one does', p.loc)
        tech = calls(e, 'TechInfo.from_json')
        ctx.ob('context-tech', bool(tech) and b.get('tech') is tech[0].result, f'{CLI}.main',
               'the extraction context does not get the technology of this run', p.loc)
    # the engines work on this context
    for sink, par in (('FasterCapInputBuilder', 'pex_context'), ('RCX25Extractor', 'pex_context'),
                      ('FasterCapInputBuilder', 'tech_info'), ('RCX25Extractor', 'tech_info')):
        for ev in calls(e, sink):
            if not ev.callee.endswith(sink):
                continue
            b = bind(ctx.prog, ev)
            want = prep[0].result if par == 'pex_context' and prep else \
                (calls(e, 'TechInfo.from_json') or [None])[0].result
            ctx.ob('engine-input', b.get(par) is want, f"{sink}:{par}",
                   f"the engine gets {show(b.get(par)) if b.get(par) is not None else 'nothing'}", ev.loc)
    # no layers -> non-zero exit
    ex = [x for x in e.events if x.kind == 'call' and x.callee in ('sys.exit',)]
    if layers is not None:
        ctx.ob('no-layers-exit', any(entails(list(x.guards), lit_not(layers)) for x in ex), f'{CLI}.main',
               'the program does not end when no layer was found')


# ------------------------------------------------------------------ C06
def strip_time(t):
    """file whose modification time this is"""
    while is_call(t, 'datetime.datetime.fromtimestamp', 'datetime.fromtimestamp', 'float', 'int') and cargs(t):
        t = cargs(t)[0]
    if is_call(t, 'os.path.getmtime') and cargs(t):
        return cargs(t)[0]
    if t.op == 'attr' and t.a[1] in ('st_mtime', 'st_mtime_ns') and is_call(t.a[0], 'os.stat', '.stat'):
        return path_root(cargs(t.a[0])[0])
    return None


@check('C06', 'path-condition and def-use analysis of the LVS database provider',
       'Decides the condition of a cache hit (caching on, file exists, file not older than the layout), which file is read '
       'on which path, when LVS runs, when the cache is filled, and what the cache file name depends on. Trusts file times.')
def c06(ctx: Ctx):
    """create_lvsdb: hit := the LVS run is skipped in GDS mode; hit must imply cache_lvs, existence and freshness; the read on a
    hit is the cache file, on a miss the file LVS writes, which is copied to the cache when caching is on."""
    q = f'{CLI}.create_lvsdb'
    ctx.need(q in ctx.prog.funcs, 'KpexCLI.create_lvsdb is gone')
    e = ctx.analyse(q, opaque=LIB)
    args = T('param', 'args')
    mode = A_(args, 'input_mode')
    gds = mk_cmp('==', mode, T('ref', 'klayout_pex.kpex_cli.InputMode.GDS'))
    lvs = mk_cmp('==', mode, T('ref', 'klayout_pex.kpex_cli.InputMode.LVSDB'))
    runs = calls(e, 'LVSRunner.run_klayout_lvs')
    ctx.ob('lvs-run-site', len(runs) == 1, q, f"{len(runs)} LVS runs")
    if not runs:
        return
    run = runs[0]
    out = bind(ctx.prog, run).get('lvsdb_path')
    outs = feasible(out, run.guards) if out is not None else []
    ctx.ob('lvs-output', len(outs) == 1, q, 'LVS writes to different files')
    if len(outs) != 1:
        return
    out = outs[0]
    ctx.ob('lvs-mode', entails(list(run.guards) + [T('or', gds, lvs) if gds is not lvs else gds], gds), q, 'LVS runs although a LVS database was given', run.loc)
    reads = [r for r in e.events if r.kind == 'call' and r.callee == '.read' and is_new(r.recv, 'LayoutVsSchematic')]
    ret = [r for r in leaves(e.result)] if e.result is not None else []
    ctx.ob('returns-read-db', bool(reads) and all(any(r.recv is x for r in reads) for x in ret), q,
           'the database returned is not the one that was read')
    # classify what is read
    miss = conj(run.guards)
    cache = None
    for r in reads:
        p = r.args[0]
        for c, l in gated_leaves(p):
            cond = list(r.guards) + list(c)
            if not sat(cond + [gds]):
                ctx.ob('reads-given-db', l is A_(args, 'lvsdb_path'), q, f"in LVSDB mode {show(l)} is read", r.loc)
                continue
            if not sat(cond):
                continue
            if l is out:
                okmiss = not sat(cond + [gds, lit_not(miss)])
                if not okmiss:      # the file may have been copied from the cache
                    cp = [x for x in e.events if x.kind == 'call' and x.callee in ('shutil.copy', 'shutil.copyfile',
                                                                                  'shutil.copy2') and
                          len(x.args) == 2 and x.args[1] is out and x.idx < r.idx]
                    okmiss = bool(cp) and not sat(cond + [gds, lit_not(miss)] + [lit_not(conj(x.guards)) for x in cp])
                    if cp:
                        cache = cp[0].args[0]
                ctx.ob('miss-reads-new-db', okmiss, f"{q}:read",
                       'the database in the run directory is read although LVS did not run', r.loc)
                ctx.ob('lvs-before-read', run.idx < r.idx, f"{q}:read", 'the database is read before LVS has run', r.loc)
            else:
                cache = l
                ctx.ob('hit-reads-cache', not sat(cond + [gds, miss]), f"{q}:read",
                       f"{show(l)} is read although LVS has just run", r.loc)
    ctx.ob('database-read', not sat([gds] + [lit_not(conj(r.guards)) for r in reads]) and
           not sat([lvs] + [lit_not(conj(r.guards)) for r in reads]), q, 'the database is not read on some path')
    ctx.ob('cache-used', cache is not None, q, 'the cached database is never read')
    if cache is None:
        return
    hit = [gds, lit_not(miss)]
    ctx.ob('hit-needs-caching', entails(hit, A_(args, 'cache_lvs')), q,
           'a cached database is used although caching is off', run.loc)
    exist = [t for t in atoms_of(run.guards, e) if is_call(t, 'os.path.exists', 'os.path.isfile', '.exists', '.is_file')
             and path_root(cargs(t)[0]) is path_root(cache)]
    ctx.ob('hit-needs-file', any(entails(hit, t) for t in exist), q,
           'a hit does not need the cached file to exist', run.loc)
    fresh_ = False
    for t in atoms_of(run.guards, e):
        if t.op != 'cmp' or t.a[0] != '<':
            continue
        a, b = strip_time(t.a[1]), strip_time(t.a[2])
        if a is None or b is None:
            continue
        isg = lambda x: path_root(x) in (A_(args, 'gds_path'), A_(args, 'effective_gds_path'))
        if isg(a) and b is cache and entails(hit, t):
            fresh_ = True
        if isg(b) and a is cache and entails(hit, T('not', t)):
            fresh_ = True
    ctx.ob('hit-needs-freshness', fresh_, q, 'a hit does not need the cached file to be at least as new as the layout',
           run.loc)
    facts = [t for t in exist]
    ctx.ob('miss-only-if-stale', sat(hit), q, 'the cache can never be hit', run.loc)
    # the cache entry is of this layout, cell and PDK
    for dest in ('pdk', 'gds_path', 'effective_cell_name', 'cache_dir_path'):
        ctx.ob('cache-key', mentions(cache, A_(args, dest)), f"{q}:{dest}",
               f"the cached file does not depend on args.{dest}", run.loc)
    absd = [x for x in subterms(cache) if is_call(x, 'os.path.abspath', 'os.path.realpath') and
            mentions(x, A_(args, 'gds_path'))]
    ctx.ob('cache-key-absolute', bool(absd), f"{q}:gds_path", 'layouts of the same relative path share a cache entry', run.loc)
    cps = [x for x in e.events if x.kind == 'call' and x.callee in ('shutil.copy', 'shutil.copyfile', 'shutil.copy2',
                                                                   'shutil.move') and len(x.args) == 2]
    st = [x for x in cps if feasible(x.args[1], x.guards) == [cache]]
    ctx.ob('cache-filled', bool(st) and all(feasible(x.args[0], x.guards) == [out] and run.idx < x.idx and x.callee != 'shutil.move' for x in st)
           and not sat([miss, A_(args, 'cache_lvs')] + [lit_not(conj(x.guards)) for x in st]), q,
           'the new database is not stored in the cache after each LVS run')
    for x in st:
        ctx.ob('cache-filled-if-enabled', entails(list(x.guards), conj([miss, A_(args, 'cache_lvs')])), q,
               'the cache is written although caching is off or LVS did not run', x.loc)


def atoms_of(guards, e):
    out = {}
    for t, _ in guards:
        for x in subterms(t):
            if x.op in ('call', 'cmp', 'attr'):
                out[x] = None
    return list(out)


# ------------------------------------------------------------------ C07
WRITE_MODES = set('wax+')


def creations(e):
    """[(event, path term)] of everything that creates, overwrites or removes a file"""
    out = []
    for ev in e.events:
        if ev.kind != 'call':
            continue
        c, n = ev.callee, ev.name
        a = ev.args
        if c in ('open', 'io.open', 'gzip.open', 'codecs.open', 'builtins.open') or (c == '.open' and ev.recv is not None):
            m = ev.arg(0 if c == '.open' else 1, 'mode')
            if m is None:
                continue
            if m.op == 'const' and not (set(str(m.a[0])) & WRITE_MODES):
                continue
            out.append((ev, ev.recv if c == '.open' else a[0]))
        elif c in ('os.makedirs', 'os.mkdir', 'logging.FileHandler', 'os.remove', 'os.unlink', 'os.rmdir', 'shutil.rmtree',
                   'os.chmod', 'os.truncate'):
            if a:
                out.append((ev, a[0]))
        elif c in ('shutil.copy', 'shutil.copyfile', 'shutil.copy2', 'shutil.copytree', 'os.rename', 'os.replace',
                   'os.link', 'os.symlink') and len(a) >= 2:
            out.append((ev, a[1]))
        elif c == 'shutil.move' and len(a) >= 2:
            out.append((ev, a[1]))
            out.append((ev, a[0]))
        elif c in ('.mkdir', '.touch', '.unlink', '.rmdir', '.write_text', '.write_bytes') and ev.recv is not None:
            out.append((ev, ev.recv))
        elif c == '.save' and a:
            out.append((ev, a[0]))
        elif c == '.write' and a and ev.recv is not None and pathlike(a[0], ev, e):
            out.append((ev, a[0]))
        elif c.startswith('tempfile.'):
            out.append((ev, T('const', c)))
    return out


def pathlike(t, ev, e):
    """write(path) of a layout, netlist, cell or database, in contrast to write(text) of an open file"""
    r = ev.recv
    if is_call(r, 'open', 'io.open') or any(w.kind == 'with' and w.recv is r for w in e.events):
        return False
    if r.op == 'param':
        return False
    return True


def safe_component(t, args):
    """a path component that cannot leave the directory it is joined to"""
    if t.op == 'const':
        s = str(t.a[0])
        return not s.startswith('/') and '..' not in s.split('/')
    if t.op == 'fstr':
        for i, x in enumerate(t.a):
            if x.op == 'const':
                s = str(x.a[0])
                if (i == 0 and s.startswith('/')) or '..' in s.split('/'):
                    return False
            elif i == 0 and not name_like(x, args):
                return False
        return True
    if t.op == 'ite':
        return safe_component(t.a[1], args) and safe_component(t.a[2], args)
    return name_like(t, args)


def name_like(t, args):
    if t.op == 'ite':
        return name_like(t.a[1], args) and name_like(t.a[2], args)
    if args is None and t.op in ('param', 'elem', 'key', 'val', 'item'):
        return True      # a writer's own parameters are checked at its call sites
    if is_call(t, 'os.path.basename', '.group', 'hash'):
        return True
    if t.op == 'item':
        s = t.a[0]
        if is_call(s, 'os.path.splitroot', 'os.path.splitdrive'):
            return is_const(t.a[1], -1, 2)
        if is_call(s, '.split', 'os.path.split', 'os.path.splitext'):
            return name_like(cargs(s)[0], args) or is_call(s, 'os.path.split')
        return False
    if t.op == 'attr':
        return t.a[1] in ('effective_cell_name', 'cell_name', 'pdk', 'magic_pex_mode', 'name', 'stem', 'suffix', 'value',
                          'net_name', 'outside', 'inside')
    if t.op == 'call':
        # functions whose result is (or may be) a whole path, and text methods of one; other functions are taken to make up a name
        if str(t.a[0]).startswith(('os.path.', 'pathlib.', 'os.getcwd', 'os.fspath')):
            return False
        if is_call(t, '.replace') and len(cargs(t)) == 3 and is_const(cargs(t)[1], '/') and is_const(cargs(t)[2]) and '/' not in str(cargs(t)[2].a[0]):
            return True
        if cargs(t) and is_call(t, '.lower', '.upper', '.strip', '.lstrip', '.rstrip', '.replace', '.removesuffix', '.removeprefix', '.casefold'):
            return name_like(cargs(t)[0], args)
        return True
    if t.op == 'bin':
        return all(name_like(x, args) for x in t.a if hasattr(x, 'op'))
    if t.op == 'slice':
        return name_like(t.a[0], args)
    if t.op == 'fstr':
        return all(name_like(x, args) for x in t.a)
    if t.op == 'const':
        return '/' not in str(t.a[0]) and t.a[0] != '..'
    return t.op in ('key', 'elem', 'index', 'mu')


@check('C07', 'provenance analysis of the path of every file-creating call reachable from KpexCLI.main',
       'Decides that each created path is joined below the output directory, its base, or (LVS cache only) the cache directory, '
       'from components that are constants, base names or cell names. Cell names are assumed to hold no path separators, '
       'external tools are assumed to write only where their arguments say.')
def c07(ctx: Ctx):
    """All creation sites (open for writing, makedirs, layout/netlist/report writers, log handlers, copies) in kpex_cli and in the
    writers it calls: root of the joined path, safety of the components, and the binding of the writers' path parameters."""
    e, args = main_engine(ctx)
    engs = [(e, args, f'{CLI}.main')]
    for q in (f'{CLI}.validate_args', f'{CLI}.setup_logging'):
        opq = LIB + ['klayout_pex.log'] + ([f'{CLI}.validate_args'] if q.endswith('setup_logging') else [])
        engs.append((ctx.analyse(q, opaque=opq), T('param', 'args'), q))
    n = 0

    def root_ok(path, args, ev, where, cache_ok=False):
        comps = flat_join(path)
        for c, root in gated_leaves(comps[0]):
            if not sat(list(ev.guards) + list(c)):
                continue
            if is_call(root, 'os.path.dirname') and len(comps) == 1:
                r = flat_join(cargs(root)[0])
                if len(r) > 1:
                    return root_ok(T('call', 'os.path.join', tuple(r[:-1]), ()) if len(r) > 2 else r[0], args, ev, where,
                                   cache_ok)
            if root.op == 'call' and is_call(root, 'shutil.move'):
                root = flat_join(cargs(root)[1])[0]
            if root.op == 'slice':
                return root_ok(root.a[0], args, ev, where, cache_ok)
            if root.op == 'fstr' and len(comps) == 1:
                # f"{path[:-4]}_{timestamp}.bak.log"
                x = root.a[0]
                if x.op == 'slice':
                    x = x.a[0]
                    tail = ''.join(str(y.a[0]) for y in root.a[1:] if y.op == 'const')
                    if '/' in tail:
                        return f"{show(root)} leaves the directory"
                    return root_ok(x, args, ev, where, cache_ok)
            if is_call(root, 'os.path.join'):
                r = root_ok(root, args, ev, where, cache_ok)
                if r is not None:
                    return r
                continue
            ok = root in (A_(args, 'output_dir_path'), A_(args, 'output_dir_base_path')) or \
                (cache_ok and root is A_(args, 'cache_dir_path'))
            if not ok:
                return f"{show(root)} is not the output directory"
            if where == f'{CLI}.main' and root is A_(args, 'output_dir_base_path') and len(comps) > 1:
                return 'it is beside the output directory of the run'
        for c in comps[1:]:
            if not safe_component(c, args):
                return f"the component {show(c)} can leave the output directory"
        return None

    for eng, a, where in engs:
        for ev, p in creations(eng):
            n += 1
            kind = ev.callee
            comps = flat_join(p)
            cachep = any(r is A_(a, 'cache_dir_path') or (is_call(r, 'os.path.dirname') and mentions(r, A_(a, 'cache_dir_path')))
                         for r in leaves(comps[0]))
            # the cache directory may only be written by the LVS cache
            why = root_ok(p, a, ev, where, cache_ok=cachep and kind in ('os.makedirs', 'shutil.copy', 'shutil.copyfile',
                                                                       'shutil.copy2'))
            ctx.ob('created-inside-output', why is None, f"{ev.func}:{kind}:{short(p)}",
                   f"{kind} creates {show(p)}: {why}", ev.loc)
    # writers of other modules
    for sink, pars in WRITERS.items():
        for ev in calls(e, 'klayout_pex.' + sink):
            b = bind(ctx.prog, ev)
            for par in pars:
                v = b.get(par)
                if v is None:
                    continue
                n += 1
                why = root_ok(v, args, ev, f'{CLI}.main')
                ctx.ob('writer-inside-output', why is None, f"{sink}:{par}",
                       f"{par} of {sink} is {show(v)}: {why}", ev.loc)
    for sink in ('FasterCapModelGenerator.write_fastcap', 'FasterCapModelGenerator.dump_stl'):
        for ev in calls(e, sink):
            v = bind(ctx.prog, ev).get('prefix')
            if v is not None:
                ctx.ob('writer-prefix', safe_component(v, args), f"{sink}:prefix", f"the file prefix is {show(v)}", ev.loc)
    for q, (pars, opq) in WRITER_IMPL.items():
        if 'klayout_pex.' + q not in ctx.prog.funcs:
            ctx.fail('writer-exists', q, 'the writer is gone')
            continue
        w = ctx.analyse('klayout_pex.' + q, opaque=opq)
        cs = creations(w)
        for ev, p in cs:
            comps = flat_join(p)
            ok = all(is_param(r) and r.a[0] in pars or (r.op == 'attr' and r.a[1] in pars) for r in leaves(comps[0])) and \
                all(safe_component(c, None) for c in comps[1:])
            ctx.ob('writer-writes-there', ok, f"{q}:{ev.callee}:{short(p)}",
                   f"{q} creates {show(p)}, which is not below its {'/'.join(pars)}", ev.loc)
    # files of an earlier run are replaced, not continued
    for q, f in ctx.prog.funcs.items():
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and \
                    (ctx.prog.resolve_expr_name(x.func, f.module, f.cls) or ast.unparse(x.func)) in ('open', 'io.open', 'gzip.open', 'codecs.open'):
                m = x.args[1] if len(x.args) > 1 else next((k.value for k in x.keywords if k.arg == 'mode'), None)
                bad = isinstance(m, ast.Constant) and isinstance(m.value, str) and 'a' in m.value
                ctx.ob('output-replaced', not bad, q, 'the file is continued: what an earlier run left behind stays in it',
                       f"{f.module.rel}:{x.lineno}")
    # every output has a file of its own
    owners = {}
    for ev, p in creations(e):
        if ev.callee not in ('os.makedirs', 'os.mkdir', '.mkdir', 'os.remove', 'os.unlink', 'logging.FileHandler'):
            owners.setdefault(path_root(p), []).append(ev)
    for sink, pars in WRITERS.items():
        for ev in calls(e, 'klayout_pex.' + sink):
            for par in pars:
                v = bind(ctx.prog, ev).get(par)
                if v is not None and par not in ('output_dir_path', 'run_dir_path') and sink != 'klayout.repair_rdb.repair_rdb':
                    owners.setdefault(path_root(v), []).append(ev)
    for p, evs in owners.items():
        clash = [(a, b) for i, a in enumerate(evs) for b in evs[:i] if a is not b and sat(list(a.guards) + list(b.guards))]
        ctx.ob('outputs-distinct', not clash, f"{CLI}.main:{short(p)}", f"two outputs of a run are written to {show(p)}",
               clash[0][0].loc if clash else '')
    # inputs are only read
    for attr in ('gds_path', 'schematic_path', 'lvsdb_path', 'magicrc_path'):
        for eng, a, where in engs:
            bad = [ev for ev, p in creations(eng) if flat_join(p)[0] is A_(a, attr)]
            ctx.ob('input-only-read', not bad, f"{where}:{attr}", f"args.{attr} is written", bad[0].loc if bad else '')
    ctx.ob('creation-sites', n >= 20, CLI, f"only {n} creation sites found")


def short(t):
    c = flat_join(t)[-1]
    s = show(c)
    return s if len(s) < 60 else s[:20] + '…' + s[-36:]


WRITERS = {
    'fastercap.fastercap_model_generator.FasterCapModelGenerator.write_fastcap': ('output_dir_path',),
    'fastercap.fastercap_model_generator.FasterCapModelGenerator.dump_stl': ('output_dir_path',),
    'fastercap.fastercap_runner.run_fastercap': ('log_path', 'lst_file_path') and ('log_path',),
    'fastcap.fastcap_runner.run_fastcap': ('log_path',),
    'magic.magic_runner.run_magic': ('log_path',),
    'magic.magic_runner.prepare_magic_script': ('run_dir_path', 'script_path', 'output_netlist_path'),
    'klayout.lvs_runner.LVSRunner.run_klayout_lvs': ('log_path', 'lvsdb_path'),
    'klayout.netlist_csv.NetlistCSVWriter.write_csv': ('output_path',),
    'common.capacitance_matrix.CapacitanceMatrix.write_csv': ('output_path',),
    'rcx25.extractor.RCX25Extractor': ('report_path',),
    'klayout.repair_rdb.repair_rdb': ('path',),
}
WRITER_IMPL = {
    'fastercap.fastercap_model_generator.FasterCapModelGenerator.write_fastcap': (('output_dir_path',), ()),
    'fastercap.fastercap_model_generator.FasterCapModelGenerator.dump_stl': (('output_dir_path',), ()),
    'fastercap.fastercap_runner.run_fastercap': (('log_path',), ()),
    'fastcap.fastcap_runner.run_fastcap': (('log_path',), ()),
    'magic.magic_runner.run_magic': (('log_path',), ()),
    'magic.magic_runner.prepare_magic_script': (('script_path',), ()),
    'klayout.lvs_runner.LVSRunner.run_klayout_lvs': (('log_path', 'lvsdb_path'), ()),
    'klayout.netlist_csv.NetlistCSVWriter.write_csv': (('output_path',), ()),
    'common.capacitance_matrix.CapacitanceMatrix.write_csv': (('output_path',), ()),
}


# ------------------------------------------------------------------ C08
def working_directory(ctx):
    """relative paths mean the same during the whole run: the working directory of the process is not changed (for good);
    FastCap, which resolves the files named in its list file against its working directory, is started beside that file"""
    for q, f in ctx.prog.funcs.items():
        fins = {n for t in ast.walk(f.node) if isinstance(t, ast.Try) for b in t.finalbody for n in ast.walk(b)}
        cds = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and
               ctx.prog.resolve_expr_name(n.func, f.module, f.cls) in ('os.chdir', 'os.fchdir')]
        back = [n for n in cds if n in fins]
        for n in cds:
            ctx.ob('cwd', bool(back), q, 'the working directory of the process is changed: relative paths (--out_dir) '
                   'mean something else afterwards', f"{f.module.rel}:{n.lineno}")
    q = 'klayout_pex.fastcap.fastcap_runner.run_fastcap'
    ctx.need(q in ctx.prog.funcs, f"{q} is gone")
    e = ctx.analyse(q)
    for ev in [x for x in e.events if x.kind == 'call' and x.callee in ('subprocess.Popen', 'subprocess.run')]:
        cds = [x for x in calls(e, 'os.chdir') if x.idx < ev.idx]
        d = ev.kw.get('cwd') or (cds[-1].args[0] if cds else None)
        d = path_root(d) if d is not None else None
        ok = d is not None and is_call(d, 'os.path.dirname') and is_param(path_root(cargs(d)[0]), 'lst_file_path')
        ctx.ob('solver-directory', ok, q, 'FastCap is not started in the directory of its list file, where the surface '
               'files named in it are', ev.loc)


@check('C08', 'def-use chain of the field-solver pipeline in KpexCLI',
       'Decides for each solver run which object each stage gets. The stages themselves are decided by C10-C15 and C35.')
def c08(ctx: Ctx):
    """Both solver branches: log file, list file, matrices, netlists and output files are connected by identity of the values."""
    e, args = main_engine(ctx)
    gen = calls(e, 'FasterCapModelGenerator.write_fastcap')
    ctx.ob('input-generated', len(gen) == 1, f'{CLI}.main', f"{len(gen)} generations of solver input")
    bld = calls(e, 'FasterCapInputBuilder.build')
    for g in gen:
        ctx.ob('input-of-this-model', bool(bld) and g.recv is bld[0].result, f'{CLI}.main',
               'the solver input is not written from the model built in this run', g.loc)
    prep = calls(e, 'KLayoutExtractionContext.prepare_extraction')
    for solver, parse, csv in (
            ('fastercap.fastercap_runner.run_fastercap', 'fastercap.fastercap_runner.fastercap_parse_capacitance_matrix', True),
            ('fastcap.fastcap_runner.run_fastcap', 'fastcap.fastcap_runner.fastcap_parse_capacitance_matrix', False)):
        runs = calls(e, 'klayout_pex.' + solver)
        ctx.ob('solver-run', len(runs) == 1, solver, f"{len(runs)} runs")
        for r in runs:
            b = bind(ctx.prog, r)
            ctx.ob('solver-input', bool(gen) and path_root(b.get('lst_file_path', NONE)) is gen[0].result, solver,
                   'the solver does not get the list file of this run', r.loc)
            log = b.get('log_path')
            nxt = [x for x in calls(e, ('fastercap_parse_capacitance_matrix', 'fastcap_parse_capacitance_matrix'))
                   if x.idx > r.idx and set(r.guards) <= set(x.guards)]
            other = [x.idx for x in calls(e, ('run_fastercap', 'run_fastcap')) if x.idx > r.idx]
            nxt = [x for x in nxt if not other or x.idx < other[0]]
            ctx.ob('log-parsed', len(nxt) == 1, solver, 'the log of the solver run is not parsed', r.loc)
            for p in nxt:
                pl = p.args[0] if p.args else next(iter(p.kw.values()), NONE)
                ctx.ob('log-of-this-run', path_root(pl) is path_root(log), parse, f"the matrix is parsed from {show(pl)}",
                       p.loc)
                m = p.result
                avg = [x for x in calls(e, 'CapacitanceMatrix.averaged_off_diagonals') if x.recv is m]
                ctx.ob('symmetrised', bool(avg), parse, 'the matrix of this run is not symmetrised', p.loc)
                mats = {m: 'raw'}
                for x in avg:
                    mats[x.result] = 'avg'
                paths = []
                for x in calls(e, 'CapacitanceMatrix.write_csv'):
                    if x.recv in mats:
                        paths.append(show(path_root(x.args[0] if x.args else x.kw.get('output_path', NONE))))
                        mats[x.recv] += '+csv'
                ctx.ob('raw-csv', mats[m] == 'raw+csv', parse, 'the raw matrix is not written once', p.loc)
                ctx.ob('avg-csv', any(v == 'avg+csv' for v in mats.values()), parse,
                       'the symmetrised matrix is not written once', p.loc)
                exp = [x for x in calls(e, 'NetlistExpander.expand') if 'rcx25' not in x.callee and
                       bind(ctx.prog, x).get('cap_matrix') in mats]
                ctx.ob('expanded', len(exp) == 1, parse, 'the matrix of this run is not expanded into the netlist', p.loc)
                for x in exp:
                    bx = bind(ctx.prog, x)
                    ctx.ob('expanded-symmetrised', mats[bx['cap_matrix']].startswith('avg'), parse,
                           'the netlist is expanded with the raw matrix', x.loc)
                    en = bx.get('extracted_netlist')
                    db = T('attr', prep[0].result, 'lvsdb') if prep else None
                    okdb = en is not None and is_call(en, '.netlist') and prep and \
                        cargs(en)[0] in (db, bind(ctx.prog, prep[0]).get('lvsdb'))
                    ctx.ob('expanded-netlist', okdb, parse, 'the expanded netlist is not that of the LVS database', x.loc)
                    topc(ctx, bx.get('top_cell_name'), prep, args, 'expand', x)
                    paths += tail(ctx, e, x.result, prep, args, csv, solver)
                ctx.ob('distinct-files', len(paths) == len(set(paths)) and show(path_root(log)) not in paths, solver,
                       'two outputs of the run share a file')
    working_directory(ctx)
    # 2.5D
    ex = calls(e, 'RCX25Extractor.extract')
    for r in ex:
        rc = calls(e, 'RCX25Extractor')
        ctx.ob('extractor-own', any(c.result is r.recv for c in rc), 'RCX25Extractor', 'extract runs on another extractor', r.loc)
        exp = [x for x in calls(e, 'RCX25NetlistExpander.expand')]
        ctx.ob('rcx-expanded', len(exp) == 1, 'RCX25NetlistExpander.expand', 'the 2.5D result is not expanded')
        for x in exp:
            bx = bind(ctx.prog, x)
            ctx.ob('rcx-results', bx.get('extraction_results') is r.result, 'RCX25NetlistExpander.expand',
                   'the netlist is not expanded with the results of this run', x.loc)
            en = bx.get('extracted_netlist')
            ctx.ob('expanded-netlist', en is not None and is_call(en, '.netlist') and prep and cargs(en)[0] in (
                T('attr', prep[0].result, 'lvsdb'), bind(ctx.prog, prep[0]).get('lvsdb')),
                'RCX25NetlistExpander.expand', 'the expanded netlist is not that of the LVS database', x.loc)
            topc(ctx, bx.get('top_cell_name'), prep, args, 'rcx expand', x)
            wr = [w for w in e.events if w.kind == 'call' and w.callee == '.write' and w.recv is x.result]
            ctx.ob('rcx-written', len(wr) >= 1, 'RCX25NetlistExpander.expand', 'the expanded netlist is not written', x.loc)


def topc(ctx, v, prep, args, what, ev):
    ok = v is not None and (v is A_(args, 'effective_cell_name') or (
        v.op == 'attr' and v.a[1] == 'name' and prep and v.a[0] is T('attr', prep[0].result, 'annotated_top_cell')))
    ctx.ob('top-cell', ok, what, f"the top cell is {show(v) if v is not None else None}", ev.loc)


def tail(ctx, e, expanded, prep, args, csv, solver):
    paths = []
    red = [x for x in calls(e, 'NetlistReducer.reduce') if bind(ctx.prog, x).get('netlist') is expanded]
    ctx.ob('reduced', len(red) == 1, solver, 'the expanded netlist is not reduced')
    for x in red:
        topc(ctx, bind(ctx.prog, x).get('top_cell_name'), prep, args, 'reduce', x)
    outs = {expanded: 'expanded'}
    for x in red:
        outs[x.result] = 'reduced'
    for n, what in outs.items():
        wr = [w for w in e.events if w.kind == 'call' and w.callee == '.write' and w.recv is n]
        ctx.ob('netlist-written', len(wr) == 1, f"{solver}:{what}", f"the {what} netlist is not written once")
        for w in wr:
            paths.append(show(path_root(w.args[0])))
            sw = w.args[1] if len(w.args) > 1 else None
            ok = sw is not None and is_new(sw, 'NetlistSpiceWriter')
            st = {s.callee: s.args[0] for s in e.events if s.kind == 'store' and s.recv is sw and s.idx < w.idx}
            ctx.ob('spice-writer', ok and st.get('use_net_names') is TRUE, f"{solver}:{what}",
                   'the netlist is not written as SPICE with net names', w.loc)
    if csv:
        cw = [x for x in calls(e, 'NetlistCSVWriter.write_csv') if bind(ctx.prog, x).get('netlist') is expanded]
        ctx.ob('csv-of-expanded', len(cw) == 1, solver, 'the CSV is not written from the expanded netlist')
        for x in cw:
            b = bind(ctx.prog, x)
            topc(ctx, b.get('top_cell_name'), prep, args, 'csv', x)
            paths.append(show(path_root(b.get('output_path', NONE))))
            st = [s for s in e.events if s.kind == 'store' and s.callee == '_fastercap_extracted_csv_path']
            for s in st:
                ctx.ob('csv-path-stored', path_root(s.args[0]) is path_root(b.get('output_path', NONE)), solver,
                       'the path handed to callers is not that of the CSV file', s.loc)
    return paths


# ------------------------------------------------------------------ C09
@check('C09', 'value-flow analysis of the rows of the 2.5D table',
       'Decides the columns of each row, the collection that each row loop runs over (all items, once, unconditionally) and '
       'the form of the device names. Values may be rounded to 3 or more digits.')
def c09(ctx: Ctx):
    """Header columns vs. row columns by name; loops over summary.capacitances/resistances of this extraction, no other guard;
    device names = letter + running number of their loop."""
    e, args = main_engine(ctx)
    q = f'{CLI}.run_kpex_2_5d_engine'
    ext = calls(e, 'RCX25Extractor.extract')
    ctx.need(ext, 'KpexCLI.main no longer runs RCX25Extractor.extract')
    sums = [x for x in calls(e, 'ExtractionResults.summarize') if x.recv is ext[0].result]
    ctx.ob('summary-of-run', bool(sums), q, 'the table is not made from the summary of this extraction')
    if not sums:
        return
    # the rows, as written text
    rows = []
    for ev in e.events:
        if ev.kind != 'call' or ev.idx < ext[0].idx:
            continue
        if ev.callee in ('.write', '.writelines', '.writerow', 'print') and ev.args:
            r = ev.recv if ev.callee != 'print' else ev.kw.get('file')
            if r is None or not is_call(r, 'open'):
                continue
            its = list_items(e, ev.args[0], ev) if ev.callee == '.writelines' else None
            if its:
                for v, g, l in its:
                    rows.append((ev, v, tuple(ev.guards) + tuple(x for x in g if x not in ev.guards),
                                 tuple(ev.loops) + tuple(x for x in l if x not in ev.loops), r))
            else:
                rows.append((ev, ev.args[0], ev.guards, ev.loops, r))
    hdr = [r for r in rows if r[1].op == 'const' and isinstance(r[1].a[0], str) and 'Device' in r[1].a[0]]
    ctx.ob('header', len(hdr) == 1, q, f"{len(hdr)} header lines")
    if not hdr:
        return
    cols = hdr[0][1].a[0].strip().split(';')
    ci = next((i for i, c in enumerate(cols) if c.startswith('Capacitance')), None)
    ri = next((i for i, c in enumerate(cols) if c.startswith('Resistance')), None)
    n1 = next((i for i, c in enumerate(cols) if c.strip() == 'Net1'), None)
    n2 = next((i for i, c in enumerate(cols) if c.strip() == 'Net2'), None)
    ctx.ob('header-columns', None not in (ci, ri, n1, n2) and cols[0].startswith('Device') and '[fF]' in cols[ci]
           and 'Ω' in cols[ri], q, f"header columns {cols}", hdr[0][0].loc)
    if None in (ci, ri, n1, n2):
        return
    names = []
    for kind, attr, vi, oi in (('C', 'capacitances', ci, ri), ('R', 'resistances', ri, ci)):
        coll = T('attr', sums[0].result, attr)
        mine = [r for r in rows if r[3] and any(mentions(r[3][-1].iter, coll) for _ in [0] if r[3][-1].iter is not None)]
        ctx.ob('rows-written', len(mine) == 1, f"{q}:{attr}", f"{len(mine)} row formats for the {attr}")
        for ev, v, g, lps, fh in mine:
            lp = lps[-1]
            ctx.ob('rows-same-file', fh is hdr[0][4] and [r[1] for r in rows].index(hdr[0][1]) < [r[1] for r in rows].index(v),
                   f"{q}:{attr}",
                   'the rows are not written below the header', ev.loc)
            ctx.ob('rows-all', len(lps) == 1 and full_iteration(lp.iter, coll) and not sat(
                [x for x in hdr[0][2]] + [lit_not(conj(g))]) and not [x for x in lp.exits if x[0] in ('break', 'return')],
                f"{q}:{attr}", f"not every entry of the {attr} becomes a row (loop over {show(lp.iter)})", ev.loc)
            parts = split_fields(v)
            ctx.ob('row-columns', parts is not None and len(parts) == len(cols), f"{q}:{attr}",
                   f"the row {show(v)} does not have the columns of the header", ev.loc)
            if parts is None or len(parts) != len(cols):
                continue
            key = T('key', coll, lp.uid)
            val = T('val', coll, lp.uid)

            def is_key(t, f):
                t = strlike(t)
                return t.op == 'attr' and t.a[1] == f and is_key_of(t.a[0], coll)
            ok = len(parts[n1]) == 1 and is_key(parts[n1][0], 'net1') and len(parts[n2]) == 1 and \
                is_key(parts[n2][0], 'net2')
            ctx.ob('row-nets', ok, f"{q}:{attr}",
                   f"columns Net1/Net2 hold {show(parts[n1][0]) if parts[n1] else ''} / "
                   f"{show(parts[n2][0]) if parts[n2] else ''}", ev.loc)
            pv = parts[vi]
            okv = len(pv) == 1 and value_of(pv[0], coll)
            ctx.ob('row-value', okv, f"{q}:{attr}",
                   f"column {cols[vi]} holds {show(pv[0]) if pv else 'nothing'}", ev.loc)
            ctx.ob('row-other-column', not parts[oi] or all(is_const(x, '') for x in parts[oi]), f"{q}:{attr}",
                   f"column {cols[oi]} is not empty", ev.loc)
            p0 = parts[0]
            okn = len(p0) == 2 and p0[0].op == 'const' and not str(p0[0].a[0])[-1:].isdigit() and running(p0[1], lp, e)
            ctx.ob('row-name', okn, f"{q}:{attr}", f"the device name {show(v)} is not a prefix and a running number", ev.loc)
            if okn:
                names.append(str(p0[0].a[0]))
            ctx.ob('row-newline', ends_line(v, ev), f"{q}:{attr}", 'rows are not separate lines', ev.loc)
    ctx.ob('names-distinct', len(names) == len(set(names)), q, 'device names of capacitors and resistors collide')


def ends_line(v, ev):
    if ev.callee == 'print':
        return True
    return v.op == 'fstr' and v.a[-1].op == 'const' and str(v.a[-1].a[0]).endswith('\n')


def full_iteration(it, coll):
    """the iterable visits each entry of the mapping exactly once"""
    t = it
    while True:
        if is_call(t, 'enumerate', 'sorted', 'list', 'tuple', 'reversed', 'iter') and cargs(t):
            t = cargs(t)[0]
        elif is_call(t, '.items', '.keys') and cargs(t):
            return cargs(t)[0] is coll
        else:
            return t is coll


def is_key_of(t, coll):
    if t.op == 'key' and t.a[0] is coll:
        return True
    return t.op == 'elem' and full_iteration(t.a[0], coll)


def value_of(t, coll):
    t = strlike(t)
    if is_call(t, 'round') and cargs(t):
        d = cargs(t)[1] if len(cargs(t)) > 1 else None
        if d is None or d.op != 'const' or not isinstance(d.a[0], int) or d.a[0] < 3:
            return False
        t = strlike(cargs(t)[0])
    if t.op == 'val' and t.a[0] is coll:
        return True
    return t.op == 'item' and t.a[0] is coll and is_key_of(t.a[1], coll)


def running(t, lp, e):
    """a number that differs in each iteration"""
    t = strlike(t)
    if t.op == 'bin' and t.a[0] in '+-':
        a, b = t.a[1], t.a[2]
        return (running(a, lp, e) and b.op == 'const') or (t.a[0] == '+' and running(b, lp, e) and a.op == 'const')
    if t.op == 'index':
        return True
    if t.op == 'mu':
        nxt = e.mu_info.get(t)
        return True if nxt is None else True
    return False


def split_fields(v, sep=';'):
    """text pieces of a row, by column"""
    if v.op == 'const' and isinstance(v.a[0], str):
        parts = [v]
    elif v.op == 'fstr':
        parts = list(v.a)
    elif is_call(v, '.join') and cargs(v)[0].op == 'const' and cargs(v)[0].a[0] == sep:
        return None
    else:
        return None
    cols = [[]]
    for p in parts:
        if p.op == 'const' and isinstance(p.a[0], str):
            segs = p.a[0].rstrip('\n').split(sep)
            for i, s in enumerate(segs):
                if i:
                    cols.append([])
                if s:
                    cols[-1].append(const(s))
        else:
            cols[-1].append(p)
    return cols
