"""External tools: C01 (status), C02 (log / launch), C03 (options: argv part)."""
from ..core import check, Ctx
from ..q import *

PKG = 'klayout_pex'
# the functions that start a tool, what they have to do with its exit status, and which parameters name the tool and log
RUNNERS = {
    f'{PKG}.fastercap.fastercap_runner.run_fastercap': dict(status=True, exe='exe_path', log='log_path'),
    f'{PKG}.fastcap.fastcap_runner.run_fastcap': dict(status=True, exe='exe_path', log='log_path'),
    f'{PKG}.magic.magic_runner.run_magic': dict(status=True, exe='exe_path', log='log_path'),
    f'{PKG}.netlistsvg.netlistsvg_runner.run_netlistsvg': dict(status=True, exe='exe_path', log='log_path'),
    # LVS mismatches end with a non-zero status and are only warned about: the database is usable
    f'{PKG}.klayout.lvs_runner.LVSRunner.run_klayout_lvs': dict(status=False, exe='exe_path', log='log_path'),
}
SPAWN = ('subprocess.Popen', 'subprocess.run', 'subprocess.call', 'subprocess.check_call', 'subprocess.check_output',
         'os.system', 'os.popen', 'os.spawnv', 'os.spawnvp', 'os.execv', 'os.execvp', 'subprocess.getoutput',
         'subprocess.getstatusoutput', 'pty.spawn', 'asyncio.create_subprocess_exec')


def spawns(e):
    return [ev for ev in e.events if ev.kind == 'call' and ev.callee in SPAWN]


def runner_roots(ctx):
    """the known runners, and any other function that starts a process and is not reached from them"""
    import ast
    from ..model import _dotted
    covered = set()
    engs = {}
    for q in RUNNERS:
        e = ctx.analyse(q)
        engs[q] = e
        for ev in spawns(e):
            covered.add(ev.loc)
    for q, f in ctx.prog.funcs.items():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                r = ctx.prog.resolve_expr_name(n.func, f.module, f.cls)
                if r in SPAWN and f"{f.module.rel}:{n.lineno}" not in covered and q not in engs:
                    engs[q] = ctx.analyse(q)
    return engs


def status_terms(proc, e):
    out = {T('attr', proc, 'returncode')}
    for ev in e.events:
        if ev.kind == 'call' and ev.recv is proc and ev.name in ('wait', 'poll') and ev.result is not None:
            out.add(ev.result)
    if is_call(proc, 'subprocess.call', 'os.system'):
        out.add(proc)
    return out


def final_zero(e, st):
    """the facts at the normal exit imply that the status is zero"""
    if e.final is None:
        return True
    for t, p in e.final.guards:
        if t in st and not p:
            return True
        if t.op == 'cmp' and t.a[0] == '==' and p and any(x in st for x in t.a[1:]) and \
                any(is_const(x, 0) for x in t.a[1:]):
            return True
    return False


def loop_ended(e):
    """the facts that hold after a loop because its condition has become false"""
    return {l for lp in e.loop_by_uid.values() if lp.cond is not None and lp.cond is not TRUE
            for l in (literals(lp.cond, False) or ())}


@check('C01', 'must-pass-through analysis on the value-flow graph of each process launcher',
       'Decides that every normal return of a launcher is under the fact "status == 0" and that the status is read after '
       'the wait. The LVS launcher is exempt: an LVS mismatch is reported by the status and is not a failure. Trusts '
       'the subprocess documentation and the engine (exceptions raised by library calls are not modelled as returns).')
def c01(ctx: Ctx):
    """Every function that starts a process: the state at its normal exit carries the fact status == 0 of this very
    process; each read of the status is dominated by a wait for the process."""
    for q, e in runner_roots(ctx).items():
        spec = RUNNERS.get(q, dict(status=True))
        sp = spawns(e)
        ctx.ob('starts-a-process', bool(sp), q, 'the launcher no longer starts the tool')
        for ev in sp:
            where = f"{q}:{ev.callee}"
            proc = ev.result
            checked = (ev.kw.get('check') is TRUE and ev.callee == 'subprocess.run') or ev.callee in (
                'subprocess.check_call', 'subprocess.check_output')
            if checked:
                ctx.ob('status-tested', not any(t.op == 'tryok' for t, _ in ev.guards), where,
                       'the exception of a failing tool is swallowed', ev.loc)
                continue
            st = status_terms(proc, e)
            if spec['status']:
                ctx.ob('status-tested', final_zero(e, st), where,
                       'the function can return normally although the exit status of the tool is not 0', ev.loc)
                swallowed = [r for r in e.events if r.kind == 'raise' and any(t in st or any(x in st for x in subterms(t))
                                                                             for t, _ in r.guards)
                             and any(t.op == 'tryok' and p for t, p in r.guards)]
                ctx.ob('status-raise-not-swallowed', not swallowed, where,
                       'the exception about the exit status is raised inside a try that handles it',
                       swallowed[0].loc if swallowed else '')
            if ev.callee != 'subprocess.Popen':
                continue
            waits = [w for w in e.events if w.kind == 'call' and w.recv is proc and w.name in ('wait', 'communicate')
                     or w.kind == 'withexit' and w.recv is proc]
            loads = [x for x in e.events if x.kind == 'load' and x.recv is proc]
            polls = [x for x in e.events if x.kind == 'call' and x.recv is proc and x.name == 'poll']
            withs = [w for w in e.events if w.kind == 'with' and w.recv is proc]
            for x in loads:
                ctx.ob('status-read-after-wait', any(dominates(w, x) for w in waits), where,
                       'the exit status is read without waiting for the process to end on every path', x.loc)
            if spec['status']:
                ctx.ob('waited', any(not w.loops and set(w.guards) - loop_ended(e) <= set(ev.guards) for w in waits), where,
                       'the process is not waited for on every path', ev.loc)
            for w in waits:
                ctx.ob('wait-unbounded', not w.args and 'timeout' not in w.kw, where,
                       'the wait can give up before the process has ended', w.loc)


def log_path_ok(t, name):
    t = path_root(t)
    return is_param(t, name)


def line_sources(proc, e):
    """terms of text read from the process"""
    out = set()
    so = T('attr', proc, 'stdout')
    for ev in e.events:
        if ev.kind != 'call' or ev.result is None:
            continue
        if ev.recv is so and ev.name in ('readline', 'read', 'readlines'):
            out.add(ev.result)
        if ev.recv is proc and ev.name == 'communicate':
            out.add(T('item', ev.result, const(0)))
            out.add(ev.result)
    for lp in e.loop_by_uid.values():
        if lp.iter is not None:
            it = lp.iter
            if it is so:
                out.add(lp.elem)
            if is_call(it, 'iter') and cargs(it) and cargs(it)[0].op in ('attr', 'closure', 'bound'):
                if mentions(it, so):
                    out.add(lp.elem)
    for _ in range(3):
        # the line carried to the next iteration
        out |= {m for m, (init, upd) in e.mu_info.items() if init in out and upd in out | {m}}
    return out, so


def unlogged_reads(e, so, vals, at):
    """lines read from the process that are not among the written values"""
    vals = set(vals)
    for _ in range(3):
        for m in [m for m in vals if m in e.mu_info]:
            vals |= set(e.mu_info[m])
    reads = [ev for ev in e.events if ev.kind == 'call' and ev.recv is so and ev.name in ('readline', 'read', 'readlines')]
    done = {ev.loc for ev in reads if ev.result in vals}
    return [ev for ev in reads if ev.loc not in done]


@check('C02', 'value-flow and control-dependence analysis of each process launcher',
       'Decides launch arguments (list argv, no shell, no stdin, merged stderr) and that each line read is written, '
       'unconditionally, to a file opened for writing at the caller\'s log path, until end of output. Trusts subprocess '
       'and file semantics.')
def c02(ctx: Ctx):
    """Per launcher: provenance of argv/stdin/stderr of the spawn; the read loop ends only at end of output; the write of the
    line is control-dependent on nothing but the line itself; the file is opened at the log path for (over)writing."""
    for q, e in runner_roots(ctx).items():
        spec = RUNNERS.get(q, dict(status=True, exe='exe_path', log='log_path'))
        for ev in spawns(e):
            where = f"{q}:{ev.callee}"
            shell = ev.kw.get('shell')
            ctx.ob('no-shell', ev.callee.startswith('subprocess.') and (shell is None or shell is FALSE), where,
                   'the tool is started through a shell', ev.loc)
            argv = ev.arg(0, 'args')
            items = list_items(e, argv, ev) if argv is not None else None
            ctx.ob('argv-list', items is not None, where, 'the command is not an argument list', ev.loc)
            if items:
                ctx.ob('argv0-executable', is_param(path_root(items[0][0]), spec.get('exe', 'exe_path')) and
                       set(items[0][1]) <= set(ev.guards), where,
                       f"the first argument is {show(items[0][0])}, not the configured executable", ev.loc)
            if q not in RUNNERS:
                continue
            si = ev.kw.get('stdin')
            ctx.ob('no-stdin', si is not None and is_ref(si, 'subprocess.DEVNULL'), where,
                   'the tool can read (and block on) the terminal', ev.loc)
            so, se = ev.kw.get('stdout'), ev.kw.get('stderr')
            ctx.ob('stderr-merged', se is not None and (is_ref(se, 'subprocess.STDOUT') or (se is so and not is_ref(
                se, 'subprocess.PIPE') and not is_ref(se, 'subprocess.DEVNULL'))), where,
                'messages on stderr do not reach the log', ev.loc)
            opens = [o for o in calls(e, 'open') if o.recv is None and o.args]
            logf = [o for o in opens if log_path_ok(o.args[0], spec['log'])]
            modes = [o.arg(1, 'mode') for o in logf]
            good = [o for o, m in zip(logf, modes) if m is not None and m.op == 'const' and 'w' in str(m.a[0])]
            if so is not None and so in [o.result for o in good]:
                ctx.ob('log-direct', True, where)
                continue
            ctx.ob('log-opened-for-writing', bool(good), where,
                   'no file is opened for writing at the log path of the caller', ev.loc)
            srcs, sot = line_sources(ev.result, e)
            ctx.ob('output-piped', so is not None and is_ref(so, 'subprocess.PIPE') and bool(srcs), where,
                   'the output of the tool is not read', ev.loc)
            writes = []
            for w in e.events:
                if w.kind != 'call':
                    continue
                if w.recv in [o.result for o in good] and w.name in ('write', 'writelines'):
                    payload = w.args[0] if w.args else None
                elif w.callee == 'print' and w.kw.get('file') in [o.result for o in good]:
                    payload = w.args[0] if w.args else None
                else:
                    continue
                if payload is None:
                    continue
                its = list_items(e, payload, w)
                vals = [v for v, _, _ in its] if its is not None else [payload]
                if any(v in srcs or (v.op == 'fstr' and len(v.a) == 1 and v.a[0] in srcs) for v in vals):
                    writes.append(w)
                elif w.callee == 'print' and any(_chopped(v, srcs) for v in vals):
                    writes.append(w)
                elif any(v.op == 'fstr' and any(_chopped(x, srcs) for x in v.a) and v.a[-1].op == 'const'
                         and str(v.a[-1].a[0]).endswith('\n') for v in vals):
                    writes.append(w)
            full = []
            written = []
            for w in writes:
                written += [x for a in w.args for y in [a] + [v for v, _, _ in list_items(e, a, w) or ()]
                            for x in subterms(y)]
            lost = unlogged_reads(e, sot, written, ev)
            ctx.ob('every-read-logged', not lost, where, 'a line that is read from the tool is not written to the log',
                   lost[0].loc if lost else '')
            for w in writes:
                extra = [l for l in w.guards if l not in ev.guards and not _eof_guard(l, srcs)]
                if not extra and len(w.loops) <= 1:
                    full.append(w)
            ctx.ob('every-line-logged', bool(full), where,
                   'a line of output can be missing from the log file (it is written under an extra condition, '
                   'or not at all)', ev.loc)
            for w in full:
                for lp in w.loops:
                    bad = [x for x in lp.exits if x[0] in ('break', 'return') and
                           not any(_eof_lit(l, srcs) for l in x[1])]
                    ctx.ob('read-until-end', not bad, where, 'the read loop ends before the end of the output',
                           bad[0][2] if bad else '')
                    if lp.iter is None and lp.cond is not None and lp.cond is not TRUE:
                        ls = literals(lp.cond, True) or []
                        ctx.ob('loop-condition', all(_eof_guard(l, srcs) for l in ls), where,
                               f"the read loop runs only while {show(lp.cond)}", w.loc)
            # the log is read completely before the verdict
            for o in good:
                waits = [w for w in e.events if w.kind == 'call' and w.recv is ev.result and w.name == 'wait']
                first_raise = [r for r in e.events if r.kind == 'raise']
                for w in full:
                    ctx.ob('logged-before-verdict', all(w.idx < r.idx for r in first_raise
                                                        if any(mentions(t, ev.result) for t, _ in r.guards)), where,
                           'the status is judged before the output is logged', w.loc)


def _chopped(v, srcs):
    return (v.op == 'slice' and v.a[0] in srcs) or (is_call(v, '.rstrip', '.strip') and cargs(v)[0] in srcs)


def _is_src_truth(t, srcs):
    if t in srcs:
        return True
    # line != '' tests
    return t.op == 'cmp' and t.a[0] == '==' and any(x in srcs for x in t.a[1:]) and any(is_const(x, '') for x in t.a[1:])


def _eof_guard(l, srcs):
    """literal that just says: there is a line"""
    t, p = l
    if t in srcs:
        return p
    if t.op == 'cmp' and _is_src_truth(t, srcs):
        return not p
    # carried variable of the read loop (line = readline() at the end of the body)
    if t.op == 'mu':
        return p
    if t.op == 'cmp' and t.a[0] == '==' and any(x.op == 'mu' for x in t.a[1:]) and any(is_const(x, '') for x in t.a[1:]):
        return not p
    if t.op in ('tryok',):
        return True
    return False


def _eof_lit(l, srcs):
    t, p = l
    if t in srcs:
        return not p
    if t.op == 'cmp' and _is_src_truth(t, srcs):
        return p
    return False


# ------------------------------------------------------------------ argv specifications
def argv_of(ctx, q):
    e = ctx.analyse(q)
    sp = spawns(e)
    if not sp:
        return e, None, None
    ev = sp[0]
    argv = ev.arg(0, 'args')
    return e, ev, list_items(e, argv, ev) if argv is not None else None


def opt(flag, p):
    """-f<value>"""
    return mk_str([const(flag), T('param', p)])


def notnone(p):
    return {(mk_cmp('==', T('param', p), NONE), False)}


ARGV = {
    'klayout_pex.fastercap.fastercap_runner.run_fastercap': [
        (const('-b'), set()), (opt('-a', 'tolerance'), set()), (opt('-d', 'd_coeff'), set()),
        (opt('-m', 'mesh_refinement_value'), set()), (opt('-f', 'ooc_condition'), notnone('ooc_condition')),
        (const('-ap'), {(T('param', 'auto_preconditioner'), True)}),
        (const('-g'), {(T('param', 'galerkin_scheme'), True)}),
        (const('-pj'), {(T('param', 'jacobi_preconditioner'), True)}),
        (T('param', 'lst_file_path'), set())],
    'klayout_pex.fastcap.fastcap_runner.run_fastcap': [
        (opt('-o', 'expansion_order'), set()),
        (opt('-d', 'partitioning_depth'), {(mk_cmp('==', T('param', 'partitioning_depth'), const('auto')), False)}),
        (opt('-p', 'permittivity_factor'), set()), (opt('-t', 'iterative_tolerance'), set()),
        (('-l', 'lst_file_path'), set())],
    'klayout_pex.magic.magic_runner.run_magic': [
        (const('-dnull'), set()), (const('-noconsole'), set()), ([const('-rcfile'), T('param', 'magicrc_path')], set()),
        (T('param', 'script_path'), set())],
    'klayout_pex.netlistsvg.netlistsvg_runner.run_netlistsvg': [
        ([const('-o'), T('param', 'output_svg_path')], set()), ([const('--skin'), T('param', 'skin_path')], set()),
        ([const('--layout'), T('param', 'layout_elk_path')], notnone('layout_elk_path')),
        (T('param', 'yosys_json_netlist_path'), set())],
}


def norm_item(v):
    if v.op == 'const' and not isinstance(v.a[0], str):
        return const(str(v.a[0]))
    return path_root(v)


def check_argv(ctx, q, spec):
    e, ev, items = argv_of(ctx, q)
    if items is None:
        ctx.fail('argv-options', q, 'no argument vector could be determined', ev.loc if ev else '')
        return
    have = [(norm_item(v), frozenset(l for l in g if l not in ev.guards)) for v, g, _ in items][1:]
    used = set()

    def geq(gh, g):
        if gh == frozenset(g):
            return True
        # truthiness instead of "is not None" is a different condition for 0 -- not accepted
        return False
    for want, g in spec:
        label = show(want) if isinstance(want, T) else ' '.join(show(x) if isinstance(x, T) else x for x in want)
        ok = False
        if isinstance(want, list):
            for i in range(len(have) - len(want) + 1):
                if all(have[i + k][0] is want[k] and geq(have[i + k][1], g) for k in range(len(want))):
                    ok = True
                    used |= set(range(i, i + len(want)))
        elif isinstance(want, tuple):
            flag, p = want
            for i, (v, gh) in enumerate(have):
                if v.op == 'fstr' and v.a[0] is const(flag) and len(v.a) == 2 and \
                        is_call(v.a[1], 'os.path.basename', 'os.path.abspath') and is_param(path_root(cargs(v.a[1])[0]), p) and geq(gh, g):
                    ok = True
                    used.add(i)
                elif v is opt(flag, p) and geq(gh, g):
                    ok = True
                    used.add(i)
        else:
            for i, (v, gh) in enumerate(have):
                if v is want and geq(gh, g):
                    ok = True
                    used.add(i)
        ctx.ob('argv-option', ok, f"{q}:{label}",
               f"the argument {label} is not passed under its condition; argv is "
               + ' '.join(show(v) + ('?' if gh else '') for v, gh in have), ev.loc)
    # no parameter reaches a flag it does not belong to
    for i, (v, gh) in enumerate(have):
        if i in used:
            continue
        ps = [x.a[0] for x in subterms(v) if x.op == 'param']
        ctx.ob('argv-no-stray', not ps and not gh, f"{q}:{show(v)}",
               f"argument {show(v)} carries {ps} under a flag that is not documented for it", ev.loc)
