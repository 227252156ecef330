"""C51 (netlist tool), C52 (log levels and log files)."""
from __future__ import annotations
import ast
from typing import *
from ..core import check, Ctx
from ..q import *
from ..bools import sat, entails, equiv, conj, feasible, specialise, pick
from ..vfa import T, const, TRUE, show

NET = 'klayout_pex.netlist.netlist_cli.NetlistCLI'
LOG = 'klayout_pex.log.logger'


def at(t, cond, value):
    """the condition or value t when cond has this value"""
    def atom(x):
        if x is cond:
            return value
        if x.op == 'cmp' and x.a[0] in ('==', 'is', '!=', 'is not') and cond.op == 'cmp' and set(x.a[1:]) == set(cond.a[1:]):
            return value if x.a[0] in ('==', 'is') else not value
        return None
    return atom


def over(e, t, atom=lambda t: None):
    """the sequence whose length and emptiness t has"""
    while True:
        t = pick(t, atom)
        if t.op == 'comp' and t.a[0] in ('list', 'gen'):
            c = e.comps[t.a[1]]
            if len(c['loops']) == 1 and not c['guards'] and c['loops'][0].iter is not None:
                t = c['loops'][0].iter
                continue
        if is_call(t, 'list', 'tuple', 'sorted') and len(cargs(t)) == 1:
            t = cargs(t)[0]
            continue
        return t


def with_length(e, X, k, more=lambda t: None):
    """decides conditions on a sequence with k elements"""
    same_ = lambda t: over(e, t, more) is X

    def atom(t):
        r = more(t)
        if r is not None:
            return r
        if same_(t):
            return k > 0
        if t.op == 'call' and is_call(t, 'len', 'bool') and same_(cargs(t)[0]):
            return k > 0
        if t.op == 'cmp' and len(t.a) == 3:
            a, b = t.a[1], t.a[2]
            if is_call(b, 'len') and a.op == 'const':
                flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
                return atom(T('cmp', flip.get(t.a[0], t.a[0]), b, a))
            if is_call(a, 'len') and same_(cargs(a)[0]) and b.op == 'const' and isinstance(b.a[0], int):
                v = b.a[0]
                return {'==': k == v, '!=': k != v, '<': k < v, '<=': k <= v, '>': k > v, '>=': k >= v}.get(t.a[0])
        return None
    return atom


def options(e):
    """destination -> add_argument event"""
    out = {}
    for ev in e.events:
        if ev.kind == 'call' and ev.name == 'add_argument' and ev.args and ev.args[0].op == 'const':
            fl = [a.a[0] for a in ev.args if a.op == 'const' and isinstance(a.a[0], str)]
            d = ev.kw.get('dest')
            long = [f for f in fl if f.startswith('--')] or fl
            out[d.a[0] if d is not None and d.op == 'const' else long[0].lstrip('-').replace('-', '_')] = (fl, ev)
    return out


NET_OPTIONS = dict(input_netlist_path='input_netlist_path', netlistsvg_exe_path='--exe', output_svg_path='--output', preview_svg='--preview',
                   cell_name='--cell', log_level='--log_level')


@check('C51', 'value-flow analysis of the netlist tool: from each option to its use, path conditions decided per number of top circuits',
       'Decides which circuit is described, which file is read and written and drawn, and that every option is used. klayout\'s SPICE reader '
       'and circuit_by_name are trusted; the description itself is C16.')
def c51(ctx: Ctx):
    """NetlistCLI.main with everything it calls except the JSON writer and the launcher."""
    q = f"{NET}.main"
    ctx.need(q in ctx.prog.funcs, q)
    e = ctx.analyse(q, opaque=['klayout_pex.util', 'klayout_pex.netlistsvg'])
    loc = ctx.prog.funcs[q].loc
    pa = [ev for ev in e.events if ev.kind == 'call' and ev.name in ('parse_args', 'parse_known_args') and not str(ev.callee).startswith('klayout_pex')]
    if not ctx.ob('parsed-once', len(pa) == 1, q, 'the command line is not parsed once', loc):
        return
    ns = pa[0].result
    o = options(e)
    src = ctx.prog.modules['klayout_pex.netlist.netlist_cli'].tree
    read = {n.attr for n in ast.walk(src) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)}
    for d, fl in NET_OPTIONS.items():
        ctx.ob('option', d in o and fl in o[d][0], f"option {fl}", 'is not offered' if d not in o else f"is {o[d][0]}", loc)
    for d, (fl, ev) in o.items():
        if not is_const(ev.kw.get('action'), 'help') and not is_const(ev.kw.get('action'), 'version'):
            ctx.ob('option-used', d in read, f"option {fl[0]}", 'nothing reads it', ev.loc)
    for d in NET_OPTIONS:
        if d not in o:
            return
    flag = o['preview_svg'][1]
    dv = flag.kw.get('default')
    ctx.ob('option-type', is_const(flag.kw.get('action'), 'store_true') and (dv is None or is_const(dv, False)), 'option --preview', 'is not a switch that is off by default', flag.loc)
    for d in ('input_netlist_path', 'netlistsvg_exe_path', 'output_svg_path', 'cell_name', 'log_level'):
        ev = o[d][1]
        ty = ev.kw.get('type')
        ctx.ob('option-type', ev.kw.get('action') is None and (ty is None or is_ref(ty, 'str')) and 'choices' not in ev.kw and 'nargs' not in ev.kw,
               f"option {o[d][0][0]}", f"is not taken as it is given (type {show(ty) if ty is not None else 'none'})", ev.loc)
    for d in ('output_svg_path', 'cell_name'):
        v = o[d][1].kw.get('default')
        ctx.ob('option-default', v is None or is_const(v, None), f"option {o[d][0][0]}", 'has another default than none', o[d][1].loc)
    levels(ctx, e, q, ns, o['log_level'][1])
    svg = T('cmp', '==', A(ns, 'command'), const('svg'))
    wj = calls(e, 'write_json')
    run = calls(e, 'run_netlistsvg')
    run = [ev for ev in run if str(ev.callee).startswith('klayout_pex.netlistsvg.')]
    if not ctx.ob('one-run', len(wj) == 1 and len(run) == 1, q, f"{len(wj)} descriptions are written and netlistsvg is called {len(run)} times", loc):
        return
    wj, run = wj[0], run[0]
    a, r = bind(ctx.prog, wj), bind(ctx.prog, run)
    ctx.ob('command', entails([conj(wj.guards)], svg), q, 'the description is written for another command', wj.loc)
    rd = [ev for ev in e.events if ev.kind == 'call' and ev.callee == '.read' and ev.recv is a.get('netlist')]
    ctx.ob('netlist-read', len(rd) == 1 and rd[0].args and rd[0].args[0] is A(ns, 'input_netlist_path') and
           e.events.index(rd[0]) < e.events.index(wj) and entails([conj(wj.guards)], conj(rd[0].guards)), q,
           'the netlist that is described is not the one read from the file given', wj.loc)
    cell = T('cmp', '==', A(ns, 'cell_name'), const(None))
    # a cell is given
    given = at(None, cell, False)
    top = a.get('top_circuit')
    ctx.need(top is not None, 'write_json: top_circuit')
    t = resolve(e, top, given)
    ok = t.op == 'call' and is_call(t, '.circuit_by_name') and cargs(t) == (a['netlist'], A(ns, 'cell_name'))
    ctx.ob('cell-given', ok, q, f"with --cell, the circuit is {show(t)[:120]}", wj.loc)
    if ok:
        none = lambda v: lambda x: (v if x is t else (not v) if x.op == 'cmp' and x.a[0] in ('==', 'is') and x.a[1] is t and is_const(x.a[2], None) else given(x))
        dead = specialise(conj(wj.guards), chosen(e, t, none(False), given))
        ctx.ob('cell-exists', not sat([dead]), q, 'a cell that does not exist is not refused', wj.loc)
        live = specialise(conj(wj.guards), chosen(e, t, none(True), given))
        ctx.ob('cell-given', sat([live]), q, 'a cell that is given and exists is refused', wj.loc)
    # no cell
    free = at(None, cell, True)
    t = resolve(e, top, free)
    X = None
    if t.op == 'item' and is_const(t.a[1], 0) or t.op == 'item' and is_const(t.a[1], -1):
        X = over(e, t.a[0], free)
    elif t.op == 'elem':
        X = t.a[0]
    ok = X is not None and X.op == 'call' and is_call(X, '.top_circuits') and cargs(X) == (a['netlist'],)
    ctx.ob('top-cell', ok, q, f"without --cell, the circuit is {show(t)[:120]}", wj.loc)
    if ok:
        for k in (0, 1, 2, 3):
            g = specialise(conj(wj.guards), with_length(e, X, k, free))
            ctx.ob('top-cell-unique', sat([g]) == (k == 1), f"{q} {k} top circuits",
                   'the only one is refused' if k == 1 else 'one is described all the same', wj.loc)
    for ev in e.events:
        if ev.kind == 'call' and ev.callee in ('sys.exit', 'exit', 'quit', 'os._exit'):
            v = ev.args[0] if ev.args else const(0)
            ctx.ob('exit-status', v.op == 'const' and v.a[0] not in (0, None, False, ''), f"{q} {ev.loc}", 'an error ends with status 0', ev.loc)
    # the drawing
    ctx.ob('drawn', run.guards == wj.guards or entails([conj(wj.guards)], conj(run.guards)), q, 'the description is written but not drawn', run.loc)
    ctx.ob('drawn', r.get('yosys_json_netlist_path') is a.get('output_path') and e.events.index(wj) < e.events.index(run), q,
           'netlistsvg does not draw the description that was written', run.loc)
    ctx.ob('executable', r.get('exe_path') is A(ns, 'netlistsvg_exe_path'), q, 'another program is started than the one given', run.loc)
    outp = T('cmp', '==', A(ns, 'output_svg_path'), const(None))
    v = r.get('output_svg_path')
    ctx.need(v is not None, 'run_netlistsvg: output_svg_path')
    ctx.ob('output', pick(v, at(None, outp, False)) is A(ns, 'output_svg_path') or v.op == 'or' and v.a[0] is A(ns, 'output_svg_path'), q,
           'the drawing is not written to the file given', run.loc)
    d = pick(v, at(None, outp, True))
    d = d.a[1] if d.op == 'or' and len(d.a) == 2 else d
    ctx.ob('output', not mentions(d, A(ns, 'output_svg_path')) and path_root(d) is not None and mentions(d, A(ns, 'input_netlist_path')), q,
           f"without --output, the drawing is written to {show(d)[:100]}", run.loc)
    files = [a.get('output_path'), d, r.get('log_path')]
    ctx.ob('separate-files', len(set(files)) == 3, q, 'description, drawing and log share a file', run.loc)
    pv = [ev for ev in e.events if ev.kind == 'call' and ev.callee == 'webbrowser.open']
    f = A(ns, 'preview_svg')
    for ev in pv:
        ctx.ob('preview', equiv(conj(ev.guards), f, [conj(run.guards)]) and mentions(ev.args[0], v) and e.events.index(run) < e.events.index(ev), q,
               'the drawing is not shown exactly when --preview is given', ev.loc)
    ctx.ob('preview', len(pv) == 1, q, 'the drawing is shown several times or never', loc)


def A(o, n):
    return T('attr', o, n)


def elements(t):
    return t.a if t.op == 'tuple' else t.a[1] if t.op == 'lit' and t.a[0] == 'list' else None


def resolve(e, t, atom):
    """the circuit behind an element of a list that is put together by cases"""
    t = pick(t, atom)
    if is_call(t, 'next') and len(cargs(t)) == 1 and is_call(cargs(t)[0], 'iter'):
        t = T('item', cargs(cargs(t)[0])[0], const(0))
    if t.op == 'item':
        b = pick(t.a[0], atom)
        l = elements(b)
        if l is not None and t.a[1].op == 'const' and isinstance(t.a[1].a[0], int) and -len(l) <= t.a[1].a[0] < len(l):
            return resolve(e, l[t.a[1].a[0]], atom)
        return T('item', b, t.a[1])
    return t


def chosen(e, t, none, given):
    """the list of the one chosen circuit has one element"""
    def seq(x):
        return elements(over(e, x, given))

    def atom(x):
        r = none(x)
        if r is not None:
            return r
        if x.op in ('comp', 'ite', 'lit', 'call', 'tuple'):
            s = seq(x)
            if s is not None:
                return len(s) > 0
        if x.op == 'cmp' and len(x.a) == 3:
            for a, b in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if is_call(a, 'len') and b.op == 'const' and isinstance(b.a[0], int):
                    s = seq(cargs(a)[0])
                    if s is not None:
                        n, v = len(s), b.a[0]
                        l, rr = (n, v) if a is x.a[1] else (v, n)
                        return {'==': l == rr, '!=': l != rr, '<': l < rr, '<=': l <= rr, '>': l > rr, '>=': l >= rr}.get(x.a[0])
        return None
    return atom


def levels(ctx, e, q, ns, opt):
    """the log level: a name in any case becomes the level of that name, before it is set; other names are refused"""
    st = [ev for ev in e.events if ev.kind == 'store' and ev.recv is ns and ev.name == 'log_level']
    setl = calls(e, 'set_log_level')
    cls = ctx.prog.classes.get(f"{LOG}.LogLevel")
    ctx.need(cls is not None, 'LogLevel')
    members = level_values(ctx)
    dv = opt.kw.get('default')
    ctx.ob('log-level', dv is not None and dv.op == 'const' and isinstance(dv.a[0], str) and dv.a[0].upper() in members, 'option --log_level',
           'its default is no level', opt.loc)
    want = lambda v: v.op == 'item' and is_ref(v.a[0], 'LogLevel') and v.a[1].op == 'call' and is_call(v.a[1], '.upper') and cargs(v.a[1])[0] is A(ns, 'log_level')
    ctx.ob('log-level', len(st) == 1 and want(st[0].args[0]), q, f"a name does not become the level of that name", st[0].loc if st else opt.loc)
    tok = [l for l, p in st[0].guards if p and l.op == 'tryok'] if st else []
    v = pick(setl[0].args[0], lambda x: True if x in tok else None) if len(setl) == 1 and len(setl[0].args) == 1 else None
    ok = v is not None and st and (v is st[0].args[0] or v is A(ns, 'log_level')) and e.events.index(st[0]) < e.events.index(setl[0])
    if ctx.ob('log-level', ok, q, 'the level given is not set', setl[0].loc if setl else opt.loc):
        # an unknown name is refused: what follows is under the fact that the conversion worked
        ctx.ob('log-level', all(entails([conj(setl[0].guards)], l) for l in tok), q, 'a name that is no level is not refused', st[0].loc)


def level_values(ctx):
    out = {}
    c = ctx.prog.classes[f"{LOG}.LogLevel"]
    for n in c.node.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            if isinstance(v, ast.Constant) and isinstance(v.value, int):
                out[n.targets[0].id] = v.value
            elif isinstance(v, ast.Name) and v.id in out:
                out[n.targets[0].id] = out[v.id]
            else:
                try:
                    out[n.targets[0].id] = eval_level(v)
                except ValueError:
                    out[n.targets[0].id] = None
    return out


STD = dict(NOTSET=0, DEBUG=10, INFO=20, WARNING=30, WARN=30, ERROR=40, CRITICAL=50, FATAL=50)


def eval_level(v):
    if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == 'logging' and v.attr in STD:
        return STD[v.attr]
    if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)):
        a, b = (x.value if isinstance(x, ast.Constant) else eval_level(x) for x in (v.left, v.right))
        return a + b if isinstance(v.op, ast.Add) else a - b
    raise ValueError


# ------------------------------------------------------------------ C52
LG = f"{LOG}.__logger"
RUN = 'klayout_pex.kpex_cli.KpexCLI.setup_logging'
VAL = 'klayout_pex.kpex_cli.KpexCLI.validate_args'


def value_of(ctx, t, members):
    """the number of a level term"""
    if t.op == 'attr' and t.a[1] == 'value':
        t = t.a[0]
    if t.op == 'const' and isinstance(t.a[0], int):
        return t.a[0]
    if t.op == 'const' and isinstance(t.a[0], str):
        return members.get(t.a[0], STD.get(t.a[0]))
    if t.op == 'ref':
        n = t.a[0].split('.')[-1]
        if '.LogLevel.' in t.a[0]:
            return members.get(n)
        if t.a[0] == f"logging.{n}":
            return STD.get(n)
    if t.op == 'item' and is_ref(t.a[0], 'LogLevel') and t.a[1].op == 'const':
        return members.get(t.a[1].a[0])
    return None


def ctor_fields(ctx, new):
    """attribute -> value of an object of the package, from its constructor"""
    cls = new.a[0]
    q = f"{cls}.__init__"
    if q not in ctx.prog.funcs:
        return {}
    e = ctx.analyse(q, log=True)
    f = ctx.prog.funcs[q]
    a = f.node.args
    names = [x.arg for x in a.args]
    m = {}
    for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant):
            m[T('param', n)] = const(d.value)
    for n, v in zip(names[1:], new.a[1]):
        m[T('param', n)] = v
    for n, v in new.a[2]:
        m[T('param', n)] = v
    return {ev.name: subst(ev.args[0], m) for ev in e.events
            if ev.kind == 'store' and ev.recv is T('param', names[0]) and not ev.guards and not ev.loops}


def levels_of(t, loop=False):
    """is t the sequence of all levels (loop: or of their numbers)"""
    while t is not None and is_call(t, 'list', 'tuple', 'iter', 'sorted', *(('enumerate', 'range', 'len') if loop else ())) and len(cargs(t)) == 1:
        t = cargs(t)[0]
    return t is not None and (is_ref(t, 'LogLevel') or is_call(t, '.values') and levels_of(cargs(t)[0]))


def unloop(ev):
    """the guards of an event without those on the counters of loops"""
    return [(l, p) for l, p in ev.guards if not any(x.op == 'mu' for x in subterms(l))]


def every_level(e, lp):
    if lp.iter is not None:
        return levels_of(lp.iter, True)
    c = lp.cond
    if c is None or c.op != 'cmp' or len(c.a) != 3:
        return False
    for i, n, o in ((c.a[1], c.a[2], ('<', '!=')), (c.a[2], c.a[1], ('>', '!='))):
        if c.a[0] in o and i in e.mu_info and levels_of(n, True):
            init, up = e.mu_info[i]
            return is_const(init, 0) and pnorm(up) == padd(pnorm(i), pconst(1))
    return False


def passes(ctx, flt, name, value):
    """does the filter object let messages of this level pass"""
    q = f"{flt.a[0]}.filter"
    if not is_new(flt) or q not in ctx.prog.funcs:
        return None
    e = ctx.analyse(q, log=True)
    ps = [x.arg for x in ctx.prog.funcs[q].node.args.args]
    fields = ctor_fields(ctx, flt)
    m = {A(T('param', ps[0]), k): v for k, v in fields.items()}
    m[A(T('param', ps[1]), 'levelname')] = const(name)
    m[A(T('param', ps[1]), 'levelno')] = const(value)
    r = subst(e.result, m)

    try:
        return bool(compute(r))
    except (ValueError, TypeError):
        return None


def compute(t):
    """the value of a term without unknowns"""
    if t.op == 'const':
        return t.a[0]
    if t.op in ('tuple', 'list', 'set'):
        return [compute(x) for x in t.a]
    if t.op == 'lit' and t.a[0] in ('list', 'tuple', 'set'):
        return [compute(x) for x in t.a[1]]
    if t.op == 'ite':
        return compute(t.a[1] if compute(t.a[0]) else t.a[2])
    if t.op == 'not':
        return not compute(t.a[0])
    if t.op == 'and':
        return all(compute(x) for x in t.a)
    if t.op == 'or':
        return any(compute(x) for x in t.a)
    if t.op == 'cmp' and len(t.a) == 3:
        x, y = compute(t.a[1]), compute(t.a[2])
        f = {'==': lambda: x == y, 'is': lambda: x == y, '!=': lambda: x != y, 'is not': lambda: x != y, '<': lambda: x < y, '<=': lambda: x <= y,
             '>': lambda: x > y, '>=': lambda: x >= y, 'in': lambda: x in y, 'not in': lambda: x not in y}.get(t.a[0])
        if f:
            return f()
    if t.op == 'bin' and t.a[0] == '^':
        return compute(t.a[1]) ^ compute(t.a[2])
    if is_call(t, 'set', 'frozenset', 'list', 'tuple', 'bool', 'int') and len(cargs(t)) == 1:
        v = compute(cargs(t)[0])
        return list(v) if isinstance(v, (list, tuple, set)) else v
    raise ValueError(t.op)


@check('C52', 'value-flow analysis of the logger: levels, handlers and filters evaluated for every level; order of the events on the log files',
       'Decides by which handlers a message of each level is shown, that each function logs at its own level, and which file the messages of a run are '
       'in at every point. The logging module of Python and rich are trusted.')
def c52(ctx: Ctx):
    """log.logger and KpexCLI.setup_logging."""
    q = f"{LOG}.configure_logger"
    ctx.need(q in ctx.prog.funcs and f"{LOG}.LogLevel" in ctx.prog.classes, q)
    loc = ctx.prog.funcs[q].loc
    mod = ctx.prog.modules[LOG]
    members = level_values(ctx)
    # --- levels
    for n, v in members.items():
        ctx.ob('level-value', isinstance(v, int) and v > 0, f"LogLevel.{n}", f"is {v}: for 0 the level of the root logger applies", loc)
        if n in STD and v is not None:
            ctx.ob('level-value', v == STD[n], f"LogLevel.{n}", f"is {v}, but the functions of logging use {STD[n]}", loc)
    real = {n: v for n, v in members.items() if n != 'DEFAULT' and isinstance(v, int)}
    ctx.ob('level-order', len(set(real.values())) == len(real), 'LogLevel', 'two levels have the same value and so the same name', loc)
    order = [n for n in ('ALL', 'DEBUG', 'SUBPROCESS', 'VERBOSE', 'INFO', 'WARNING', 'ERROR', 'CRITICAL')]
    for a, b in zip(order, order[1:]):
        ctx.ob('level-order', a in real and b in real and real[a] < real[b], f"LogLevel.{a}, LogLevel.{b}", 'are not in this order', loc)
    if not all(n in real for n in order):
        return
    # --- configured when imported
    top = [n for n in mod.tree.body if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name)
           and n.value.func.id == 'configure_logger']
    ctx.ob('configured', len(top) == 1, LOG, 'the logger is not set up when the module is imported', loc)
    e = ctx.analyse(q, log=True)
    names = [ev for ev in e.events if ev.kind == 'call' and ev.callee == 'logging.addLevelName']
    for n, v in real.items():
        ok = False
        for ev in names:
            l = ev.kw.get('level', ev.args[0] if ev.args else None)
            s = ev.kw.get('levelName', ev.args[1] if len(ev.args) > 1 else None)
            if l is None or s is None or unloop(ev):
                continue
            if not ev.loops:
                ok |= value_of(ctx, l, members) == v and is_const(s, n)
            elif len(ev.loops) == 1:
                el = {t for t in subterms(s) if t.op in ('elem', 'item') and levels_of(t.a[0]) and t.a[1] is not const(0)}
                el = [t for t in el if s is A(t, 'name') and (l is t or l is A(t, 'value') or is_call(l, 'int') and cargs(l)[0] is t)]
                ok |= bool(el) and every_level(e, ev.loops[0])
        ctx.ob('level-name', ok or STD.get(n) == v, f"LogLevel.{n}", 'has no name in logging: filters by name do not know it', loc)
    # --- handlers on the console
    add = [ev for ev in e.events if ev.kind == 'call' and ev.callee == f"{LG}.addHandler"]
    ctx.ob('handlers', all(not unloop(ev) and not ev.loops and len(ev.args) == 1 for ev in add) and add, q, 'no handlers are added, or only sometimes', loc)
    hs = [ev.args[0] for ev in add if ev.args]
    ctx.ob('handlers', len(set(hs)) == len(hs), q, 'a handler is added twice', loc)
    for ev in e.events:
        if ev.kind == 'call' and ev.callee in (f"{LG}.handlers.clear", f"{LG}.removeHandler"):
            ctx.ob('handlers', all(e.events.index(ev) < e.events.index(x) for x in add), q, 'handlers are removed again', ev.loc)
    for n, v in real.items():
        shown = []
        for h in hs:
            on = True
            for ev in e.events:
                if ev.kind == 'call' and ev.recv is h and ev.callee == '.addFilter':
                    p = passes(ctx, ev.args[0], n, v)
                    ctx.need(p is not None, f"filter of {show(h)[:60]} for {n}")
                    on = on and p
                if ev.kind == 'call' and ev.recv is h and ev.callee == '.setLevel':
                    l = value_of(ctx, ev.args[0], members)
                    ctx.need(l is not None, 'setLevel of a handler')
                    on = on and v >= l
            lv = dict(h.a[2]).get('level') if is_new(h) or h.op == 'call' else None
            if lv is not None:
                l = value_of(ctx, lv, members)
                on = on and l is not None and v >= l
            if on:
                shown.append(h)
        ctx.ob('shown-once', len(shown) == 1, f"messages of level {n}", f"are shown by {len(shown)} of {len(hs)} handlers", loc)
        if len(shown) == 1 and n == 'SUBPROCESS':
            mk = dict(shown[0].a[2]).get('markup')
            ctx.ob('verbatim', mk is None or is_const(mk, False), 'output of the tools', 'is interpreted as markup: [brackets] disappear', loc)
        if len(shown) == 1:
            for ev in e.events:
                if ev.kind == 'call' and ev.recv is shown[0] and ev.callee == '.setFormatter':
                    formatter(ctx, ev.args[0], n, v)
    # --- the functions
    want = dict(debug='DEBUG', info='INFO', warning='WARNING', error='ERROR', subproc='SUBPROCESS')
    for f, n in want.items():
        fq = f"{LOG}.{f}"
        ctx.need(fq in ctx.prog.funcs, fq)
        fe = ctx.analyse(fq, log=True)
        fi = ctx.prog.funcs[fq]
        ev = [x for x in fe.events if x.kind == 'call' and str(x.callee).startswith(LG + '.')]
        if not ctx.ob('function', len(ev) == 1 and not ev[0].loops and not ev[0].guards, fq, f"logs its message {len(ev)} times, or only sometimes", fi.loc):
            continue
        ev = ev[0]
        rest = list(ev.args)
        if ev.name == 'log':
            got = value_of(ctx, rest.pop(0), members) if rest else None
        else:
            got = STD.get({'warn': 'WARNING', 'exception': 'ERROR'}.get(ev.name, ev.name.upper()))
        ctx.ob('function', got == members[n], fq, f"logs at level {got} instead of {members[n]}", ev.loc)
        a = fi.node.args
        first = T('star', T('param', a.vararg.arg)) if a.vararg and not a.args else T('param', a.args[0].arg) if a.args else None
        ctx.ob('function', first is not None and rest and rest[0] is first, fq, 'logs something else than its message', ev.loc)
    for f, m in (('set_log_level', 'setLevel'), ('register_additional_handler', 'addHandler'), ('deregister_additional_handler', 'removeHandler')):
        fq = f"{LOG}.{f}"
        ctx.need(fq in ctx.prog.funcs, fq)
        fe = ctx.analyse(fq, log=True)
        ev = [x for x in fe.events if x.kind == 'call' and str(x.callee).startswith(LG + '.')]
        p = ctx.prog.funcs[fq].node.args.args[0].arg
        ctx.ob('function', len(ev) == 1 and ev[0].name == m and not ev[0].guards and ev[0].args[:1] == (T('param', p),), fq,
               f"does not call {m} of the logger with its argument", ctx.prog.funcs[fq].loc)
    # --- nothing else sets up logging
    for mn, md in ctx.prog.modules.items():
        for n in ast.walk(md.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('basicConfig', 'disable', 'dictConfig', 'fileConfig') and \
                    isinstance(n.func.value, ast.Name) and n.func.value.id == 'logging':
                ctx.fail('other-setup', f"{mn}:{n.lineno}", f"logging.{n.func.attr}", f"{md.path}:{n.lineno}")
    log_files(ctx, members)


def formatter(ctx, f, n, v):
    q = f"{f.a[0]}.format" if is_new(f) else ''
    if q not in ctx.prog.funcs:
        return
    e = ctx.analyse(q, log=True)
    rec = T('param', ctx.prog.funcs[q].node.args.args[1].arg)
    ret = [x for x in e.events if x.kind == 'return' and len(x.ctx) <= 1]
    msg = lambda t: any(is_call(x, '.getMessage') and cargs(x) == (rec,) for x in subterms(t))
    ctx.ob('message-shown', ret and all(r.args and msg(r.args[0]) for r in ret) and not sat([T('not', T('or', *[conj(r.guards) for r in ret]))]), q,
           'a message is lost', ctx.prog.funcs[q].loc)


def log_files(ctx, members):
    ctx.need(RUN in ctx.prog.funcs and VAL in ctx.prog.funcs, RUN)
    e = ctx.analyse(RUN, opaque=[VAL])
    f = ctx.prog.funcs[RUN]
    args = T('param', [x.arg for x in f.node.args.args if x.arg != 'self'][0])
    va = [ev for ev in e.events if ev.kind == 'call' and ev.callee == VAL]
    if not ctx.ob('validated', len(va) == 1, RUN, 'the settings are not validated once', f.loc):
        return
    idx = {id(ev): i for i, ev in enumerate(e.events)}
    at_ = lambda ev: idx[id(ev)]
    base, out = A(args, 'output_dir_base_path'), A(args, 'output_dir_path')
    toks = {l for ev in e.events for l, p in ev.guards if l.op == 'tryok'}
    late = [ev for ev in e.events if at_(ev) > at_(va[0])]
    early = [ev for ev in e.events if at_(ev) < at_(va[0])]
    reg = lambda evs: [ev for ev in evs if ev.kind == 'call' and ev.callee == f"{LOG}.register_additional_handler"]
    first = [ev.args[0] for ev in reg(early)]
    files = {}
    for h in first:
        if is_call(h, 'FileHandler'):
            files[h] = cargs(h)[0]
    ctx.ob('log-file', len(set(files.values())) == len(files) >= 2, RUN, 'there are not two log files while the settings are validated', f.loc)
    for h, p in files.items():
        ctx.ob('log-file', mentions(p, base) and all(not ev.guards for ev in reg(early)), f"{show(p)[-40:]}", 'is not in the output directory', f.loc)

    def settings(h, evs, lit):
        """level and formatter of a handler"""
        l, fm = 0, const(None)
        for ev in evs:
            if ev.kind == 'call' and ev.recv is h and ev.callee == '.setLevel' and ev.args:
                l = value_of(ctx, ev.args[0], members)
            if ev.kind == 'call' and ev.recv is h and ev.callee == '.setFormatter' and ev.args:
                fm = ev.args[0]
        return l, fm

    def mode(h):
        m = dict(h.a[2]).get('mode', cargs(h)[1] if len(cargs(h)) > 1 else const('a'))
        return m.a[0] if m.op == 'const' else None
    for h in files:
        l, fm = settings(h, early, None)
        ctx.ob('log-file-level', l is not None and l <= members['SUBPROCESS'], show(files[h])[-40:], 'lacks the output of the tools', f.loc)
    # after the validation, in both cases
    has = T('call', 'hasattr', (args, const('output_dir_path')), ())
    for what, ok in (('valid settings', True), ('invalid settings', False)):
        def atom(t):
            if t in toks:
                return ok
            if t.op == 'exc':
                return not ok
            if is_call(t, 'hasattr') and cargs(t)[0] is args:
                return True
            return None
        live, dead = [], False
        for ev in late:
            if not sat([specialise(conj(ev.guards), atom)]):
                continue
            live.append(ev)
            if not ok and ev.kind == 'call' and ev.callee in ('sys.exit', 'exit') or ev.kind == 'raise':
                break
        cond = lambda ev: specialise(conj(ev.guards), atom)
        always = lambda ev: not sat([T('not', cond(ev))])
        for h, p in files.items():
            name = f"{show(p)[-18:-1]} with {what}"
            de = [ev for ev in live if ev.kind == 'call' and ev.callee == f"{LOG}.deregister_additional_handler" and ev.args[0] is h]
            cl = [ev for ev in live if ev.kind == 'call' and ev.recv is h and ev.callee == '.close']
            mv = [ev for ev in live if ev.kind == 'call' and ev.callee in ('shutil.move', 'os.rename', 'os.replace', 'shutil.copy') and ev.args[0] is p]
            if not ctx.ob('log-moved', len(de) == len(mv) == 1 and always(de[0]) and always(mv[0]) and at_(de[0]) < at_(mv[0]), name,
                          'is not moved to the output directory once, after its handler is taken away', f.loc):
                continue
            ctx.ob('log-moved', bool(cl) and at_(de[0]) < at_(cl[0]) < at_(mv[0]), name, 'is still open when it is moved', mv[0].loc)
            to = mv[0].args[1]
            ctx.ob('log-moved', mentions(to, out) and mentions(to, p) or mentions(to, out) and basename(to) == basename(p) is not None, name,
                   f"is moved to {show(to)[:80]}", mv[0].loc)
            keep = [ev for ev in live if ev.kind == 'call' and ev.callee in ('shutil.move', 'os.rename', 'os.replace', 'shutil.copy', 'shutil.copy2')
                    and ev.args[0] is to and at_(ev) < at_(mv[0])]
            ex = T('call', 'os.path.exists', (to,), ())
            ctx.ob('log-kept', len(keep) == 1 and not sat([cond(mv[0]), ex, T('not', cond(keep[0]))]) and keep[0].args[1] is not to, name,
                   'overwrites the one of an earlier run', mv[0].loc)
            nh = [ev for ev in reg(live) if is_call(ev.args[0], 'FileHandler') and (cargs(ev.args[0])[0] is to or
                                                                                 cargs(ev.args[0])[0] is mv[0].result or cargs(ev.args[0])[0] is moved(mv[0]))]
            if not ctx.ob('log-continued', len(nh) == 1 and always(nh[0]), name, f"{len(nh)} handlers continue the file", mv[0].loc):
                continue
            n = nh[0].args[0]
            made = [ev for ev in live if ev.kind == 'call' and ev.result is n]
            ctx.ob('log-continued', at_(nh[0]) > at_(mv[0]) and all(at_(x) > at_(mv[0]) for x in made) and mode(n) == 'a', name,
                   'is opened before it is there, or emptied', nh[0].loc)
            ctx.ob('log-continued', settings(n, live, None) == settings(h, early, None), name, 'is continued with another level or format', nh[0].loc)
        others = [ev for ev in reg(live) if is_call(ev.args[0], 'FileHandler')]
        ctx.ob('log-continued', len(others) == len(files), what, f"{len(others)} log files are written", f.loc)
    ends = [ev for ev in late if ev.kind == 'raise' or ev.kind == 'call' and ev.callee in ('sys.exit', 'exit')]
    for ev in ends:
        if ev.kind == 'call':
            v = ev.args[0] if ev.args else const(0)
            ctx.ob('exit-status', v.op == 'const' and v.a[0] not in (0, None, False, ''), RUN, 'invalid settings end with status 0', ev.loc)
    bad = lambda t: False if t in toks else True if t.op == 'exc' else None
    ctx.ob('exit-status', any(not sat([T('not', specialise(conj(ev.guards), bad))]) for ev in ends), RUN, 'goes on with invalid settings', f.loc)
    sl = [ev for ev in late if ev.kind == 'call' and ev.callee == f"{LOG}.set_log_level"]
    ctx.ob('level-set', len(sl) == 1 and sl[0].args[0] is A(args, 'log_level') and
           not sat([T('not', specialise(conj(sl[0].guards), lambda t: True if t in toks else None))]), RUN, 'the log level given is not set', f.loc)


def moved(ev):
    return T('call', ev.callee, ev.args, ())


def basename(t):
    """the constant name at the end of a path"""
    while is_call(t, 'os.path.join', 'os.path.basename'):
        t = cargs(t)[-1]
    return t.a[0] if t.op == 'const' else None
