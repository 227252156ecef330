"""C41 (shape messages), C42 (environment), C43 (patterns), C44 (argument parsing), C46 (report repair)."""
import ast
from ..core import check, Ctx
from ..q import *
from ..bools import sat, entails, equiv, conj, feasible, specialise, pick
from ..msgs import Msg, messages, attr
from ..vfa import const, mk_not, mk_cmp, mk_and, mk_or
from .netlists import live
from .resist import unraised, no_break

P = lambda n: T('param', n)


def params(ctx, q):
    f = ctx.prog.funcs.get(q)
    ctx.need(f is not None, f"{q} is gone")
    return [P(x) for x in f.params if x not in ('self', 'cls')]


def top_returns(e):
    return [ev for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1]


def results(e, dec):
    """[(condition, value)] that a function returns when the conditions are decided by dec"""
    out = []
    for ev in top_returns(e):
        v = ev.args[0] if ev.args else const(None)
        for c, x in gated_leaves(v):
            g = specialise(conj(list(unraised(e, ev.guards)) + list(c)), dec)
            if g is not const(False):
                out.append((g, x, ev))
    return out


# ------------------------------------------------------------------------------------------------ C41
SCV = 'klayout_pex.klayout.shapes_pb2_converter.ShapesConverter'


def nonempty_net(net):
    """truth of a condition when the message has a net"""
    def f(t):
        if t is net:
            return True
        if t.op == 'cmp' and t.a[0] == '==' and t.a[1] is net and (is_const(t.a[2], '') or is_const(t.a[2], None)):
            return False
        return None
    return f


def flip(f):
    return lambda t: None if f(t) is None else not f(t)


def point_ok(v, p):
    return is_new(v, 'Point') and (cargs(v) == (T('attr', p, 'x'), T('attr', p, 'y')) or
                                   ckw(v) == {'x': T('attr', p, 'x'), 'y': T('attr', p, 'y')})


def hull_ok(e, v, pg):
    """the points of a message's hull"""
    items = list_items(e, v) if v is not None else None
    if not items or len(items) != 1:
        return False
    x, g, lp = items[0][:3]
    if unraised(e, [l for l in g]) and specialise(conj(g), lambda t: None) is not const(True) or not lp:
        return False
    l = lp[-1]
    return l.iter is attr(pg, 'hull_points') and not l.exits and point_ok(x, T('elem', l.iter, l.uid))


def plain_polygon(e, v, pg):
    return is_new(v, 'Polygon') and cargs(v) and hull_ok(e, cargs(v)[0], pg) and all(x.op == 'const' for x in cargs(v)[1:])


def with_net(e, v, cls, inner, net):
    if not (is_new(v, cls) and len(cargs(v)) == 2):
        return False
    b, d = cargs(v)
    ents = dict_entries(e, d)
    return inner(b) and ents is not None and len(ents) == 1 and is_const(ents[0][0], 'net') and ents[0][1] is net


def polygon_val(e, v, pg):
    """problem with a converted polygon, or None"""
    net = attr(pg, 'net')
    for has in (True, False):
        dec = nonempty_net(net) if has else flip(nonempty_net(net))
        x = pick(v, dec)
        if has and not with_net(e, x, 'PolygonWithProperties', lambda b: plain_polygon(e, b, pg), net):
            return f"with a net is {show(x)[:160]}"
        if not has and not (plain_polygon(e, x, pg) or with_net(e, x, 'PolygonWithProperties', lambda b: plain_polygon(e, b, pg), net)):
            return f"without net is {show(x)[:160]}"
    return None


@check('C41', 'value analysis of the converters: every coordinate, point, polygon and net property traced from source to target',
       'All fields of all elements are traced through the code for symbolic shapes; the semantics of klayout.db constructors is assumed.')
def c41(ctx: Ctx):
    q = f"{SCV}.klayout_point"
    e = ctx.analyse(q)
    p, = params(ctx, q)
    rs = results(e, lambda t: None)
    ctx.ob('to-shape', bool(rs) and all(point_ok(v, p) for _, v, _ in rs), q, f"is {[show(v)[:100] for _, v, _ in rs]}")
    q = f"{SCV}.klayout_polygon"
    e = ctx.analyse(q)
    pg, = params(ctx, q)
    for has in (True, False):
        f = nonempty_net(attr(pg, 'net'))
        rs = results(e, f if has else flip(f))
        bad = [b for g, v, _ in rs for b in [polygon_case(e, v, pg, has)] if b]
        ctx.ob('to-shape', bool(rs) and not bad, f"{q} {'net' if has else 'no net'}", f"{bad[:1]}")
    q = f"{SCV}.klayout_region"
    e = ctx.analyse(q)
    rg, = params(ctx, q)
    rs = results(e, lambda t: None)
    ok = len(rs) == 1 and is_new(rs[0][1], 'Region')
    if ctx.ob('to-shape', ok, q, 'does not return one region'):
        r = rs[0][1]
        if cargs(r):
            its = list_items(e, cargs(r)[0]) or []
            puts = [(x, g, lp, '') for x, g, lp, *_ in its]
        else:
            puts = [(ev.args[0], ev.guards, ev.loops, ev.loc) for ev in e.by_recv.get(r, []) if ev.kind == 'call' and ev.callee == '.insert']
        other = [ev for ev in e.by_recv.get(r, []) if ev.kind == 'call' and ev.callee not in ('.insert', '.enable_properties')]
        ok = len(puts) == 1 and len(puts[0][2]) == 1 and puts[0][2][0].iter is attr(rg, 'polygons') and not puts[0][2][0].exits and \
            not unraised(e, puts[0][1]) and not other
        if ctx.ob('to-shape', ok, q, 'not every polygon is converted once'):
            l = puts[0][2][0]
            bad = polygon_val(e, puts[0][0], T('elem', l.iter, l.uid))
            ctx.ob('to-shape', bad is None, f"{q} polygon", f"a polygon {bad}", puts[0][3])
    q = f"{SCV}.klayout_box"
    e = ctx.analyse(q)
    b, = params(ctx, q)
    want = tuple(attr(b, x) for x in ('lower_left.x', 'lower_left.y', 'upper_right.x', 'upper_right.y'))

    def pt(v, side):
        return is_new(v, 'Point') and cargs(v) == (attr(b, side + '.x'), attr(b, side + '.y'))

    def plain_box(v):
        return is_new(v, 'Box') and (cargs(v) == want or len(cargs(v)) == 2 and pt(cargs(v)[0], 'lower_left') and pt(cargs(v)[1], 'upper_right'))
    net = attr(b, 'net')
    for has in (True, False):
        f = nonempty_net(net)
        rs = results(e, f if has else flip(f))
        ok = bool(rs) and all(with_net(e, v, 'BoxWithProperties', plain_box, net) or not has and plain_box(v) for _, v, _ in rs)
        ctx.ob('to-shape', ok, f"{q} {'net' if has else 'no net'}", f"is {[show(v)[:160] for _, v, _ in rs]}")
    # --- messages
    q = f"{SCV}.klayout_point_to_pb"
    e = ctx.analyse(q)
    k, m = params(ctx, q)
    point_msg(ctx, Msg(e, m, (), (), ''), k, q)
    q = f"{SCV}.klayout_polygon_to_pb"
    e = ctx.analyse(q)
    k, m = params(ctx, q)
    polygon_msg(ctx, e, Msg(e, m, (), (), ''), k, (), q)
    q = f"{SCV}.klayout_region_to_pb"
    e = ctx.analyse(q)
    k, m = params(ctx, q)
    ms, mg = messages(e, attr(m, 'polygons'))
    ok = len(ms) == 1 and not mg and len(ms[0].loops) == 1 and ms[0].loops[0].iter in (k, call_(k, 'each')) and not ms[0].loops[0].exits and \
        not unraised(e, ms[0].guards)
    if ctx.ob('to-message', ok, q, 'not every polygon is converted once'):
        l = ms[0].loops[0]
        polygon_msg(ctx, e, ms[0], T('elem', l.iter, l.uid), (l,), q + ' polygon')


def call_(r, n, *a):
    return T('call', '.' + n, (r,) + a, ())


def polygon_case(e, v, pg, has):
    net = attr(pg, 'net')
    full = with_net(e, v, 'PolygonWithProperties', lambda b: plain_polygon(e, b, pg), net)
    return None if full or not has and plain_polygon(e, v, pg) else f"is {show(v)[:160]}"


def point_msg(ctx, m, k, q):
    for f in 'xy':
        v = m.val(f)
        ctx.ob('to-message', v in (T('attr', k, f), T('call', 'int', (T('attr', k, f),), ())), f"{q} {f}",
               f"is {show(v)[:100] if v is not None else 'unset'}", m.loc)


def polygon_msg(ctx, e, m, k, loops, q):
    prop = call_(k, 'property', const('net'))
    for has in (True, False):
        def dec(t, has=has):
            if t is prop:
                return has
            if t.op == 'cmp' and t.a[0] == '==' and t.a[1] is prop and (is_const(t.a[2], None) or is_const(t.a[2], '')):
                return not has
            return None
        vs = []
        for g, v, ev in m.assignments('net'):
            x = specialise(conj(unraised(e, g)), dec)
            if x is not const(False):
                vs.append((x, pick(v, dec) if v is not None else None))
        names = (prop, T('fstr', prop), T('call', 'str', (prop,), ()))
        if has:
            ok = len(vs) == 1 and vs[0][0] is const(True) and vs[0][1] in names
        else:
            ok = all(v is not None and is_const(v, '') for _, v in vs)
        ctx.ob('to-message', ok, f"{q} {'net' if has else 'no net'}", f"is {[show(v)[:100] for _, v in vs if v is not None]}", m.loc)
    ps, mg = messages(e, attr(m.t, 'hull_points'))
    for holes in (True, False):
        def dec(t, holes=holes):
            h = call_(k, 'holes')
            if t is h:
                return holes
            if t.op == 'cmp' and h in t.a[1:]:
                o = t.a[2] if t.a[1] is h else t.a[1]
                if is_const(o, 0):
                    return holes if t.a[0] == '<' else not holes
                if is_const(o, 1) and t.a[0] == '<':
                    return not holes
            return None
        act = [p for p in ps if specialise(conj(unraised(e, p.guards)), dec) is not const(False)]
        where = f"{q} {'holes' if holes else 'hull'}"
        ok = len(act) == 1 and not mg and specialise(conj(unraised(e, act[0].guards)), dec) is const(True) and \
            act[0].loops[:-1] == loops and len(act[0].loops) == len(loops) + 1 and not act[0].loops[-1].exits
        src = [call_(call_(k, 'resolved_holes'), 'each_point_hull')] + ([] if holes else [call_(k, 'each_point_hull')])
        it = pick(act[0].loops[-1].iter, dec) if ok and act[0].loops[-1].iter is not None else None
        if it is not None and it.op == 'call' and it.a[0] == '.each_point_hull':
            it = call_(pick(cargs(it)[0], dec), 'each_point_hull')
        if ctx.ob('to-message', ok and it in src, where, 'does not hold every point of the outline once', act[0].loc if act else ''):
            l = act[0].loops[-1]
            point_msg(ctx, act[0], T('elem', l.iter, l.uid), where)


# ------------------------------------------------------------------------------------------------ C42
ENV = 'klayout_pex.env.Env'
EV = 'klayout_pex.env.EnvVar'
DOCUMENTED = {'KPEX_FASTCAP_EXE': 'fastcap', 'KPEX_FASTERCAP_EXE': 'FasterCap', 'KPEX_KLAYOUT_EXE': 'klayout', 'KPEX_MAGIC_EXE': 'magic',
              'PDKPATH': None, 'PDK': None}
USED_AS = {'KPEX_FASTCAP_EXE': 'fastcap_exe_path', 'KPEX_FASTERCAP_EXE': 'fastercap_exe_path', 'KPEX_KLAYOUT_EXE': 'klayout_exe_path',
           'KPEX_MAGIC_EXE': 'magic_exe_path'}


def enum_members(ctx, qual):
    c = ctx.prog.classes.get(qual)
    ctx.need(c is not None, f"{qual} is gone")
    out = {}
    for s in c.node.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
            out[s.targets[0].id] = s.value.value
    return out


def is_environ(t):
    return t.op == 'ref' and t.a[0] == 'os.environ'


def env_read(t):
    """key of a read of the environment, default"""
    if is_call(t, 'os.environ.get', 'os.getenv') and cargs(t):
        a = [x for x in cargs(t) if not is_environ(x)]
        return a[0], a[1] if len(a) > 1 else ckw(t).get('default', const(None))
    if is_call(t, '.get') and is_environ(cargs(t)[0]):
        return cargs(t)[1], cargs(t)[2] if len(cargs(t)) > 2 else const(None)
    if t.op == 'item' and is_environ(t.a[0]):
        return t.a[1], None
    return None


@check('C42', 'value analysis of Env/EnvVar and of the options that use them; query for unguarded reads of the environment',
       'The enumeration, its defaults, its documentation and its uses in the program are compared with each other and with the documented table; every variable, set or not.')
def c42(ctx: Ctx):
    mem = enum_members(ctx, EV)
    for n, v in mem.items():
        ctx.ob('names', list(mem.values()).count(v) == 1, f"{EV}.{n}", f"shares the variable {v} with another member")
    for v in DOCUMENTED:
        ctx.ob('names', v in mem.values(), f"{EV} {v}", 'the documented variable is not read')
    # defaults
    dq = f"{EV}.default_value"
    e = ctx.analyse(dq)
    me = P('self')
    for n, v in mem.items():
        ref = T('ref', f"{EV}.{n}")

        def dec(t, ref=ref, v=v):
            if t.op == 'cmp' and t.a[0] == '==' and t.a[1] in (me, T('attr', me, 'value'), T('attr', me, 'name')):
                o = t.a[2]
                if o.op == 'ref':
                    return o is ref
                if o.op == 'const':
                    return o.a[0] == (ref.a[0].split('.')[-1] if is_attr(t.a[1], 'name') else v)
            if t.op == 'cmp' and t.a[0] == '==' and any(x.op == 'ref' and x.a[0] == 'os.name' for x in t.a[1:]):
                return False
            return None
        rs = results(e, dec)
        if v in DOCUMENTED:
            ctx.ob('default', len(rs) == 1 and rs[0][0] is const(True) and is_const(rs[0][1], DOCUMENTED[v]), f"{dq} {n}",
                   f"is {[show(x) for _, x, _ in rs]} instead of {DOCUMENTED[v]!r}")
        else:
            ctx.ob('default', len(rs) == 1, f"{dq} {n}", 'there is no default')
    # the documentation names each variable with its own default
    hq = f"{EV}.help_epilog_table"
    if hq in ctx.prog.funcs:
        e = ctx.analyse(hq, opaque=[dq])
        rs = top_returns(e)
        rows = []
        for ev in rs:
            t = ev.args[0]
            parts = [x.a[0] if x.op == 'const' else x for x in (t.a if t.op == 'fstr' else (t,))]
            row = []
            for x in parts:
                if isinstance(x, str):
                    ls = x.split('\n')
                    row.append(ls[0])
                    for y in ls[1:]:
                        rows.append(row)
                        row = [y]
                else:
                    row.append(x)
            rows.append(row)
        for n, v in mem.items():
            mine = [r for r in rows if isinstance(r[0], str) and r[0].strip().lstrip('|').strip().split(' ')[0] == v]
            ok = len(mine) == 1
            d = DOCUMENTED.get(v)
            if ok and d is not None:
                own = T('call', dq, (T('ref', f"{EV}.{n}"),), ())
                ts = [x for x in mine[0] if isinstance(x, T)]
                ok = ts == [own] or not ts and d in mine[0][0]
            ctx.ob('documented', ok, f"{hq} {v}", 'the variable is not documented with its own default')
    # reading
    q = f"{ENV}.from_os_environ"
    e = ctx.analyse(q, opaque=[dq])
    rs = results(e, lambda t: None)
    data = slot = None
    if len(rs) == 1 and is_new(rs[0][1], 'Env'):
        st = [ev for ev in e.by_recv.get(rs[0][1], []) if ev.kind == 'store']
        data = st[0].args[0] if len(st) == 1 else None
        slot = st[0].callee if len(st) == 1 else None
    if ctx.ob('read', data is not None, q, 'does not return one environment'):
        ents = dict_entries(e, data) or []
        ok = bool(ents) and all(len(lp) == 1 and lp[0].iter is not None and not lp[0].exits and
                                (is_ref(lp[0].iter, 'EnvVar') or is_call(lp[0].iter, 'list', 'iter', 'tuple') and is_ref(cargs(lp[0].iter)[0], 'EnvVar'))
                                for *_, lp in ents)
        if ctx.ob('read', ok, q, 'not every variable is read'):
            for has in (True, False):
                vs = []
                for k, v, g, lp in ents:
                    el = T('elem', lp[0].iter, lp[0].uid)
                    names = (el, T('attr', el, 'value'), T('fstr', el), T('call', 'str', (el,), ()))

                    def dec(t):
                        if t.op == 'cmp' and t.a[0] == '==' and is_const(t.a[2], None) and env_read(t.a[1]) and \
                                env_read(t.a[1])[0] in names and env_read(t.a[1])[1] is const(None):
                            return not has
                        if t.op == 'cmp' and t.a[0] == 'in' and t.a[1] in names and is_environ(t.a[2]):
                            return has
                        return None
                    x = specialise(conj(unraised(e, g)), dec)
                    if x is not const(False):
                        vs.append((x, k, pick(v, dec), el, names))
                # the last store wins
                ok = bool(vs) and any(x is const(True) for x, *_ in vs) and all(k is el for _, k, _, el, _ in vs)
                x, k, v, el, names = vs[-1] if vs else (None,) * 5
                if ok:
                    r = env_read(v)
                    own = T('call', dq, (el,), ())
                    if has:
                        ok = x is const(True) and r is not None and r[0] in names
                    else:
                        ok = x is const(True) and (v is own or r is not None and r[0] in names and r[1] is own)
                ctx.ob('read', ok, f"{q} {'set' if has else 'not set'}",
                       f"the value is {show(v)[:120] if v is not None else '?'}, not {'the one of the variable' if has else 'its default'}")
        gq = f"{ENV}.__getitem__"
        e = ctx.analyse(gq)
        k, = params(ctx, gq)
        rs = results(e, lambda t: None)
        d = T('attr', me, slot)
        ctx.ob('read', len(rs) == 1 and rs[0][1] in (T('item', d, k), call_(d, 'get', k)), gq, 'does not return the value of the variable')
    # use
    cq = 'klayout_pex.kpex_cli.KpexCLI.parse_args'
    e = ctx.analyse(cq, opaque=['klayout_pex.util', 'klayout_pex.env'])
    envs = params(ctx, cq)
    for var, dest in USED_AS.items():
        n = [k for k, v in mem.items() if v == var]
        st = [ev for ev in e.events if ev.kind == 'store' and ev.callee == dest]
        ok = len(st) == 1 and n and not st[0].guards and st[0].args[0] in [
            T('item', x, T('ref', f"{EV}.{n[0]}")) for y in envs for x in (y, T('attr', y, slot))]
        ctx.ob('use', ok, f"{cq} {dest}", f"is {[show(ev.args[0])[:100] for ev in st]}, not the value of {var}", st[0].loc if st else '')
    made = [ev for ev in calls(e, 'add_argument') if any(is_const(a, '--magicrc') for a in ev.args)]
    ds = [ev.kw.get('default') for ev in made]
    if ctx.ob('use', len(ds) == 1 and ds[0] is not None, f"{cq} --magicrc", 'has no default'):
        for p in (True, False):
            for k in (True, False):
                have = {'PDKPATH': p, 'PDK': k}

                def dec(t):
                    if t.op == 'cmp' and t.a[0] == '==' and is_const(t.a[2], None) and env_read(t.a[1]) and env_read(t.a[1])[0].op == 'const':
                        x = have.get(env_read(t.a[1])[0].a[0])
                        return None if x is None else not x
                    if t.op == 'cmp' and t.a[0] == 'in' and is_environ(t.a[2]) and t.a[1].op == 'const':
                        return have.get(t.a[1].a[0])
                    if env_read(t) and env_read(t)[0].op == 'const':
                        return have.get(env_read(t)[0].a[0])
                    return None
                v = pick(ds[0], dec)
                reads = [env_read(x) for x in subterms(v) if env_read(x)]
                if p and k:
                    ok = {r[0].a[0] for r in reads if r[0].op == 'const'} == {'PDKPATH', 'PDK'}
                else:
                    ok = is_const(v, None)
                ctx.ob('use', ok, f"{cq} --magicrc {'PDKPATH ' if p else ''}{'PDK' if k else ''}",
                       f"is {show(v)[:160]} if only {[n for n, x in have.items() if x] or 'nothing'} is set", made[0].loc)
    # a variable that is not set never stops the program
    for f in ctx.prog.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Attribute) and n.value.attr == 'environ':
                key = ast.dump(n.slice)
                ok = any(guards_key(p, n, key) for p in ast.walk(f.node))
                ctx.ob('unset', ok, f"{f.qual} {ast.unparse(n)}", 'stops the program if the variable is not set', f"{f.module.path}:{n.lineno}"
                       if hasattr(f.module, 'path') else '')


def guards_key(p, n, key):
    """this condition, around the read, looks at the same variable"""
    if isinstance(p, (ast.If, ast.IfExp, ast.BoolOp)):
        inside = any(x is n for b in (p.body if isinstance(p, ast.If) else [p]) for x in ast.walk(b))
        test = p.test if not isinstance(p, ast.BoolOp) else p.values[0]
        return inside and not any(x is n for x in ast.walk(test)) and key in [ast.dump(x) for x in ast.walk(test)]
    if isinstance(p, ast.Try):
        return any(x is n for b in p.body for x in ast.walk(b)) and any('KeyError' in ast.dump(h) for h in p.handlers)
    return False


# ------------------------------------------------------------------------------------------------ C43
MCP = 'klayout_pex.util.multiple_choice.MultipleChoicePattern'
NORMS = {'.lower': 'case', '.casefold': 'case', '.strip': 'space'}


def normalised(t, base):
    """set of normalisations between base and t, or None"""
    out = set()
    while t is not base:
        if t.op == 'call' and t.a[0] in NORMS and len(cargs(t)) == 1:
            out.add(NORMS[t.a[0]])
            t = cargs(t)[0]
        else:
            return None
    return out


class Pattern:
    """what the lists that a pattern is split into hold"""

    def __init__(self, e, pat):
        self.e, self.pat = e, pat

    def kind(self, t):
        """('all'|'included'|'excluded', normalisations) of a collection"""
        while t.op == 'call' and t.a[0] in ('set', 'list', 'tuple', 'frozenset', 'sorted') and len(cargs(t)) == 1:
            t = cargs(t)[0]
        its = list_items(self.e, t) if t.op in ('comp', 'lit') else None
        if t.op == 'comp' and its is None:
            c = self.e.comps[t.a[1]]
            its = [(c['elt'], c['guards'], c['loops'])]
        if not its or len(its) != 1 or len(its[0][2]) != 1:
            return None
        v, g, (l,) = its[0][:3]
        if l.iter is None or l.exits and any(k != 'raise' for k, *_ in l.exits):
            return None
        it = l.iter
        if not (is_call(it, '.split') and cargs(it)[0] is self.pat and (list(cargs(it)[1:]) + list(ckw(it).values()))[:1] == [const(',')] and
                len(cargs(it)) + len(ckw(it)) == 2):
            return None
        el = T('elem', it, l.uid)
        n = normalised(v, el)
        g = unraised(self.e, g)
        if n is not None and not g:
            return 'all', n
        # behind the sign
        w, extra = v, set()
        while w.op == 'call' and w.a[0] in NORMS and len(cargs(w)) == 1:
            extra.add(NORMS[w.a[0]])
            w = cargs(w)[0]
        base = None
        if w.op == 'slice' and is_const(w.a[1], 1) and all(is_const(x, None) for x in w.a[2:]):
            base = w.a[0]
        elif is_call(w, '.removeprefix'):
            base = cargs(w)[0]
        if base is None:
            return None
        n = normalised(base, el)
        if n is None:
            return None
        for sign, name in (('+', 'included'), ('-', 'excluded')):
            if all(self.sign(t, el) == (sign, p) or self.sign(t, el) and self.sign(t, el)[0] != sign and self.sign(t, el)[1] != p for t, p in g) and \
                    any(self.sign(t, el) == (sign, p) for t, p in g):
                return name, n | extra
        return None

    def sign(self, t, el):
        """(sign, True) if t says that the component starts with the sign"""
        if is_call(t, '.startswith') and cargs(t)[1].op == 'const' and normalised(cargs(t)[0], el) is not None and 'space' in normalised(cargs(t)[0], el):
            return cargs(t)[1].a[0], True
        if t.op == 'cmp' and t.a[0] == '==':
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if y.op == 'const' and x.op in ('item', 'slice') and normalised(x.a[0], el) is not None and 'space' in normalised(x.a[0], el) and \
                        (is_const(x.a[1], 0) and x.op == 'item' or x.op == 'slice' and (is_const(x.a[1], 0) or is_const(x.a[1], None)) and is_const(x.a[2], 1)):
                    return y.a[0], True
        return None

    def atom(self, t, choice):
        """('all'|'none'|'included'|'excluded'|'any included'|'any excluded', problem)"""
        if t.op == 'cmp' and t.a[0] == 'in':
            k = self.kind(t.a[2])
            if k is None:
                return None
            if k[0] == 'all' and t.a[1].op == 'const' and t.a[1].a[0] in ('all', 'none'):
                return t.a[1].a[0], None if k[1] >= {'case', 'space'} else f"components are compared with '{t.a[1].a[0]}' as they are written"
            if k[0] != 'all' and choice is not None:
                n = normalised(t.a[1], choice)
                if n is not None:
                    return k[0], None if ('case' in n) == ('case' in k[1]) else 'names in the pattern and choices are compared with different case'
            return None
        k = self.kind(t) if t.op in ('comp', 'lit', 'call') else None
        if k and k[0] != 'all':
            return 'any ' + k[0], None
        return None


@check('C43', 'decision tables of filter(), is_included() and the constructor over all pattern forms, from extracted conditions',
       'Every combination of all/none/included/excluded is decided for a symbolic choice.')
def c43(ctx: Ctx):
    pat = P('init.' + [x for x in ctx.prog.funcs[f"{MCP}.__init__"].params if x != 'self'][0])
    wrong = []
    for fn in ('is_included', 'filter'):
        q = f"{MCP}.{fn}"
        e = ctx.analyse(q, init=True)
        arg, = params(ctx, q)
        pt = Pattern(e, pat)
        if fn == 'filter':
            rs = top_returns(e)
            cases = []
            for ev in rs:
                for c, v in gated_leaves(ev.args[0] if ev.args else const(None)):
                    its = list_items(e, v)
                    if its is None and v.op == 'comp':
                        cc = e.comps[v.a[1]]
                        its = [(cc['elt'], cc['guards'], cc['loops'])]
                    ok = its is not None and all(len(lp) == 1 and lp[0].iter is arg and all(k in ('continue', 'raise') for k, *_ in lp[0].exits) and
                                                 x is T('elem', arg, lp[0].uid) for x, g, lp, *_ in its)
                    if not ctx.ob('filter', ok, q, 'the result is not a part of the choices, in their order', ev.loc):
                        return
                    cases.append((list(unraised(e, ev.guards)) + list(c), its))
        for has_all in (True, False):
            for has_none in ((False,) if has_all else (True, False)):
                for inc in (True, False):
                    for exc in (True, False):
                        if has_all and inc or has_none and exc:
                            continue        # rejected, see below, or a choice that cannot be named in it
                        truth = {'all': has_all, 'none': has_none, 'included': inc, 'excluded': exc}
                        if inc:
                            truth['any included'] = True
                        if exc:
                            truth['any excluded'] = True
                        if has_all:
                            truth['any included'] = False
                        if has_none:
                            truth['any excluded'] = False

                        def dec(t, choice):
                            a = pt.atom(t, choice)
                            if a is None:
                                return None
                            if a[1] and (fn, a[1]) not in wrong:
                                wrong.append((fn, a[1]))
                            return truth.get(a[0])
                        want = not exc if has_all else inc
                        where = f"{q} {'all' if has_all else 'none' if has_none else ''}{' included' if inc else ''}{' excluded' if exc else ''}"
                        if fn == 'is_included':
                            rs = results(e, lambda t: dec(t, arg))
                            vs = [specialise(v, lambda t: dec(t, arg)) for _, v, _ in rs]
                            ok = len(vs) == 1 and vs[0] is const(want)
                            ctx.ob('selects', ok, where, f"is {[show(v)[:100] for v in vs]} instead of {want}")
                        else:
                            got = []
                            for g, its in cases:
                                if specialise(conj(g), lambda t: dec(t, None)) is const(False):
                                    continue
                                for x, gi, lp, *_ in its:
                                    got.append(specialise(conj(list(g) + list(gi)), lambda t: dec(t, T('elem', arg, lp[0].uid))))
                            got = [x for x in got if x is not const(False)]
                            ok = got == [const(True)] if want else not got
                            ctx.ob('selects', ok, where, f"the choice is {'not ' if want else ''}in the result" +
                                   (f" if {show(got[0])[:100]}" if got else ''))
    for fn, w in wrong or [(None, None)]:
        ctx.ob('compare', fn is None, f"{MCP}.{fn}", w or '')
    # contradictory patterns are rejected
    q = f"{MCP}.__init__"
    e = ctx.analyse(q)
    pt = Pattern(e, P(pat.a[0][5:]))
    tried = {id(x) for fq in {c for ev in e.events for c in ev.ctx if c in ctx.prog.funcs} for t in ast.walk(ctx.prog.funcs[fq].node)
             if isinstance(t, ast.Try) and t.handlers for b in t.body for x in ast.walk(b)}
    raised = [ev for ev in e.events if ev.kind == 'raise' and id(ev.node) not in tried]
    for has_all in (True, False):
        for has_none in (True, False):
            for inc in (True, False):
                for exc in (True, False):
                    truth = {'all': has_all, 'none': has_none, 'any included': inc, 'any excluded': exc}

                    def dec(t):
                        a = pt.atom(t, None)
                        if a is None and t.op == 'attr' and t.a[0] is P('self'):
                            return None
                        return truth.get(a[0]) if a else None
                    gs = [specialise(conj(ev.guards), dec) for ev in raised]
                    want = has_all and has_none or has_none and exc or has_all and inc
                    ok = any(g is const(True) for g in gs) if want else all(g is const(False) for g in gs)
                    ctx.ob('contradictions', ok, f"{q} {truth}", 'a contradictory pattern is accepted' if want else 'a valid pattern is rejected')


# ------------------------------------------------------------------------------------------------ C44
ARG = 'klayout_pex.util.argparse_helpers'
TRUE_WORDS, FALSE_WORDS = ('yes', 'true', 't', 'y', '1'), ('no', 'false', 'f', 'n', '0')


@check('C44', 'constant propagation of every documented spelling and of every other literal through the parser; decision table of the help text',
       'The documented spellings in three cases, the booleans, every other literal in the code and a spelling that occurs nowhere are each propagated through the code.')
def c44(ctx: Ctx):
    q = f"{ARG}.true_or_false"
    a, = params(ctx, q)
    e = ctx.analyse(q)
    lits = {t.a[0] for ev in e.events for x in [y for y, _ in ev.guards] + list(ev.args) for t in subterms(x)
            if t.op == 'const' and isinstance(t.a[0], str) and len(t.a[0]) < 12}
    words = [(w, True) for w in TRUE_WORDS] + [(w, False) for w in FALSE_WORDS]
    cases = [(f(w), r) for w, r in words for f in (str.lower, str.upper, str.capitalize)] + [(True, True), (False, False)]
    others = ['', 'maybe', '2', 'yes no'] + sorted(x for x in lits if x.lower() not in dict(words)) + sorted(w[:-1] for w, _ in words if len(w) > 2 and w[:-1] not in dict(words))
    seen = set()
    for v, want in cases + [(o, None) for o in others]:
        if (v, type(v)) in seen:
            continue
        seen.add((v, type(v)))
        e = ctx.analyse(q, args={a.a[0]: const(v)})
        rs = [(g, x) for g, x, ev in results(e, lambda t: None)]
        if want is None:
            ctx.ob('boolean', not rs, f"{q} {v!r}", f"is accepted as {[show(x) for _, x in rs]}")
        else:
            ok = len(rs) == 1 and rs[0][0] is const(True) and is_const(rs[0][1], want)
            ctx.ob('boolean', ok, f"{q} {v!r}", f"is {[show(x) for _, x in rs] or 'rejected'} instead of {want}")
    # the rejection is one that argparse reports
    e = ctx.analyse(q, args={a.a[0]: const('maybe')})
    rz = [ev for ev in e.events if ev.kind == 'raise']
    ok = bool(rz) and all(ev.args and is_new(ev.args[0]) and ev.args[0].a[0].split('.')[-1] in ('ArgumentTypeError', 'ValueError', 'TypeError') for ev in rz)
    ctx.ob('boolean', ok, f"{q} error", 'is not one that the option parser reports')
    # help
    q = f"{ARG}.render_enum_help"
    e = ctx.analyse(q)
    topic, cls, pd, low = params(ctx, q)
    isstr = lambda t: is_call(t, 'issubclass') and cargs(t)[0] is cls and is_ref(cargs(t)[1], 'StrEnum')
    hasd = lambda t: is_call(t, 'hasattr') and cargs(t) == (cls, const('DEFAULT'))
    for strenum in (True, False):
        for lower in (True, False):
            for prt in (True, False):
                for has in (True, False):
                    def dec(t):
                        if isstr(t):
                            return strenum
                        if hasd(t):
                            return has
                        return {low: lower, pd: prt}.get(t)
                    where = f"{q} {'StrEnum' if strenum else 'Enum'}{' lowercase' if lower else ''}{' default' if prt and has else ''}"
                    rs = results(e, dec)
                    if not ctx.ob('help', len(rs) == 1 and rs[0][1].op == 'fstr', where, 'is not one text'):
                        continue
                    parts = list(rs[0][1].a)
                    ctx.ob('help', parts and parts[0] is topic, where, 'does not name the option')
                    js = [x for x in parts if is_call(x, '.join')]
                    its = list_items(e, cargs(js[0])[1]) if len(js) == 1 else None
                    if its is None and len(js) == 1 and cargs(js[0])[1].op == 'comp':
                        cc = e.comps[cargs(js[0])[1].a[1]]
                        its = [(cc['elt'], cc['guards'], cc['loops'])]
                    ok = its is not None and len(its) == 1 and len(its[0][2]) == 1
                    if ctx.ob('help', ok, where, 'does not list the members'):
                        v, g, (l,) = its[0][:3]
                        M = T('attr', cls, '__members__')
                        src = l.iter is M or l.iter is call_(M, 'items')
                        k, m = T('key', M, l.uid), T('val', M, l.uid)
                        ctx.ob('help', src and not [x for x in l.exits if x[0] == 'break'], where, 'does not list every member', '')

                        def guard(isdef):
                            def f(t):
                                if t.op == 'cmp' and t.a[0] == '==' and t.a[1] in (call_(k, 'lower'), k) and t.a[2].op == 'const' and \
                                        isinstance(t.a[2].a[0], str) and t.a[2].a[0].lower() == 'default':
                                    return isdef
                                return dec(t)
                            return f
                        ctx.ob('help', specialise(conj(g), guard(False)) is const(True), where, f"a member is only listed if {show(conj(g))[:100]}")
                        v = spec_text(v, guard(False))
                        want = (call_(m, 'lower') if lower else m) if strenum else call_(k, 'lower')
                        alts = {want}
                        if strenum:
                            mv = T('attr', m, 'value')
                            alts |= {call_(mv, 'lower') if lower else mv}
                        ok = v is not None and [x for x in v if not isinstance(x, str)] and all(x in alts for x in v if not isinstance(x, str))
                        ctx.ob('help', ok, f"{where} member", f"is shown as {[x if isinstance(x, str) else show(x) for x in v or []]}")
                    dv = T('attr', cls, 'DEFAULT')
                    shown = [x for x in spec_text(rs[0][1], dec) or [] if not isinstance(x, str) and any(y is dv for y in subterms(x))]
                    if prt and has:
                        want = (call_(T('attr', dv, 'value'), 'lower') if lower else T('attr', dv, 'value')) if strenum else call_(T('attr', dv, 'name'), 'lower')
                        alts = {want} | ({call_(dv, 'lower') if lower else dv} if strenum else set())
                        ctx.ob('help', len(shown) == 1 and shown[0] in alts, f"{where} mark", f"the default is shown as {[show(x)[:80] for x in shown]}")
                    else:
                        ctx.ob('help', not shown, f"{where} mark", 'a default is shown')


def spec_text(t, dec):
    """parts of a text with some conditions decided"""
    if t.op == 'ite':
        t = pick(t, dec)
    if t.op == 'const':
        return [str(t.a[0])]
    if t.op == 'fstr':
        out = []
        for x in t.a:
            out += spec_text(x, dec)
        return out
    if t.op == 'call' and t.a[0].startswith('.') and any(isinstance(x, T) and x.op == 'ite' for x in cargs(t)):
        t = T('call', t.a[0], tuple(pick(x, dec) for x in cargs(t)), t.a[2])
    return [t]


# ------------------------------------------------------------------------------------------------ C46
RR = 'klayout_pex.klayout.repair_rdb'


class Broken(Exception):
    pass


def step(t, env, el, ch):
    """value of an update term for one character class: constants, ('W', suffix) words, booleans"""
    if t in env:
        return env[t]
    if t is el:
        return ('C', ch)
    if t.op == 'const':
        return t.a[0]
    if t.op == 'ite':
        return step(t.a[1] if truth(t.a[0], env, el, ch) else t.a[2], env, el, ch)
    if t.op == 'fstr' or t.op == 'bin' and t.a[0] == '+':
        xs = [step(x, env, el, ch) for x in (t.a if t.op == 'fstr' else t.a[1:])]
        out = None
        for x in xs:
            out = x if out is None else cat(out, x)
        return out
    if t.op in ('not', 'and', 'or', 'cmp'):
        return truth(t, env, el, ch)
    if t.op == 'call' and t.a[0] == '.join' and is_const(cargs(t)[0], ''):
        return step(cargs(t)[1], env, el, ch)
    raise Broken(show(t)[:80])


def cat(a, b):
    if isinstance(a, str):
        a = ('', (a,) if a else ())
    elif a[0] == 'C':
        a = ('', (a[1],))
    if isinstance(b, str):
        return (a[0], a[1] + ((b,) if b else ()))
    if b[0] == 'C':
        return (a[0], a[1] + (b[1],))
    raise Broken('concatenation')


def truth(t, env, el, ch):
    if t.op == 'not':
        return not truth(t.a[0], env, el, ch)
    if t.op == 'and':
        return all(truth(x, env, el, ch) for x in t.a)
    if t.op == 'or':
        return any(truth(x, env, el, ch) for x in t.a)
    if t.op == 'cmp' and t.a[0] == '==':
        a, b = step(t.a[1], env, el, ch), step(t.a[2], env, el, ch)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[0] == 'C' and isinstance(y, str):
                return x[1] == y
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Broken('comparison of words')
        return a == b
    if t.op == 'cmp' and t.a[0] == 'in':
        a, b = step(t.a[1], env, el, ch), step(t.a[2], env, el, ch)
        if isinstance(a, tuple) and a[0] == 'C' and isinstance(b, str):
            return a[1] in b
        raise Broken('membership')
    v = step(t, env, el, ch)
    if isinstance(v, tuple):
        raise Broken('truth of a word')
    return bool(v)


def reference(st, ch):
    """(next state, word operation, emitted)"""
    bs, q = st
    if ch == '\\':
        return ((False, q), 'add', False) if bs else ((True, q), 'keep', False)
    if ch == "'":
        return ((False, q), 'add', False) if bs else ((False, not q), 'keep', False)
    if ch == '.':
        return ((False, q), 'add', False) if bs or q else ((False, q), 'reset', True)
    return (False, q), 'add', False


@check('C46', 'bisimulation of the path splitter extracted as a transducer with a reference; effect and value analysis of the repair',
       'The splitter is compared for every state and character class, hence for every path of any length; the repair for every report.')
def c46(ctx: Ctx):
    splitter(ctx)
    repair(ctx)


def splitter(ctx):
    q = f"{RR}.parse_category_path"
    e = ctx.analyse(q)
    s, = params(ctx, q)
    ls = [l for l in e.loop_by_uid.values() if l.iter is not None and (l.iter is s or is_call(l.iter, 'enumerate', 'list', 'iter') and cargs(l.iter)[0] is s or
                                                                      is_call(l.iter, 'range') and cargs(l.iter)[-1] is call_len(s))]
    if not ctx.ob('split', len(ls) == 1 and not [x for x in ls[0].exits if x[0] in ('break', 'return')], q, 'does not look at each character once'):
        return
    l = ls[0]
    els = {T('elem', s, l.uid), T('elem', l.iter, l.uid)}
    el = T('elem', s, l.uid)
    mus = {t: e.mu_info[t] for t in e.mu_info if t.a[0] == l.uid and e.mu_info[t][0].op != 'undef'}
    rets = top_returns(e)
    L = rets[0].args[0] if len(rets) == 1 and rets[0].args else None
    if not ctx.ob('split', L is not None, q, 'does not return the components'):
        return
    # the updates depend on each other: only those that decide something
    emits = [(ev.args[0], ev.guards, ev) for ev in e.by_recv.get(L, []) if ev.kind == 'call' and ev.callee == '.append' and ev.loops == (l,)]
    last = [(ev.args[0], ev.guards, ev) for ev in e.by_recv.get(L, []) if ev.kind == 'call' and ev.callee == '.append' and ev.loops == ()]
    other = [ev for ev in e.by_recv.get(L, []) if ev.kind != 'load' and not (ev.kind == 'call' and ev.callee == '.append')]
    if not ctx.ob('split', emits and last and not other, q, 'components are not listed in order'):
        return
    words = [t for t, (i, u) in mus.items() if is_const(i, '')]
    if not ctx.ob('split', len(words) == 1 and all(v is words[0] or v.op != 'mu' for v, *_ in emits + last), q, 'there is no current component'):
        return
    w = words[0]
    states = {t: i.a[0] for t, (i, u) in mus.items() if t is not w and i.op == 'const'}
    start = tuple(sorted(((show(t), v) for t, v in states.items()), key=repr))
    by = {show(t): t for t in states}
    todo, done = [(start, (False, False))], set()
    n = 0
    try:
        while todo:
            st, ref = todo.pop()
            if (st, ref) in done:
                continue
            done.add((st, ref))
            if len(done) > 200:
                raise Broken('too many states')
            env = {by[k]: v for k, v in st}
            env[w] = ('W', ())
            for ch in ('.', '\\', "'", 'a', ' '):
                n += 1
                for x in els:
                    env[x] = ('C', ch)
                nref, op, emit = reference(ref, ch)
                got = [step(v, env, el, ch) for v, g, ev in emits if all(truth(t, env, el, ch) is p for t, p in unraised(e, g))]
                word = step(mus[w][1], env, el, ch)
                want = {'add': ('W', (ch,)), 'keep': ('W', ()), 'reset': ''}[op]
                where = f"{q} {'escaped ' if ref[0] else ''}{'quoted ' if ref[1] else ''}{ch!r}"
                ctx.ob('split', got == ([('W', ())] if emit else []), where,
                       'the component does not end here' if emit else 'a component ends here', emits[0][2].loc)
                ctx.ob('split', word == want or op == 'reset' and word == ('', ()), where, f"the component becomes {word}, not {want}")
                todo.append((tuple(sorted(((show(t), step(mus[t][1], env, el, ch)) for t in states), key=repr)), nref))
    except Broken as x:
        ctx.ob('split', False, q, f"the splitter cannot be followed: {x}")
        return
    # the rest
    v, g, ev = last[0]
    ne = lambda t: True if t is w or t.op == 'cmp' and is_const(t.a[2], '') and False else (False if t.op == 'cmp' and t.a[0] == '==' and t.a[1] is w and is_const(t.a[2], '') else None)
    ctx.ob('split', len(last) == 1 and v is w and specialise(conj(unraised(e, g)), ne) is const(True) and
           specialise(conj(unraised(e, g)), flip(ne)) is const(False), f"{q} end", 'the last component is not listed exactly if there is one', ev.loc)


def call_len(s):
    return T('call', 'len', (s,), ())


def repair(ctx):
    q = f"{RR}.repair_rdb"
    e = ctx.analyse(q, opaque=[f"{RR}.parse_category_path"])
    p, = params(ctx, q)
    # the original is only read
    opened = []
    for ev in e.events:
        if ev.kind != 'call':
            continue
        vals = list(ev.args) + list(ev.kw.values()) + ([ev.recv] if ev.recv is not None else [])
        if not any(path_root(v) is p for v in vals if v is not None):
            continue
        n = ev.callee.split('.')[-1]
        if n == 'open':
            mode = ev.kw.get('mode', ev.args[1] if len(ev.args) > 1 and path_root(ev.args[0]) is p else ev.args[0] if ev.args and path_root(ev.args[0]) is not p else const('r'))
            ctx.ob('original', mode.op == 'const' and not set(str(mode.a[0])) & set('wax+'), f"{q} open", f"the original is opened with {show(mode)}", ev.loc)
            opened.append(ev)
        elif n in ('remove', 'unlink', 'rename', 'replace', 'move', 'copy', 'copyfile', 'copy2', 'write', 'save', 'write_text', 'write_bytes', 'truncate', 'rmtree'):
            src = n in ('copy', 'copyfile', 'copy2') and path_root(ev.args[0]) is p and not any(path_root(a) is p for a in ev.args[1:])
            ctx.ob('original', src, f"{q} {n}", 'the original is changed', ev.loc)
    ctx.ob('original', bool(opened), q, 'the original is not read')
    # gz or plain
    for gz in (True, False):
        def dec(t):
            if t.op == 'cmp' and t.a[0] == '==' and is_const(t.a[2], '.gz'):
                return gz
            if is_call(t, '.endswith') and is_const(cargs(t)[1], '.gz'):
                return gz
            return None
        act = [ev for ev in opened if specialise(conj(unraised(e, ev.guards)), dec) is not const(False)]
        ok = len(act) == 1 and (act[0].callee.startswith('gzip')) is gz
        where = f"{q} {'compressed' if gz else 'plain'} report"
        if not ctx.ob('read', ok, where, 'is not opened in its format'):
            continue
        trees = [ev for ev in e.events if ev.kind == 'call' and ev.callee.split('.')[-1] == 'parse' and ev.args and pick(ev.args[0], dec) is act[0].result and
                 specialise(conj(unraised(e, ev.guards)), dec) is const(True)]
        if not ctx.ob('read', len(trees) == 1, where, 'is not parsed'):
            continue
        tree = trees[0].result
        root = call_(tree, 'getroot')
        wr = [ev for ev in e.events if ev.kind == 'call' and ev.callee == '.write' and ev.recv is tree and specialise(conj(unraised(e, ev.guards)), dec) is not const(False)]
        ok = len(wr) == 1 and specialise(conj(unraised(e, wr[0].guards)), dec) is const(True) and wr[0].loops == ()
        if ctx.ob('write', ok, where, 'is not written exactly once'):
            t = pick(wr[0].args[0], dec)
            parts = list(t.a) if t.op == 'fstr' else list(t.a[1:]) if t.op == 'bin' and t.a[0] == '+' else []
            ok = len(parts) >= 2 and parts[0] is p and all(x.op == 'const' for x in parts[1:]) and any(x.a[0] for x in parts[1:])
            ctx.ob('write', ok, where, f"is written to {show(t)[:80]}, not to a file beside the original", wr[0].loc)
        walk(ctx, e, root, dec, where, wr[0] if wr else None)


def walk(ctx, e, root, dec, where, wr):
    lives = lambda ev: specialise(conj(unraised(e, ev.guards)), dec) is not const(False)
    pc = [ev for ev in e.events if ev.kind == 'call' and ev.callee == f"{RR}.parse_category_path" and lives(ev)]
    ok = len(pc) == 1 and len(pc[0].loops) == 1 and pc[0].loops[0].iter is not None
    if not ctx.ob('complete', ok, where, 'the category paths are not looked at'):
        return
    # the paths are those of all items
    base = origin(e, pc[0].args[0])
    ok = base is not None and base[0].op == 'attr' and base[0].a[1] == 'text' and base[0].a[0].op == 'elem' and not base[1]
    it = base[0].a[0].a[0] if ok else None
    ok = ok and is_call(it, '.findall', '.iterfind') and cargs(it)[0] is root and cargs(it)[1].op == 'const' and \
        cargs(it)[1].a[0].lstrip('./') in ('items/item/category',)
    ctx.ob('complete', ok, where, 'not the category of every item is looked at', pc[0].loc)
    # components, from the root downwards
    new = [ev for ev in e.events if ev.kind == 'call' and ev.callee.split('.')[-1] == 'SubElement' and lives(ev) and len(ev.args) > 1 and is_const(ev.args[1], 'category')]
    if not ctx.ob('complete', len(new) == 1 and len(new[0].loops) == 2, where, 'missing categories are not created component by component'):
        return
    n = new[0]
    out, inn = n.loops
    ok = inn.iter is not None and (inn.iter is pc[0].result or o2(e, inn.iter) is pc[0].result) and not [x for x in list(inn.exits) + list(out.exits) if x[0] in ('break', 'return', 'continue')]
    ctx.ob('complete', ok, where, 'not every component of every path is created', n.loc)
    comp = T('elem', inn.iter, inn.uid)
    par = n.args[0]
    ok = is_call(par, '.find') and cargs(par)[1].op == 'const' and cargs(par)[1].a[0].lstrip('./') == 'categories'
    cur = cargs(par)[0] if ok else None
    ok = ok and cur.op == 'mu' and cur in e.mu_info and cur.a[0] == inn.uid
    if not ctx.ob('complete', ok, where, 'a category is not created below the one of the component before', n.loc):
        return
    init, upd = e.mu_info[cur]
    ctx.ob('complete', init is root or pick(init, dec) is root, where, 'a path does not start at the root', n.loc)

    def found(yes):
        def f(t):
            v = dec(t)
            if v is not None:
                return v
            if t.op == 'exists' and search(t.a[0], par) and named(t.a[2] if len(t.a) > 2 else None, comp):
                return yes
            if t.op == 'cmp' and t.a[0] == '==' and is_const(t.a[2], None):
                x = t.a[1]
                if x.op == 'elem' and search(x.a[0], par):
                    return False
                if x.op == 'mu' and x in e.mu_info and is_const(e.mu_info[x][0], None):
                    return not yes
            if is_call(t, '.find', '.findall') and False:
                return yes
            return None
        return f
    g = [l for l in unraised(e, n.guards)]
    ctx.ob('complete', specialise(conj(g), found(False)) is const(True) and specialise(conj(g), found(True)) is const(False), where,
           f"a category is created if {show(specialise(conj(g), found(False)))[:160]}, not exactly if there is none of its name", n.loc)
    a, b = pick(upd, found(True)), pick(upd, found(False))
    okf = a.op == 'elem' and search(a.a[0], par) or a.op == 'mu' and a in e.mu_info and all(
        x is a or is_const(x, None) or x.op == 'elem' and search(x.a[0], par) for i in e.mu_info[a] for x in leaves(i))
    ctx.ob('complete', okf and b is n.result, where, 'the next component is not looked for in this category', n.loc)
    subs = {ev.args[1].a[0]: ev for ev in e.events if ev.kind == 'call' and ev.callee.split('.')[-1] == 'SubElement' and len(ev.args) > 1 and ev.args[0] is n.result and
            ev.args[1].op == 'const' and ev.loops == n.loops and set(ev.guards) <= set(n.guards)}
    ok = 'name' in subs and [ev.args[0] for ev in e.by_recv.get(subs['name'].result, []) if ev.kind == 'store' and ev.callee == 'text'] == [comp]
    ctx.ob('complete', ok, where, 'a new category does not have the name of its component', n.loc)
    ctx.ob('complete', 'categories' in subs, where, 'nothing can be created below a new category', n.loc)
    # nothing of the original is dropped
    made = {ev.result for ev in e.events if ev.kind == 'call' and ev.callee.split('.')[-1] in ('SubElement', 'Element')}
    for ev in e.events:
        if ev.kind == 'call' and ev.callee in ('.remove', '.clear') and ev.recv is not None and ev.recv.op != 'lit' or \
                ev.kind == 'store' and ev.callee in ('text', 'tag', 'tail') and ev.recv not in made or ev.kind == 'delitem' and ev.recv not in made:
            ctx.ob('kept', False, where, 'a part of the original report is changed', ev.loc)
    if wr is not None:
        ctx.ob('write', wr.idx > n.idx, where, 'the report is written before it is complete', wr.loc)


def search(it, par):
    return is_call(it, '.findall', '.iterfind', '.iter') and cargs(it)[0] is par and is_const(cargs(it)[1]) is not None and \
        cargs(it)[1].op == 'const' and cargs(it)[1].a[0].lstrip('./') == 'category' or it is par


def named(c, comp):
    """the condition compares the name of a category with the component"""
    if c is None:
        return False
    xs = c.a if c.op == 'and' else (c,)
    return any(x.op == 'cmp' and x.a[0] == '==' and comp in x.a[1:] for x in xs) and len(xs) == 1


def origin(e, t):
    """(value, conditions) that an element of a collection is built from"""
    for _ in range(8):
        if t.op == 'elem':
            c = t.a[0]
            while is_call(c, 'set', 'sorted', 'list', 'tuple', 'frozenset') and cargs(c):
                c = cargs(c)[0]
            if c.op in ('comp', 'lit'):
                its = list_items(e, c)
                if its is None and c.op == 'comp':
                    cc = e.comps[c.a[1]]
                    its = [(cc['elt'], cc['guards'], cc['loops'])]
                if its and len(its) == 1:
                    if [x for x in its[0][1] if 'gz' not in show(x[0])]:
                        return its[0][0], [x for x in its[0][1] if 'gz' not in show(x[0])]
                    t = its[0][0]
                    continue
            if c is not t.a[0]:
                return T('elem', c, t.a[1]), []
        return t, []
    return None


def o2(e, t):
    r = origin(e, t)
    return r[0] if r and not r[1] else None
