"""C30, C31, C45: extraction modes, extraction results and their summary, the report database."""
import ast
from ..core import check, Ctx
from ..q import *
from ..bools import sat, entails, equiv, conj, feasible, specialise, enum_atom
from ..vfa import const, mk_not, mk_cmp, mk_and, mk_or
from .netlists import live
from .techinfo import path
from .caps import Extraction, Visit, EX, RES, REP, ME, fval, lits, key_fields, calls

MODE = 'klayout_pex.rcx25.pex_mode.PEXMode'
RESM = 'klayout_pex.rcx25.extraction_results'
NCK = f"{RESM}.NetCoupleKey"
REX = 'klayout_pex.rcx25.r.r_extractor.RExtractor'


def members(ctx):
    """{value: [names]} of the enum"""
    c = ctx.prog.classes.get(MODE)
    ctx.need(c is not None, 'PEXMode is gone')
    out = {}
    for st in c.node.body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and isinstance(st.value, ast.Constant):
            out.setdefault(st.value.value, []).append(st.targets[0].id)
    return out


def mode_atom(subject, names):
    """the subject is the enum member with these (alias) names"""
    def f(t):
        r = None
        for n in names:
            v = enum_atom(lambda x: x is subject, n)(t)
            if v:
                return True
            r = v if v is not None else r
        return r
    return f


@check('C30', 'value-flow analysis with path conditions, decided per enum member',
       'Decides for each mode which extraction parts run and that the predicates give an answer. The parts themselves are judged by C26-C29 and C32-C34.')
def c30(ctx: Ctx):
    """PEXMode predicates and the places that depend on them in extract_cell."""
    mem = members(ctx)
    ctx.ob('modes', set(mem) == {'CC', 'RC', 'R'} and 'DEFAULT' in sum(mem.values(), []), MODE, f"the modes are {mem}")
    want = {'need_capacitance': lambda v: 'C' in v, 'need_resistance': lambda v: 'R' in v}
    for fn, w in want.items():
        q = f"{MODE}.{fn}"
        if q not in ctx.prog.funcs:
            continue
        e = ctx.analyse(q)
        for v, names in mem.items():
            got = []
            for ev in e.events:
                if ev.kind in ('return', 'raise'):
                    g = specialise(conj(ev.guards), mode_atom(ME, names))
                    if g.op == 'const' and not g.a[0]:
                        continue
                    r = 'raise'
                    if ev.kind == 'return' and len(ev.ctx) == 1:
                        x = specialise(ev.args[0], mode_atom(ME, names)) if ev.args else const(None)
                        r = x.a[0] if x.op == 'const' else show(x)
                    got.append((r, g.op == 'const'))
            ctx.ob('predicate', got == [(w(v), True)], f"{q} {v}", f"gives {[x for x, _ in got]}")
    X = Extraction(ctx)
    e = X.e
    mode = path(ME, 'pex_mode')
    parts = {'overlap': [op for op in X.run('polygon')[2]], 'sidewall and fringe': [op for op in X.run('edge')[2]],
             'resistance': []}
    e2 = ctx.analyse(f"{EX}.extract_cell", opaque=[REP, RESM, REX, 'klayout_pex.klayout', 'klayout_pex.tech_info', 'klayout_pex.rcx25.c'])
    parts['resistance'] = calls(e2, f"{REX}.extract")
    for part, evs in parts.items():
        eng = e2 if part == 'resistance' else e
        ctx.ob('part', len(evs) == 1, f"{EX}.extract_cell {part}", f"runs {len(evs)} times")
        for ev in evs:
            for v, names in mem.items():
                g = specialise(conj(lits(eng, ev.guards)), mode_atom(mode, names))
                need = ('R' in v) if part == 'resistance' else ('C' in v)
                ok = g.op == 'const' and bool(g.a[0]) == need
                ctx.ob('mode', ok, f"{EX}.extract_cell {part} {v}", f"runs when {show(g)[:160]}", ev.loc)
    # the resistances arrive in the results
    st = [ev for ev in e2.events if ev.kind == 'store' and ev.callee == 'r_extraction_result' and ev.recv is T('param', 'results')]
    res = [ev.result for ev in parts['resistance']]
    ctx.ob('resistance-result', len(st) == 1 and st[0].args[0] in res and equiv(conj(st[0].guards), conj(parts['resistance'][0].guards)),
           f"{EX}.extract_cell", 'the extracted resistances are not part of the results')
    # extract() runs the cell
    e3 = ctx.analyse(f"{EX}.extract", opaque=[f"{EX}.extract_cell", REP, RESM])
    runs = calls(e3, f"{EX}.extract_cell")
    ok = len(runs) == 1 and not [x for x in lits(e3, runs[0].guards) if not (x[0].op == 'tryok' and x[1])] and not runs[0].loops
    ctx.ob('cell', ok, f"{EX}.extract", 'the cell is not extracted in every mode')
    if ok:
        b = bind(ctx.prog, runs[0])
        cell = b.get('results')
        rets = [ev for ev in e3.events if ev.kind == 'return' and len(ev.ctx) == 1]
        sets = [ev for ev in e3.events if ev.kind == 'setitem' and ev.args[1] is cell]
        ok = len(sets) == 1 and len(rets) == 1 and sets[0].recv is T('attr', rets[0].args[0], 'cell_extraction_results') or \
            len(sets) == 1 and len(rets) == 1 and field(e3, rets[0].args[0], 'cell_extraction_results') is sets[0].recv
        ctx.ob('results', ok, f"{EX}.extract", 'the results of the cell are not returned')


# ------------------------------------------------------------------ C31
def frozen(ctx, q, names):
    c = ctx.prog.classes.get(q)
    ok = c is not None
    if ok:
        deco = [d for d in c.node.decorator_list if isinstance(d, ast.Call) and getattr(d.func, 'id', getattr(d.func, 'attr', '')) == 'dataclass']
        kw = {k.arg: getattr(k.value, 'value', None) for d in deco for k in d.keywords}
        own = {n.name for n in c.node.body if isinstance(n, ast.FunctionDef)}
        tup = any(getattr(b, 'id', '') == 'NamedTuple' for b in c.node.bases)
        ok = (tup or (kw.get('frozen') or kw.get('unsafe_hash')) and kw.get('eq', True)) and not own & {'__eq__', '__hash__'} and set(c.ann_order) == set(names)
    ctx.ob('key', ok, q, f"is not identified by exactly {', '.join(names)}")


KEYS = {'OverlapKey': ('overlap', ('layer_top', 'net_top', 'layer_bot', 'net_bot'), ('net_bot', 'net_top')),
        'SidewallKey': ('sidewall', ('layer', 'net1', 'net2'), ('net1', 'net2')),
        'SideOverlapKey': ('sideoverlap', ('layer_inside', 'net_inside', 'layer_outside', 'net_outside'), ('net_inside', 'net_outside'))}


def accumulations(e):
    """[(dict, key, added polynomial, event)] for d[k] = d[k] + x, in its spellings"""
    out = []
    for ev in e.events:
        if ev.kind != 'setitem':
            continue
        d, k, v = ev.recv, ev.args[0], ev.args[1]
        pn = pnorm(v)
        old = [a for m in pn for a, x in m if isinstance(a, T) and (a.op == 'item' and a.a == (d, k) or is_call(a, '.get') and cargs(a)[:2] == (d, k)
                                                                   and len(cargs(a)) == 3 and cargs(a)[2].op == 'const' and cargs(a)[2].a[0] == 0)]
        if len(old) == 1 and pn.get(((old[0], 1),)) == 1:
            rest = {m: c for m, c in pn.items() if m != ((old[0], 1),)}
            dflt = is_call(d, 'defaultdict', 'collections.defaultdict') and cargs(d) and show(cargs(d)[0]) in ('float', 'int')
            out.append((d, k, rest, ev, dflt or old[0].op != 'item'))
        else:
            out.append((d, k, None, ev, False))
    return out


def normed_of(k):
    """the pair of a normed key"""
    if is_call(k, f"{NCK}.normed") and cargs(k):
        x = cargs(k)[0]
        if x.op == 'new' and x.a[0] == NCK:
            xs = [ckw(x)[n] for n in ('net1', 'net2') if n in ckw(x)] or list(cargs(x))
            return tuple(xs) if len(xs) == 2 else None
        return x
    return None


def no_break(ev):
    return not [x for l in ev.loops for x in l.exits if x[0] in ('break', 'return')]


@check('C31', 'value-flow analysis of the accumulations; order-independence of the key by case analysis; data class declarations',
       'Decides which values are added under which key, for any content of the tables. Resistances of parallel elements are summed like the '
       'upstream code does; whether that is the equivalent resistance is not judged.')
def c31(ctx: Ctx):
    """Key classes, add_* methods, normed, the summaries of cells and layouts, and merging."""
    for cn, (tab, names, nets) in KEYS.items():
        frozen(ctx, f"{RESM}.{cn}", names)
    frozen(ctx, NCK, ('net1', 'net2'))
    # tables belong to one object each
    c = ctx.prog.classes[RES]
    for st in c.node.body:
        if isinstance(st, ast.AnnAssign) and st.target.id.endswith('_table'):
            ok = isinstance(st.value, ast.Call) and any(k.arg == 'default_factory' for k in st.value.keywords)
            ctx.ob('own-table', ok, f"{RES}.{st.target.id}", 'the table is shared between results')
    for tab in ('overlap', 'sidewall', 'sideoverlap'):
        q = f"{RES}.add_{tab}_cap"
        ctx.need(q in ctx.prog.funcs, f"{q} is gone")
        e = ctx.analyse(q)
        cap = T('param', ctx.prog.funcs[q].params[1])
        t = T('attr', ME, f"{tab}_table")
        app = [ev for ev in e.events if ev.kind == 'call' and ev.callee == '.append' and ev.args and ev.args[0] is cap]
        ok = len(app) == 1 and not lits(e, app[0].guards) and (
            app[0].recv is T('item', t, T('attr', cap, 'key')) or is_call(app[0].recv, '.setdefault') and cargs(app[0].recv)[:2] == (t, T('attr', cap, 'key')))
        ctx.ob('add', ok, q, 'the capacitance is not added to its key in every case')
    # order independence
    q = f"{NCK}.normed"
    ctx.need(q in ctx.prog.funcs, f"{q} is gone")
    e = ctx.analyse(q)
    A, B = T('sym', 'A'), T('sym', 'B')
    res = []
    for first, second in ((A, B), (B, A)):
        m = {T('attr', ME, 'net1'): first, T('attr', ME, 'net2'): second}

        def facts(t):
            if t.op == 'cmp' and {t.a[1], t.a[2]} == {A, B}:
                return (t.a[1] is A) if t.a[0] == '<' else False
            if t.op == 'cmp' and t.a[0] == '==' and any(is_const(x, None) for x in t.a[1:]):
                return False
            return None

        def val(t):
            t = subst(t, m)
            if t is ME:
                return first, second
            if t.op == 'new' and t.a[0] == NCK:
                xs = []
                for x in [ckw(t)[n] for n in ('net1', 'net2') if n in ckw(t)] or list(cargs(t)):
                    y = x.a[0] if x.op == 'star' else x
                    if is_call(y, 'sorted') and cargs(y) and not ckw(y):
                        xs += [A, B]
                    else:
                        x = re_cmp(x)
                        x = specialise(x, facts)
                        if is_call(x, 'min') and set(cargs(x)) == {A, B}:
                            x = A
                        if is_call(x, 'max') and set(cargs(x)) == {A, B}:
                            x = B
                        if x.op == 'item' and is_call(x.a[0], 'sorted') and not ckw(x.a[0]) and x.a[1].op == 'const':
                            x = (A, B)[x.a[1].a[0]]
                        xs.append(x)
                return tuple(xs)
            return None
        got = set()
        for ev in e.events:
            if ev.kind != 'return' or len(ev.ctx) != 1:
                continue
            g = specialise(re_cmp(subst(conj(ev.guards), m)), facts)
            if g.op == 'const' and not g.a[0]:
                continue
            for cnd, l in gated_leaves(ev.args[0]):
                c2 = specialise(conj([(re_cmp(subst(x, m)), True) for x in cnd]), facts) if cnd else const(True)
                if c2.op == 'const' and not c2.a[0]:
                    continue
                got.add(val(l))
        res.append(got)
    ok = len(res[0]) == 1 and res[0] == res[1] and set(next(iter(res[0])) or ()) == {A, B}
    ctx.ob('normed', ok, q, f"{{A, B}} becomes {[[[show(y) for y in x or ()] for x in r] for r in res]} depending on the order")
    # summary of a cell
    q = f"{RES}.summarize"
    e = ctx.analyse(q, opaque=[NCK, f"{RESM}.ExtractionSummary.merged"])
    acc = accumulations(e)
    rets = [ev for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1]
    ctx.need(len(rets) == 1, f"{q}: {len(rets)} results")
    flows = summary_dicts(e, rets[0].args[0])
    for cn, (tab, names, nets) in KEYS.items():
        t = T('attr', ME, f"{tab}_table")
        mine = [a for a in acc if a[3].loops and any(src_table(l.iter) is t for l in a[3].loops)]
        ok = len(mine) == 1
        if ctx.ob('summed', ok, f"{q} {tab}", f"is added {len(mine)} times"):
            d, k, add, ev, dflt = mine[0]
            lp = next(l for l in ev.loops if src_table(l.iter) is t)
            pair = normed_of(k)
            key = T('key', lp.iter if not is_call(lp.iter, '.items') else t, lp.uid)
            want = {T('attr', key, n) for n in nets}
            got = {strip_key(x, t, lp) for x in pair} if isinstance(pair, tuple) else None
            ctx.ob('sum-key', got == {(n, lp.uid) for n in nets}, f"{q} {tab}", f"is added to {show(k)[:120]}", ev.loc)
            ctx.ob('sum-value', is_sum_of(e, add, t, lp, ev), f"{q} {tab}", f"what is added is {pshow(add)[:120] if add else None}", ev.loc)
            ctx.ob('sum-always', not lits(e, ev.guards) and no_break(ev) and dflt, f"{q} {tab}", f"is only added when {show(conj(lits(e, ev.guards)))[:120]}", ev.loc)
            ctx.ob('sum-flows', ('capacitances', d) in flows, f"{q} {tab}", 'the sum is not part of the summary')
    nets_ = path(ME, 'r_extraction_result.networks')
    mine = [a for a in acc if a[3].loops and a[3].loops[0].iter is nets_]
    if ctx.ob('summed', len(mine) == 1, f"{q} resistance", f"is added {len(mine)} times"):
        d, k, add, ev, dflt = mine[0]
        ok = len(ev.loops) == 2 and ev.loops[1].iter is T('attr', ev.loops[0].elem, 'elements')
        ctx.ob('elements', ok, f"{q} resistance", 'not every element is added')
        if ok:
            el = ev.loops[1].elem
            pair = normed_of(k)
            got = {node_of(e, x, ev.loops[0].elem, el) for x in pair} if isinstance(pair, tuple) else None
            ctx.ob('sum-key', got == {'node_a', 'node_b'}, f"{q} resistance", f"is added to {show(k)[:160]}", ev.loc)
            ctx.ob('sum-value', add == pnorm(T('attr', el, 'resistance')), f"{q} resistance", f"what is added is {pshow(add)[:120] if add else None}", ev.loc)
            ctx.ob('sum-always', not lits(e, ev.guards) and no_break(ev) and dflt, f"{q} resistance", 'is not always added', ev.loc)
            ctx.ob('sum-flows', ('resistances', d) in flows, f"{q} resistance", 'the sum is not part of the summary')
    # merging
    q = f"{RESM}.ExtractionSummary.merged"
    e = ctx.analyse(q, opaque=[NCK])
    S = T('param', ctx.prog.funcs[q].params[-1])
    rets = [ev for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1]
    ctx.need(len(rets) == 1, f"{q}: {len(rets)} results")
    acc = accumulations(e)
    used = set()
    for kind in ('capacitances', 'resistances'):
        d = fval(e, rets[0].args[0], kind)
        mine = [a for a in acc if a[0] is d]
        ok = len(mine) == 1 and d is not None
        if ctx.ob('merged', ok, f"{q} {kind}", f"the result is filled at {len(mine)} places"):
            used.add(d)
            _, k, add, ev, dflt = mine[0]
            ok = len(ev.loops) == 2 and ev.loops[0].iter is S and src_table(ev.loops[1].iter) is T('attr', ev.loops[0].elem, kind)
            ctx.ob('merge-all', ok and not lits(e, ev.guards) and no_break(ev) and dflt, f"{q} {kind}", 'not every entry is merged', ev.loc)
            if ok:
                t, u = src_table(ev.loops[1].iter), ev.loops[1].uid
                x = normed_of(k)
                ctx.ob('merge-key', isinstance(x, T) and is_key(x, t, u), f"{q} {kind}", f"an entry is added to {show(k)[:120]}", ev.loc)
                at = [a for m in (add or {}) for a, _ in m]
                ctx.ob('merge-value', len(at) == 1 and add == pnorm(at[0]) and (is_val(at[0], t, u) or at[0].op == 'item' and at[0].a[0] is t and is_key(
                    at[0].a[1], t, u)), f"{q} {kind}", f"what is added is {pshow(add)[:120] if add else None}", ev.loc)
    ctx.ob('merge-distinct', len(used) == 2, q, 'capacitances and resistances are added to the same table')
    writes = [ev for ev in e.events if ev.kind in ('setitem', 'delitem', 'store') and mentions(ev.recv, S) and ev.recv not in used]
    ctx.ob('merge-pure', not writes, q, f"a merged summary is modified at {writes[0].loc if writes else ''}")
    # whole result
    q = f"{RESM}.ExtractionResults.summarize"
    e = ctx.analyse(q, opaque=[RES, f"{RESM}.ExtractionSummary.merged"])
    rets = [ev for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1]
    ok = len(rets) == 1 and is_call(rets[0].args[0], f"{RESM}.ExtractionSummary.merged")
    if ok:
        its = list_items(e, cargs(rets[0].args[0])[-1] if cargs(rets[0].args[0]) else None)
        t = T('attr', ME, 'cell_extraction_results')
        ok = its is not None and len(its) == 1 and not lits(e, its[0][1]) and len(its[0][2]) == 1 and src_table(its[0][2][0].iter) is t and \
            is_call(its[0][0], f"{RES}.summarize") and is_val(cargs(its[0][0])[0], t, its[0][2][0].uid)
    ctx.ob('all-cells', ok, q, 'the summary does not consist of the summaries of all cells')


def re_cmp(t):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or x.op == 'const':
            return x
        if x in memo:
            return memo[x]
        a = [go(y) for y in x.a]
        memo[x] = r = mk_cmp(*a) if x.op == 'cmp' else T(x.op, *a)
        return r
    return go(t)


def src_table(it):
    while is_call(it, '.items', '.values', '.keys', 'list', 'sorted', 'enumerate') and cargs(it):
        it = cargs(it)[0]
    return it


def is_key(x, t, u):
    return x.op in ('key', 'elem') and x.a[1] == u and src_table(x.a[0]) is t or \
        x.op == 'item' and x.a[1].op == 'const' and x.a[1].a[0] == 0 and x.a[0].op == 'elem' and x.a[0].a[1] == u


def is_val(x, t, u):
    return x.op in ('val', 'elem') and x.a[1] == u and src_table(x.a[0]) is t or \
        x.op == 'item' and x.a[0] is t and is_key(x.a[1], t, u)


def strip_key(x, t, lp):
    if x.op == 'attr' and is_key(x.a[0], t, lp.uid):
        return (x.a[1], lp.uid)
    return None


def is_sum_of(e, add, t, lp, ev):
    """the added value is the sum of cap_value over the entries of the key"""
    if not add or len(add) != 1:
        return False
    (m, c), = add.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1:
        return False
    a = m[0][0]
    if is_call(a, 'sum', 'math.fsum') and cargs(a) and cargs(a)[0].op == 'comp':
        cc = e.comps[cargs(a)[0].a[1]]
        return len(cc['loops']) == 1 and not cc['guards'] and is_val(cc['loops'][0].iter, t, lp.uid) and \
            cc['elt'] is T('attr', cc['loops'][0].elem, 'cap_value') and ev.loops[-1] is lp
    if a.op == 'attr' and a.a[1] == 'cap_value' and a.a[0].op == 'elem':
        l2 = [l for l in ev.loops if l.uid == a.a[0].a[1]]
        return len(l2) == 1 and is_val(l2[0].iter, t, lp.uid) and len(ev.loops) == 2
    return False


def summary_dicts(e, t):
    """{(field, dict)} that a summary consists of, through merged()"""
    out = set()
    if is_call(t, f"{RESM}.ExtractionSummary.merged"):
        for v, g, l in list_items(e, cargs(t)[-1]) or []:
            if not g:
                out |= summary_dicts(e, v)
        return out
    for f in ('capacitances', 'resistances'):
        d = fval(e, t, f) if t.op in ('new', 'call', 'obj') else None
        if d is not None:
            out.add((f, d))
    return out


def node_of(e, x, net, el):
    """the net name of the node that an element refers to: 'node_a' / 'node_b'"""
    if x.op != 'attr' or x.a[1] != 'net_name':
        return None
    n = x.a[0]
    if n.op in ('item',) or is_call(n, '.get'):
        d, k = n.a if n.op == 'item' else cargs(n)[:2]
        ok = False
        for ent in dict_entries(e, d) or []:
            kk, vv = ent[0], ent[1]
            ls = ent[3] if len(ent) > 3 else ent[2]
            ls = [l for l in ls if l.iter is T('attr', net, 'nodes')]
            ok = ok or bool(ls) and vv is ls[-1].elem and kk is T('attr', vv, 'node_id')
        if ok and k.op == 'attr' and k.a[1] == 'node_id' and k.a[0].op == 'attr' and k.a[0].a[0] is el:
            return k.a[0].a[1]
    return None


# ------------------------------------------------------------------ C45
def cat_names(ctx):
    """{property: (parent, name)} of the top categories"""
    out = {}
    for q, f in ctx.prog.funcs.items():
        if q.startswith(f"{REP}.cat_"):
            e = ctx.analyse(q)
            r = [ev.args[0] for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1]
            if len(r) == 1 and is_call(r[0], '.create_category'):
                out[q.split('.')[-1]] = tuple(cargs(r[0])[1:])
    return out


@check('C45', 'value-flow analysis: pairing of each record with its report entry; category chains; effects on all paths',
       'Decides that an entry is created per record, where, and that the database is saved. What KLayout does with duplicate categories is taken '
       'from its documentation.')
def c45(ctx: Ctx):
    """The record sites of the visitors, the reporter, extract_cell and extract."""
    X = Extraction(ctx)
    spec = {'overlap': ('polygon', 'neighbors', 'add_overlap_cap', 'output_overlap', 'overlap_cap'),
            'sidewall': ('edge', 'on_edge', 'add_sidewall_cap', 'output_sidewall', 'sidewall_cap'),
            'fringe': ('edge', 'on_edge', 'add_sideoverlap_cap', 'output_sideoverlap', 'sideoverlap_cap')}
    for kind, (node, meth, add, out, par) in spec.items():
        V = Visit(ctx, X, node, meth)
        e = V.e
        adds = calls(e, f"{RES}.{add}")
        outs = calls(e, f"{REP}.{out}")
        ctx.ob('recorded', bool(adds), f"{V.q} {kind}", 'nothing is recorded')
        for ev in adds:
            mates = [o for o in outs if o.loops == ev.loops and ev.args[0] in list(o.args) + list(o.kw.values())]
            mates = [o for o in mates if equiv(conj(lits(e, o.guards)), conj(lits(e, ev.guards)))]
            ctx.ob('reported', len(mates) == 1, f"{V.q} {kind}", f"a recorded capacitance is reported {len(mates)} times", ev.loc)
            for o in mates:
                ctx.ob('reporter', V(o.recv) is T('param', 'report'), f"{V.q} {kind}", 'the report is another one', o.loc)
                b = bind(ctx.prog, o)
                ctx.ob('reported-as', b.get(par) is ev.args[0], f"{V.q} {kind}", 'the capacitance is not what is reported', o.loc)
        ctx.ob('only-recorded', len(outs) == len(adds), f"{V.q} {kind}", 'capacitances are reported that are not recorded')
    cats = cat_names(ctx)
    ctx.ob('categories', len(set(cats.values())) == len(cats) and len(cats) >= 8, REP, 'two categories have the same name')
    tops = {}
    for kind, (node, meth, add, out, par) in spec.items():
        q = f"{REP}.{out}"
        ctx.need(q in ctx.prog.funcs, f"{q} is gone")
        e = ctx.analyse(q)
        cap = T('param', par)
        items = calls(e, '.create_items')
        always = [ev for ev in items if not lits(e, ev.guards) and not ev.loops]
        ctx.ob('items', len(always) >= 1, q, 'no item is created for a capacitance')
        counter = T('attr', ME, 'category_name_counter')
        incs = [ev for ev in e.events if ev.kind == 'setitem' and ev.recv is counter]
        ok = len(incs) == 1 and not lits(e, incs[0].guards) and pnorm(incs[0].args[1]) == padd(pnorm(T('item', counter, incs[0].args[0])), {(): 1})
        ctx.ob('counted', ok, q, 'the entries of a pair are not counted')
        for ev in always:
            chain = chain_of(ev)
            ctx.ob('kind', len(chain) >= 2 and is_call(chain[-1], '.create_category') and len(cargs(chain[-1])) == 2, q, 'the entry has no category', ev.loc)
            top = chain[-1]
            tops.setdefault(kind, set()).add(top)
            labels = [cargs(c)[-1] for c in chain]
            key_nets = [T('attr', T('attr', cap, 'key'), n) for n in KEYS[{'overlap': 'OverlapKey', 'sidewall': 'SidewallKey', 'fringe': 'SideOverlapKey'}[kind]][1]]
            missing = [k.a[1] for k in key_nets if not any(mentions(l, k) for l in labels)]
            ctx.ob('names', not missing, q, f"the category does not depend on {missing}", ev.loc)
            if ok:
                k = incs[0].args[0]
                num = [l for c, l in zip(chain, labels) if contains(l, lambda x: x.op == 'item' and x.a[0] is counter or x is incs[0].args[1])]
                holder = [c for c in chain if is_call(k, '.path') and cargs(k)[0] is c]
                good = len(num) >= 1 and len(holder) == 1
                if good:
                    i = chain.index(holder[0])
                    good = i > 0 and any(l in num for l in labels[:i]) and all(mentions_any(labels[i:], kn) for kn in key_nets)
                ctx.ob('distinct', good, q, 'entries of the same pair share their category', ev.loc)
            ctx.ob('value', any(mentions(l, T('attr', cap, 'cap_value')) for l in labels), q, 'the capacitance is not part of the report', ev.loc)
    allt = [t for s in tops.values() for t in s]
    ctx.ob('kinds-apart', all(len(s) == 1 for s in tops.values()) and len({cargs(t)[-1] for t in allt}) == 3, REP, 'kinds share a category')
    # resistance networks
    q = f"{REP}.output_rex_result"
    ctx.need(q in ctx.prog.funcs, f"{q} is gone")
    e = ctx.analyse(q)
    R = T('param', ctx.prog.funcs[q].params[1])
    nets = T('attr', R, 'networks')
    items = calls(e, '.create_items')
    for part in ('nodes', 'elements'):
        mine = [ev for ev in items if len(ev.loops) == 2 and ev.loops[0].iter is nets and ev.loops[1].iter is T('attr', ev.loops[0].elem, part)]
        ok = len(mine) >= 1 and all(no_break(ev) for ev in mine)
        if ok:
            g = mk_or([conj(lits(e, ev.guards)) for ev in mine])
            ok = g.op == 'const' and bool(g.a[0]) or all(mentions(t, T('attr', mine[0].loops[1].elem, 'location')) or contains(
                t, lambda x: x.op == 'attr' and x.a[1] in ('location', 'kind', 'net')) for t, p in lits(e, mine[0].guards))
        ctx.ob('network', ok, f"{q} {part}", 'not every part of a network is reported')
        if ok:
            for ev in mine:
                labels = [cargs(c)[-1] for c in chain_of(ev)]
                ctx.ob('network-name', any(mentions(l, T('attr', ev.loops[0].elem, 'net_name')) for l in labels), f"{q} {part}", 'the net is not named', ev.loc)
    elements_reported(ctx, e, nets)
    request_reported(ctx)
    e2 = ctx.analyse(f"{EX}.extract_cell", opaque=[REP, RESM, REX, 'klayout_pex.klayout', 'klayout_pex.tech_info', 'klayout_pex.rcx25.c'])
    ex = calls(e2, f"{REX}.extract")
    outs = calls(e2, q)
    ok = len(ex) == 1 and len(outs) == 1 and equiv(conj(lits(e2, ex[0].guards)), conj(lits(e2, outs[0].guards))) and \
        ex[0].result in list(outs[0].args) + list(outs[0].kw.values()) and outs[0].recv is T('param', 'report')
    ctx.ob('network-reported', ok, f"{EX}.extract_cell", 'the resistance networks are not reported')
    outs = calls(e2, f"{REP}.output_rex_request")
    ok = len(ex) == 1 and len(outs) == 1 and equiv(conj(lits(e2, ex[0].guards)), conj(lits(e2, outs[0].guards))) and outs[0].recv is T('param', 'report')
    ok = ok and (list(outs[0].args) + list(outs[0].kw.values()))[0] in list(ex[0].args) + list(ex[0].kw.values())
    ctx.ob('request-reported', ok, f"{EX}.extract_cell", 'what the networks are extracted from is not reported')
    # saved
    e3 = ctx.analyse(f"{EX}.extract", opaque=[f"{EX}.extract_cell", RESM])
    runs = calls(e3, f"{EX}.extract_cell")
    saves = [ev for ev in e3.events if ev.kind == 'call' and ev.callee in ('.save',)]
    ok = len(saves) == 1 and len(runs) == 1 and saves[0].idx > runs[0].idx and not lits(e3, saves[0].guards) and not saves[0].loops
    ctx.ob('saved', ok, f"{EX}.extract", 'the report is not saved after the extraction in every mode')
    if ok:
        ctx.ob('saved-to', saves[0].args and saves[0].args[0] is path(ME, 'report_path'), f"{EX}.extract", f"the report is saved to {show(saves[0].args[0])[:80]}")
        rep = bind(ctx.prog, runs[0]).get('report')
        ctx.ob('saved-what', rep is not None and fval(e3, rep, 'report') is saves[0].recv, f"{EX}.extract", 'another report is saved')


def pieces(t):
    """the texts of a label by cases: lists of constants and values"""
    t = t if isinstance(t, T) else const(t)
    c = next((x.a[0] for x in subterms(t) if x.op == 'ite'), None)
    if c is not None:
        out = []
        for v in (True, False):
            m = {x: x.a[1] if v else x.a[2] for x in subterms(t) if x.op == 'ite' and x.a[0] is c}
            m.update({x: x.a[2] if v else x.a[1] for x in subterms(t) if x.op == 'ite' and x.a[0] is mk_not(c)})
            out += pieces(subst(t, m))
        return out
    if t.op == 'fstr':
        return [[p for x in t.a for p in pieces(x)[0]]]
    if t.op == 'bin' and t.a[0] == '+':
        return [pieces(t.a[1])[0] + pieces(t.a[2])[0]]
    return [[t]]


def elements_reported(ctx, e, nets):
    """an element is drawn between its two nodes, and labelled with their names and its resistance"""
    q = f"{REP}.output_rex_result"
    for ev in calls(e, '.create_items'):
        if len(ev.loops) != 2 or ev.loops[0].iter is not nets:
            continue
        net, x = ev.loops[0].elem, ev.loops[1].elem
        if ev.loops[1].iter is T('attr', net, 'nodes'):
            loc = T('attr', x, 'location')
            texts = [cargs(c)[-1] for c in chain_of(ev)]
            ctx.ob('node-label', all(any(mentions(l, T('attr', x, n)) for l in texts) for n in ('node_name', 'layer_name')), q, 'a node is not named', ev.loc)
            sh = ev.args[3] if len(ev.args) > 3 else None
            put = [sh] + [i.args[0] for i in e.events if i.kind == 'call' and i.name == 'insert' and i.recv is sh and i.args]
            ctx.ob('node-place', sh is not None and any(mentions(t, loc) for t in put), q, 'a node is not shown at its location', ev.loc)
            continue
        if ev.loops[1].iter is not T('attr', net, 'elements'):
            continue
        label = cargs(chain_of(ev)[0])[-1] if chain_of(ev) else const('')
        end = []
        for n in ('node_a', 'node_b'):
            k = path(x, n, 'node_id')
            ds = {t for t in subterms(label) if t.op == 'item' and t.a[1] is k}
            ok = len(ds) == 1
            if ok:
                d = next(iter(ds)).a[0]
                sets = [i for i in e.events if i.kind == 'setitem' and i.recv is d]
                ok = len(sets) == 1 and len(sets[0].loops) == 2 and sets[0].loops[0].iter is nets and sets[0].loops[1].iter is T('attr', sets[0].loops[0].elem, 'nodes') and \
                    sets[0].args[0] is T('attr', sets[0].loops[1].elem, 'node_id') and sets[0].args[1] is sets[0].loops[1].elem
                ok = ok or _by_id(e, d, nets)
                end.append(next(iter(ds)))
            ctx.ob('element-ends', ok, f"{q} {n}", 'the label is not that of the node with this number in the network', ev.loc)
        if len(end) == 2:
            names = [T('attr', t, 'node_name') for t in end]
            ctx.ob('element-ends', all(mentions(label, n) for n in names) and len(ev.args) > 3 and all(mentions(ev.args[3], t) for t in end), q,
                   'an element is not shown between its two nodes', ev.loc)
        R = T('attr', x, 'resistance')
        ctx.ob('element-value', in_its_unit(label, R), f"{q} label", 'the resistance is not in the label, in the unit it is given in', ev.loc)


def in_its_unit(label, R):
    """a resistance in ohms is in the label, scaled to the unit that follows it"""
    for ps in pieces(label):
        got = [(i, t) for i, t in enumerate(ps) if mentions(t, R)]
        if len(got) != 1:
            return False
        i, t = got[0]
        after = ''.join(p.a[0] for p in ps[i + 1:i + 2] if p.op == 'const' and isinstance(p.a[0], str)).strip()
        while is_call(t, 'round', 'float', 'abs', 'str') or t.op == 'fmt':
            t = cargs(t)[0] if t.op == 'call' else t.a[1]
        unit = {'Ω': 1, 'mΩ': 1000, 'kΩ': Fraction(1, 1000), 'µΩ': 10 ** 6}.get(after.replace('/', ' ').split(' ')[0] if after else '')
        if unit is None or pnorm(t) != {k: v * unit for k, v in pnorm(R).items()}:
            return False
    return True


def _by_id(e, d, nets):
    """{n.node_id: n for n in network.nodes}"""
    if d.op != 'comp' or d.a[1] not in e.comps:
        return False
    c = e.comps[d.a[1]]
    x = c['loops'][-1].elem if c['loops'] else None
    return len(c['loops']) == 1 and not c['guards'] and is_attr(c['loops'][0].iter, 'nodes') and c['elt'] is x and c['key'] is T('attr', x, 'node_id')


def request_reported(ctx):
    """everything that is handed to the resistance extraction: devices, pins and nets"""
    q = f"{REP}.output_rex_request"
    ctx.need(q in ctx.prog.funcs, f"{q} is gone")
    e = ctx.analyse(q)
    f = ctx.prog.funcs[q]
    R = T('param', f.params[1])
    items = calls(e, '.create_items')
    for what in ('conductors', 'vias'):
        mine = [ev for ev in calls(e, '.create_category') if len(ev.loops) == 1 and ev.loops[0].iter is path(R, 'tech', what)]
        if ctx.ob('request-tech', len(mine) == 1 and not lits(e, mine[0].guards) and no_break(mine[0]), f"{q} {what}", f"are reported {len(mine)} times, or only some", f.loc):
            x, label = mine[0].loops[0].elem, mine[0].args[-1]
            ctx.ob('request-tech', in_its_unit(label, T('attr', x, 'resistance')), f"{q} {what}", 'the resistance is not in the label, in the unit it is given in', mine[0].loc)
            ctx.ob('request-tech', mentions(label, path(x, 'layer', 'canonical_layer_name')), f"{q} {what}", 'the layer is not named', mine[0].loc)
    region = (('layer', 'canonical_layer_name'),)
    parts = {('devices', 'terminals', 'region_by_layer'): ((('device_name',),), (('name',), ('net_name',)), region),
             ('pins',): ((('label',), ('net_name',), ('layer', 'canonical_layer_name')),),
             ('net_extraction_requests', 'pins'): ((('net_name',),), (('label',), ('net_name',), ('layer', 'canonical_layer_name'))),
             ('net_extraction_requests', 'device_terminals', 'region_by_layer'): ((('net_name',),), (('name',), ('net_name',)), region),
             ('net_extraction_requests', 'region_by_layer'): ((('net_name',),), region)}
    tops = {}
    for names, fields in parts.items():
        def of(ev):
            o = R
            if len(ev.loops) != len(names):
                return False
            for l, n in zip(ev.loops, names):
                if l.iter is not T('attr', o, n):
                    return False
                o = l.elem
            return True
        mine = [ev for ev in items if of(ev)]
        what = f"{q} {'.'.join(names)}"
        if not ctx.ob('request', len(mine) == 1 and not lits(e, mine[0].guards) and no_break(mine[0]), what, f"is reported {len(mine)} times, or only sometimes", f.loc):
            continue
        ev = mine[0]
        chain = chain_of(ev)
        labels = [cargs(c)[-1] for c in chain]
        for l, fs in zip(ev.loops, fields):
            for p in fs:
                ctx.ob('request-label', any(mentions(t, path(l.elem, *p)) for t in labels), f"{what} {'.'.join(p)}", 'is not part of the label', ev.loc)
        tops.setdefault(tuple(labels[-2:]) if len(labels) > 1 else (), set()).add(names[0])
        sh = ev.args[3] if len(ev.args) > 3 else const(None)
        x = ev.loops[-1].elem
        if names[-1] == 'region_by_layer':
            put = [i for i in e.events if i.kind == 'call' and i.name == 'insert' and i.recv is sh and i.args]
            ok = len(put) == 1 and len(put[0].loops) == len(ev.loops) + 1 and put[0].loops[-1].iter is path(x, 'region', 'polygons') and not lits(e, put[0].guards)
            ctx.ob('request-shapes', ok, what, 'the polygons are not those of the region', ev.loc)
        else:
            ctx.ob('request-shapes', all(mentions(sh, path(x, 'label_point', a)) for a in 'xy'), what, 'the pin is not shown where it is', ev.loc)
    ctx.ob('request-apart', all(len(v) == 1 for v in tops.values()), q, 'devices, pins and nets share a category', f.loc)


def mentions_any(ls, k):
    return any(mentions(l, k) for l in ls)


def chain_of(ev):
    """categories of an item, innermost first"""
    c = ev.args[1] if len(ev.args) > 1 else None
    if c is None:
        return []
    if is_call(c, '.rdb_id'):
        c = cargs(c)[0]
    out = []
    while is_call(c, '.create_category') and len(cargs(c)) >= 2:
        out.append(c)
        if len(cargs(c)) == 2:
            break
        c = cargs(c)[1]
    return out
