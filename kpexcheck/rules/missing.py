"""A result that may be missing is not used on the paths on which it is missing."""
from ..core import check, Ctx, AnalysisBroken
from ..q import *
from ..vfa import T, show

# calls that give None (or raise nothing) when there is nothing to give
OPTIONAL = {'re.match', 're.search', 're.fullmatch', '.match', '.search', '.fullmatch', '.get', 'shutil.which', 'os.environ.get', 'os.getenv',
            '.circuit_by_name', '.net_by_name', '.net_for_terminal', '.net_for_pin', '.device_class_by_name', '.pin_by_name', '.device_by_name',
            '.subcircuit_by_name', '.cell', '.top_cell', '.category_by_path', '.cell_by_qname', '.find', '.find_layer', '.layer_by_name'}


def optional(t) -> bool:
    return t.op == 'call' and isinstance(t.a[0], str) and (t.a[0] in OPTIONAL or t.a[0].endswith(('_by_name', '.get'))) and \
        not (t.a[0].endswith('.get') and len(cargs(t)) > 2 and not is_const(cargs(t)[2], None))


def missing(guards):
    """the values that are None, or a lookup without result, under these guards"""
    out = {}
    for t, p in guards:
        if t.op == 'cmp' and t.a[0] in ('is', '==', 'is not', '!=') and any(is_const(x, None) for x in t.a[1:]):
            x = t.a[2] if is_const(t.a[1], None) else t.a[1]
            if (t.a[0] in ('is', '==')) == p and x.op != 'const':
                out[x] = 'is None'
        elif not p and optional(t) and t.op == 'call':
            out[t] = 'has no result'
        elif t.op == 'not' and p and optional(t.a[0]) and t.a[0].op == 'call':
            out[t.a[0]] = 'has no result'
    return out


def absent(guards):
    """(container, key) pairs known not to be there"""
    out = set()
    for t, p in guards:
        if t.op == 'cmp' and t.a[0] in ('in', 'not in') and (t.a[0] == 'in') != p:
            d = t.a[2]
            while is_call(d, '.keys') and cargs(d):
                d = cargs(d)[0]
            out.add((d, t.a[1]))
    return out


def used(e, ev):
    """values that an event dereferences: (value, how)"""
    if ev.kind == 'call' and ev.recv is not None and ev.callee.startswith('.'):
        yield ev.recv, f"its method {ev.callee[1:]}() is called"
    if ev.kind in ('store', 'setitem', 'delitem') and ev.recv is not None:
        yield ev.recv, 'it is modified'
    for x in list(ev.args) + list(ev.kw.values()) + ([ev.recv] if ev.recv is not None else []):
        for t in subterms(x):
            if t.op == 'attr':
                yield t.a[0], f"its attribute {t.a[1]} is read"
            elif t.op == 'item':
                yield t.a[0], 'an item of it is read'


@check('C55', 'path-sensitive value-flow analysis: what is dereferenced under a guard that shows it missing',
       'Decides, for every function of klayout-pex and every path through it, that no value is dereferenced where the path conditions say it is None, '
       'a lookup without a result, or an entry that is not in the table. Values whose absence is not tested anywhere are not judged.')
def c55(ctx: Ctx):
    """Every function, on its own and with the functions it calls inlined."""
    tests = 0
    for q, f in sorted(ctx.prog.funcs.items()):
        if 'protobuf' in q:
            continue
        try:
            e = ctx.analyse(q)
        except AnalysisBroken:
            continue
        seen = set()
        bad = []
        for ev in e.events:
            if ev.ctx and ev.ctx[-1] != q:
                continue        # judged where it stands
            ms, ab = missing(ev.guards), absent(ev.guards)
            tests += bool(ms) + bool(ab)
            if ms:
                for t, how in used(e, ev):
                    if t in ms:
                        bad.append((ev.loc, f"{how} where {show(t)[:80]} {ms[t]}"))
            if ab:
                for x in list(ev.args) + list(ev.kw.values()) + ([ev.recv] if ev.recv is not None else []):
                    for t in subterms(x):
                        if t.op == 'item' and (t.a[0], t.a[1]) in ab and not filled(e, t.a[0], ev):
                            bad.append((ev.loc, f"the entry {show(t)[:80]} is read where it is known not to be there"))
        for loc, msg in bad:
            if (loc, msg) not in seen:
                seen.add((loc, msg))
                ctx.fail('missing-not-used', f"{q}:{msg[:60]}", msg, loc)
        if not bad:
            ctx.ob('missing-not-used', True, q)
    ctx.need(tests > 0, 'no test for a missing value was found')


def filled(e, d, ev):
    """the table is added to somewhere before, or makes its own entries"""
    if d.op == 'new' or 'defaultdict' in show(d):
        return True
    return any(x.kind == 'setitem' or x.name in ('setdefault', 'update', 'add', 'append', '__setitem__') for x in e.by_recv.get(d, []) if x.idx <= ev.idx)
