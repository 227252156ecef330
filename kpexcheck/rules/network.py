"""C33: the resistor network container."""
from ..core import check, Ctx
from ..q import *
from ..bools import sat, entails, equiv, conj, feasible, specialise
from ..msgs import attr, Msg
from ..vfa import const, mk_not, mk_cmp, mk_and, mk_or
from .netlists import live
from .resist import unraised, no_break

RN = 'klayout_pex.rcx25.r.resistor_network.ResistorNetwork'
CO = 'klayout_pex.rcx25.r.conductance.Conductance'
ME = T('param', 'self')
S, STAR, NODES, LOC, PREC = (T('attr', ME, n) for n in ('s', 'node_to_s', 'nodes', 'locations', 'precious'))
P = lambda n: T('param', n)
tup = lambda *x: T('tuple', *x)
item = lambda a, b: T('item', a, b)
HAS = lambda d, k: mk_cmp('in', k, d)


def effects(e, skip=()):
    """[(kind, container, key/arg..., event)] of everything that changes the network"""
    out = []
    for ev in e.events:
        if ev.kind == 'setitem':
            out.append(('set', ev.recv, ev.args, ev))
        elif ev.kind == 'delitem' or ev.kind == 'call' and ev.callee == '.pop' and touches(ev.recv) and ev.args:
            out.append(('del', ev.recv, ev.args[:1], ev))
        elif ev.kind == 'store':
            out.append(('store', ev.recv, (const(ev.callee),) + tuple(ev.args), ev))
        elif ev.kind == 'call' and ev.callee.startswith('.') and ev.recv is not None and touches(ev.recv) and \
                ev.callee[1:] in ('append', 'remove', 'add', 'discard', 'clear', 'extend', 'insert', 'sort', 'reverse', 'update', 'popitem',
                                  'setdefault', 'add_parallel', 'add_serial', 'pop'):
            out.append((ev.callee[1:], ev.recv, tuple(ev.args), ev))
        elif ev.kind == 'call' and ev.callee.startswith((RN, CO)):
            out.append((ev.callee.split('.')[-1], ev.recv, tuple(ev.args), ev))
    return out


def touches(t):
    return t is not None and any(x is ME for x in subterms(t))


def star_of(t, k, fresh_ok=True):
    """node_to_s[k], in its spellings (possibly created when missing)"""
    for v in leaves(t):
        if v is item(STAR, k) or is_call(v, '.get') and cargs(v)[:2] == (STAR, k) or \
                is_call(v, '.setdefault') and cargs(v)[:2] == (STAR, k):
            continue
        if fresh_ok and v.op == 'lit' and v.a[0] == 'list' and not v.a[1]:
            continue
        return False
    return True


@check('C33', 'effect analysis of each operation on the indexes of the container; symbolic arithmetic on conductances',
       'An operation is shown to map a consistent network to a consistent one. Floating-point rounding of the conductances is not judged.')
def c33(ctx: Ctx):
    """ResistorNetwork: effects of add_cond, remove_node, connect_nodes, eliminate_node, eliminate_all, node_id on the indexes; Conductance."""
    add_cond(ctx)
    removal(ctx, 'remove_node', 'nid', None)
    removal(ctx, 'connect_nodes', 'b', 'a')
    eliminate(ctx)
    eliminate_all(ctx)
    node_id(ctx)
    conductance(ctx)
    # nothing else changes the indexes
    for q, f in sorted(ctx.prog.funcs.items()):
        if q.startswith(RN + '.') and q.split('.')[-1] not in (
                '__init__', 'add_cond', 'remove_node', 'connect_nodes', 'eliminate_node', 'eliminate_all', 'node_id') and q.count('.') == RN.count('.') + 1:
            e = ctx.analyse(q, opaque=[f"{RN}.{n}" for n in ('add_cond', 'remove_node', 'connect_nodes', 'eliminate_node', 'eliminate_all', 'node_id')])
            bad = [x for x in effects(e) if touches(x[1]) and any(y in (S, STAR, NODES, LOC) for y in subterms(x[1]))
                   or x[0] == 'store' and x[1] is ME]
            if bad:
                callers = [c for c in ('add_cond', 'remove_node', 'connect_nodes', 'eliminate_node', 'eliminate_all', 'node_id')
                           if f"{RN}.{c}" in ctx.prog.funcs and q in reached(ctx, f"{RN}.{c}")]
                if callers:
                    continue
            ctx.ob('other', not bad, q, 'changes the network on its own', bad[0][3].loc if bad else '')


def reached(ctx, q):
    return ctx.analyse(q).inlined


def add_cond(ctx):
    q = f"{RN}.add_cond"
    e = ctx.analyse(q, opaque=[CO])
    a, b, c = P('a'), P('b'), P('cond')
    ab, ba = tup(a, b), tup(b, a)

    def known(t):
        return t in (HAS(S, ab), HAS(S, ba))

    def case(has):
        out = []
        for k, r, args, ev in effects(e):
            g = specialise(conj(live(e, ev.guards)), lambda t: has if known(t) else None)
            if g is const(False):
                continue
            if ev.loops:
                g = T('loop')
            out.append((k, r, args, ev, g))
        return out
    # in parallel to the existing one
    ef = case(True)
    ok = len(ef) == 1 and ef[0][0] == 'add_parallel' and ef[0][1] in (item(S, ab), item(S, ba)) and ef[0][2] == (c,) and ef[0][4] is const(True)
    ctx.ob('parallel', ok, q, 'a second resistor between two nodes is not added in parallel')
    ef = case(False)
    sets = [x for x in ef if x[0] == 'set' and x[1] is S]
    ok = sorted((show(x[2][0]) for x in sets)) == sorted([show(ab), show(ba)]) and all(x[2][1] is sets[0][2][1] and x[4] is const(True) for x in sets) \
        and sets[0][2][1] is c
    ctx.ob('symmetric', ok, q, 'the resistor is not found from both nodes')
    for n, o in ((a, b), (b, a)):
        ap = [x for x in ef if x[0] == 'append' and star_of(x[1], n)]
        ok = len(ap) == 1 and ap[0][2] == (tup(c, o),) and ap[0][4] is const(True)
        if ok and not any(is_call(v, '.setdefault') for v in leaves(ap[0][1])):
            mk = [x for x in ef if x[0] == 'set' and x[1] is STAR and x[2][0] is n]
            ok = len(mk) == 1 and mk[0][3].idx < ap[0][3].idx and mk[0][2][1] in leaves(ap[0][1]) and \
                equiv(mk[0][4], mk_not(HAS(STAR, n)))
        ctx.ob('star', ok, f"{q} {show(n)}", 'the resistor is missing in the star of the node')
    other = [x for x in ef if not (x[0] == 'set' and x[1] in (S, STAR) or x[0] == 'append' and (star_of(x[1], a) or star_of(x[1], b))
                                   or x[0] == 'setdefault')]
    ctx.ob('star', not other, q, f"also {other[0][0] if other else ''}")


def elem_parts(t, star):
    """(conductance, other node) of a star entry"""
    return item(t, const(0)), item(t, const(1))


def removal(ctx, fn, par, into):
    q = f"{RN}.{fn}"
    if q not in ctx.prog.funcs:
        ctx.fail('removal', q, 'is gone')
        return
    e = ctx.analyse(q, opaque=[f"{RN}.{n}" for n in ('add_cond', 'eliminate_node') + (('remove_node',) if into is None else ())] + [CO])
    n = P(par)
    star = item(STAR, n)
    known = HAS(STAR, n)
    ef = effects(e)

    def guard(ev):
        return specialise(conj(unraised(e, ev.guards)), lambda t: True if t is known or t is star else None)
    loops = [l for k, r, a, ev in ef for l in ev.loops]
    good = [l for l in dict.fromkeys(loops) if star_iter(e, l.iter, star)]
    if not ctx.ob('removal', len(good) >= 1 and all(l in good for l in loops) and not any(l.exits for l in good), q, 'not every resistor of the node is visited'):
        return
    want = {}
    for l in good:
        x = T('elem', l.iter, l.uid)
        c, o = elem_parts(x, star)
        for k, r, a, ev in ef:
            if ev.loops != (l,):
                continue
            g = guard(ev)
            if k == 'del' and r is S and a[0] in (tup(n, o), tup(o, n)) and g is const(True):
                want[a[0].a[0] is n] = True
            elif k == 'remove' and star_of(r, o, False) and a == (tup(c, n),) and entails([HAS(STAR, o), mk_not(mk_cmp('==', o, n))], g):
                want['star'] = True
            elif k == 'add_cond' and into and a == (P(into), o, c) and equiv(g, mk_not(mk_cmp('==', o, P(into)))):
                want['move'] = want.get('move', 0) + 1
            else:
                want['odd'] = f"{k} {show(r)[:60] if r is not None else ''} if {show(g)[:80]}"
    ctx.ob('removal', 'odd' not in want, q, str(want.get('odd')))
    ctx.ob('removal', want.get(True) and want.get(False), q, 'a resistor of the removed node stays in the network')
    ctx.ob('removal', want.get('star'), q, 'a resistor of the removed node stays in the star of its neighbour')
    if into:
        ctx.ob('contract', want.get('move') == 1, q, 'a resistor of the contracted node is not moved to the remaining node')
    rest = [(k, r, a, ev) for k, r, a, ev in ef if not ev.loops]
    last_loop = max((ev.idx for k, r, a, ev in ef if ev.loops), default=0)
    for d, key in ((STAR, n), (NODES, item(LOC, n)), (LOC, n)):
        m = [x for x in rest if x[0] == 'del' and x[1] is d and x[2][0] in (key, T('call', '.get', (LOC, n), ()) if d is NODES else key,
                                                                             T('call', '.pop', (LOC, n), ()) if d is NODES else key)]
        ok = len(m) == 1 and guard(m[0][3]) is const(True) and m[0][3].idx > last_loop
        ctx.ob('removal', ok, f"{q} {d.a[1]}", 'the removed node stays in an index')
    dl = [x for x in rest if x[0] == 'del' and x[1] is LOC]
    dn = [x for x in rest if x[0] == 'del' and x[1] is NODES]
    # the location is read before it is removed
    if len(dl) == 1 and len(dn) == 1 and dn[0][2][0] is item(LOC, n):
        reads = [ev for ev in e.events if ev.kind == 'load' and ev.idx > dl[0][3].idx]
        ctx.ob('removal', dn[0][3].idx < dl[0][3].idx or loaded_before(e, LOC, n, dl[0][3].idx), q, 'the location is used after it was removed')
    odd = [x for x in rest if not (x[0] == 'del' and x[1] in (STAR, NODES, LOC)) and not (x[0] in ('discard', 'remove') and x[1] is PREC)
           and not (x[0] in ('pop', 'del') and x[1] is T('attr', ME, 'node_names'))]
    ctx.ob('removal', not odd, q, f"also {odd[0][0]} {show(odd[0][1])[:60]}" if odd else '')


def loaded_before(e, d, k, idx):
    return any(ev.kind == 'load' and ev.result is item(d, k) and ev.idx < idx for ev in e.events)


def star_iter(e, it, star):
    if it is None:
        return False
    while is_call(it, 'list', 'tuple', '.copy') and len(cargs(it)) == 1:
        it = cargs(it)[0]
    return it is star or it.op == 'slice' and it.a[0] is star and all(is_const(x, None) for x in it.a[1:])


def pair_loops(e, loops, star):
    """the two different entries of the star that the loops visit, each unordered pair once"""
    n = T('call', 'len', (star,), ())
    if len(loops) == 1:
        it = loops[0].iter
        if is_call(it, 'itertools.combinations') and cargs(it)[0] is star and is_const(cargs(it)[1], 2):
            x = T('elem', it, loops[0].uid)
            return item(x, const(0)), item(x, const(1))
        return None
    if len(loops) != 2:
        return None
    out, lo = [], None
    for k, l in enumerate(loops):
        it = l.iter
        if is_call(it, 'range'):
            xs = cargs(it)
            start, stop = (const(0), xs[0]) if len(xs) == 1 else xs[:2]
            if len(xs) == 3 and not is_const(xs[2], 1):
                return None
            idx = T('elem', it, l.uid)
            ps = pnorm(stop)
            if k == 0:
                if not is_const(start, 0) or ps not in (pnorm(n), padd(pnorm(n), {(): Fraction(-1)})):
                    return None
            else:
                if pnorm(start) == padd(pnorm(lo), {(): Fraction(1)}) and ps == pnorm(n):
                    pass
                elif is_const(start, 0) and ps == pnorm(lo):
                    pass
                else:
                    return None
            out.append(item(star, idx))
            lo = idx
        elif is_call(it, 'enumerate') and cargs(it)[0] is star and k == 0 and len(cargs(it)) == 1:
            lo = T('index', star, l.uid)
            out.append(T('elem', star, l.uid))
        elif it.op == 'slice' and it.a[0] is star and k == 1 and is_const(it.a[3], None):
            a, b = it.a[1], it.a[2]
            if pnorm(a) == padd(pnorm(lo), {(): Fraction(1)}) and is_const(b, None) or is_const(a, None) and b is lo:
                out.append(T('elem', it, l.uid))
            else:
                return None
        else:
            return None
    return tuple(out)


def eliminate(ctx):
    q = f"{RN}.eliminate_node"
    e = ctx.analyse(q, opaque=[f"{RN}.add_cond", f"{RN}.remove_node"])
    n = P('nid')
    star = item(STAR, n)
    known = HAS(STAR, n)

    def guard(ev):
        return specialise(conj(unraised(e, ev.guards)), lambda t: True if t is known else None)
    rm = calls(e, f"{RN}.remove_node")
    ok = len(rm) == 1 and rm[0].args == [n] or len(rm) == 1 and tuple(rm[0].args) == (n,)
    ctx.ob('eliminated', ok and not rm[0].loops and guard(rm[0]) is const(True), q, 'the node is not removed')
    ac = calls(e, f"{RN}.add_cond")
    if not ctx.ob('star-mesh', len(ac) == 1, q, f"{len(ac)} places insert resistors"):
        return
    ev = ac[0]
    pr = pair_loops(e, ev.loops, star)
    if not ctx.ob('star-mesh', pr is not None and no_break(e, ev), q, 'not each pair of neighbours is visited once', ev.loc):
        return
    x, y = pr
    b = bind(ctx.prog, ev)
    ctx.ob('star-mesh', {b.get('a'), b.get('b')} == {item(x, const(1)), item(y, const(1))}, q, 'the resistor is not between the two neighbours', ev.loc)
    ctx.ob('eliminated', ok and rm[0].idx > ev.idx, q, 'the node is removed before its neighbours are connected')
    c = b.get('cond')
    v = None
    if c is not None and c.op in ('new', 'call') and str(c.a[0]) == CO:
        v = Msg(e, c, ev.guards, ev.loops, ev.loc, 0, ev.idx).val('cond')
        if v is None:
            v = cargs(c)[0] if cargs(c) else ckw(c).get('cond')
    own = c is not None and loops_of(e, c) == ev.loops
    ctx.ob('own-resistor', own, q, 'the new resistors share one object', ev.loc)
    if not ctx.ob('star-mesh', v is not None, q, 'the value of the new resistor is unknown', ev.loc):
        return
    sums = [t for t in subterms(v) if is_star_sum(e, t, star)]
    g1, g2 = (attr(item(z, const(0)), 'cond') for z in (x, y))
    ok = any(pnorm(v) == pmul(pmul(atom(g1), atom(g2)), pinv(pnorm(s))) for s in sums)
    ctx.ob('star-mesh', ok, q, f"the conductance is {show(v)[:200]}", ev.loc)
    g = guard(ev)

    def enough(t):
        if t.op == 'cmp' and any(x is s or is_call(x, 'abs') and cargs(x)[0] is s for s in sums for x in t.a[1:]):
            k = [x for x in t.a[1:] if x.op == 'const' and isinstance(x.a[0], (int, float)) and abs(x.a[0]) <= 1e-9]
            if k:
                return {'<': t.a[1] is k[0], '<=': t.a[1] is k[0], '==': False}.get(t.a[0])
        return None
    ctx.ob('star-mesh', specialise(g, enough) is const(True), q, f"neighbours are only connected if {show(g)[:160]}", ev.loc)


def loops_of(e, t):
    """loops around the place where the object is created"""
    if t in e.created:
        return tuple(e.created[t])
    for ev in e.events:
        if ev.result is t:
            return ev.loops
    return None


def is_star_sum(e, t, star):
    """the sum of all conductances of the star"""
    if t.op == 'mu' and t in e.mu_info:
        init, upd = e.mu_info[t]
        l = e.loop_by_uid.get(t.a[0])
        if l is None or not star_iter(e, l.iter, star) or l.exits or not (init.op == 'const' and init.a[0] == 0):
            return False
        x = T('elem', l.iter, l.uid)
        return pnorm(upd) == padd(atom(t), atom(attr(item(x, const(0)), 'cond')))
    if is_call(t, 'sum', 'math.fsum') and cargs(t):
        it = list_items(e, cargs(t)[0])
        if it and len(it) == 1:
            v, g, l = it[0]
            return not g and len(l) == 1 and star_iter(e, l[0].iter, star) and v is attr(item(T('elem', l[0].iter, l[0].uid), const(0)), 'cond')
    return False


def eliminate_all(ctx):
    q = f"{RN}.eliminate_all"
    e = ctx.analyse(q, opaque=[f"{RN}.{n}" for n in ('eliminate_node', 'remove_node', 'connect_nodes', 'add_cond')])
    ev = [x for x in effects(e) if x[0] in ('eliminate_node', 'remove_node', 'connect_nodes', 'del', 'set', 'add_cond', 'remove', 'discard', 'clear')
          and (x[1] is None or touches(x[1]))]
    if not ctx.ob('elimination', len(ev) >= 1 and all(x[0] == 'eliminate_node' for x in ev), q, 'nodes are not eliminated by eliminate_node'):
        return
    for k, r, a, x in ev:
        n = a[0]
        keys = n.op in ('key', 'elem') and any(y is STAR for y in subterms(n))
        ctx.ob('elimination', keys and entails(live(e, x.guards), mk_not(HAS(PREC, n))), q, 'a precious node can be eliminated', x.loc)
        # the node list that is iterated is not the index that changes
        inner = x.loops[-1] if x.loops else None
        ok = inner is not None and not (inner.iter is STAR or is_call(inner.iter, '.keys', '.items', '.values'))
        ctx.ob('elimination', ok, q, 'the index changes while it is iterated', x.loc)
        # every other node is taken once its number of neighbours is reached: the bound is taken over all remaining nodes
        g = [l for l in live(e, x.guards) if n in list(subterms(l[0]))]
        deg = [T('call', 'len', (y,), ()) for y in (T('val', STAR, n.a[1]) if n.op == 'key' else item(STAR, n), item(STAR, n))]
        rest = specialise(conj(g), lambda t: False if t is HAS(PREC, n) else True if t is HAS(STAR, n) else None)
        ok = rest is const(True) or rest.op == 'not' and rest.a[0].op == 'cmp' and rest.a[0].a[0] == '<' and rest.a[0].a[2] in deg
        ctx.ob('elimination', ok, q, f"a node that is not precious is only eliminated if {show(rest)[:160]}", x.loc)
        if ok and rest is not const(True):
            bound = rest.a[0].a[1]
            ctx.ob('elimination', raised_bound(e, bound, n, deg), q, 'nodes with more neighbours are never eliminated', x.loc)


def raised_bound(e, b, n, deg):
    """the bound on the number of neighbours is replaced by the smallest number found among the remaining nodes until there is none"""
    seen = set()
    todo = [b]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'mu' and t in e.mu_info:
            init, upd = e.mu_info[t]
            todo += list(leaves(init)) + list(leaves(upd))
            if is_minimum(e, t, n, deg):
                return True
        elif is_call(t, 'min'):
            return True
    return False


def is_minimum(e, t, n, deg):
    init, upd = e.mu_info[t]
    if not is_const(init, None):
        return False
    for d in deg:
        for c, v in gated_leaves(upd):
            if v is not t and v is not d and not (is_call(v, 'min') and set(cargs(v)) == {t, d}):
                return False
        got = [(c, v) for c, v in gated_leaves(upd) if v is d or is_call(v, 'min')]
        if not got:
            continue
        keep = [c for c, v in gated_leaves(upd) if v is t]
        # kept only: precious, taken, or already smaller
        ok = all(not sat(list(c) + [mk_cmp('==', t, const(None))] + [mk_not(HAS(PREC, n))] + taken(c, d)) for c in keep)
        ok = ok and all(not sat(list(c) + [mk_cmp('<', d, t), mk_not(HAS(PREC, n))] + taken(c, d)) for c in keep)
        if ok:
            return True
    return False


def taken(c, d):
    """the node has more neighbours than the present bound"""
    out = []
    for l in c:
        for x in subterms(l[0]):
            if x.op == 'cmp' and x.a[0] == '<' and x.a[2] is d and x.a[1].op == 'mu':
                out.append(x)
    return out


def node_id(ctx):
    q = f"{RN}.node_id"
    e = ctx.analyse(q)
    p = P('point')
    nid = T('attr', ME, 'next_id')
    known = HAS(NODES, p)
    rets = [ev for ev in e.events if ev.kind == 'return' and len(ev.ctx) == 1]
    for has in (True, False):
        vals = []
        for ev in rets:
            if specialise(conj(live(e, ev.guards)), lambda t: has if t is known else None) is const(False):
                continue
            vals += [v for v in feasible(ev.args[0], list(ev.guards) + [(known, has)])]
        want = item(NODES, p) if has else nid
        ctx.ob('node-id', vals == [want], f"{q} {'known' if has else 'new'} point", f"gives {[show(v)[:80] for v in vals]}")
    ef = [x for x in effects(e) if touches(x[1])]
    exp = {('set', NODES, (p, nid)), ('set', LOC, (nid, p))}
    got = {(k, r, a) for k, r, a, ev in ef if k == 'set' and equiv(conj(live(e, ev.guards)), mk_not(known))}
    ctx.ob('node-id', got == exp, q, 'a new node is not entered in both indexes')
    st = [x for x in ef if x[0] == 'store']
    ok = len(st) == 1 and is_const(st[0][2][0], 'next_id') and pnorm(st[0][2][1]) == padd(pnorm(nid), {(): Fraction(1)}) and \
        equiv(conj(live(e, st[0][3].guards)), mk_not(known))
    ctx.ob('node-id', ok, q, 'a node id can be given twice')


def conductance(ctx):
    a, b = T('attr', ME, 'cond'), T('attr', P('other'), 'cond')
    par = padd(pnorm(a), pnorm(b))
    ser = pinv(padd(pinv(atom(a)), pinv(atom(b))))
    prod = pmul(pmul(atom(a), atom(b)), pinv(par))
    for fn, want in (('add_parallel', [par]), ('add_serial', [ser, prod])):
        q = f"{CO}.{fn}"
        if q not in ctx.prog.funcs:
            continue
        e = ctx.analyse(q)
        v = e.final.heap.get((ME, 'cond')) if e.final else None
        got = list(gated_leaves(v)) if v is not None else []
        ok = bool(got)
        for c, x in got:
            if pnorm(x) in want:
                continue
            ok = ok and fn == 'add_serial' and x.op == 'const' and x.a[0] == 0 and open_circuit(c, a, b)
        ctx.ob('conductance', ok and any(pnorm(x) in want for _, x in got), q, f"gives {[show(x)[:100] for _, x in got]}")
        bad = [ev for ev in e.events if ev.kind == 'store' and ev.recv is not ME]
        ctx.ob('conductance', not bad, q, 'changes its argument')
    for fn in ('parallel', 'serial', 'copy'):
        q = f"{CO}.{fn}"
        if q not in ctx.prog.funcs:
            continue
        e = ctx.analyse(q)
        bad = [ev for ev in e.events if ev.kind == 'store' and ev.recv in (ME, P('other'))]
        ctx.ob('conductance', not bad, q, 'changes an operand')


def open_circuit(c, a, b):
    """only when one of the two is (nearly) zero"""
    def small(t, yes):
        if t.op == 'cmp' and t.a[0] in ('<', '<=', '=='):
            for x in (a, b):
                if any(y is x or is_call(y, 'abs') and cargs(y)[0] is x for y in t.a[1:]) and \
                        any(y.op == 'const' and isinstance(y.a[0], (int, float)) and abs(y.a[0]) <= 1e-9 for y in t.a[1:]):
                    return False if yes else None
        return None
    return specialise(conj(c), lambda t: small(t, True)) is const(False) and c
