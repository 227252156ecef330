"""C26-C31, C45 2.5D capacitance extraction."""
from fractions import Fraction
from ..core import check, Ctx
from ..q import *
from ..bools import sat, entails, equiv, conj, feasible, specialise, pick
from ..vfa import truthy, const, mk_not, mk_cmp, mk_and, mk_or, literals
from .netlists import live
from .techinfo import path

EX = 'klayout_pex.rcx25.extractor.RCX25Extractor'
TI = 'klayout_pex.tech_info.TechInfo'
RES = 'klayout_pex.rcx25.extraction_results.CellExtractionResults'
REP = 'klayout_pex.rcx25.extraction_reporter.ExtractionReporter'
CTX = 'klayout_pex.klayout.lvsdb_extractor.KLayoutExtractionContext'
TABLES = [f"{TI}.{x}" for x in ('overlap_cap_by_layer_names', 'side_overlap_cap_by_layer_names', 'sidewall_cap_by_layer_name',
                                 'substrate_cap_by_layer_name', 'process_metal_layers', 'canonical_layer_name_by_gds_pair', 'gds_pair')]
ME = T('param', 'self')
SELF_TECH = T('attr', ME, 'tech_info')
INSIDE, NAMES, REGIONS = T('sym', 'inside layer index'), T('sym', 'layer names'), T('sym', 'layer regions')
SUBS = 'VSUBS'
TH = Fraction(1, 1000)


def flat_lits(ls):
    out = []
    for t, p in ls:
        if p and t.op == 'and':
            out += flat_lits([(x, True) if x.op != 'not' else (x.a[0], False) for x in t.a])
        else:
            out.append((t, p))
    return out


def lits(e, guards):
    return flat_lits(live(e, guards))


def eq_lit(t, p, a, b):
    return t.op == 'cmp' and t.a[0] == '==' and {t.a[1], t.a[2]} == {a, b} and p


def fval(e, obj, name, guards=()):
    """value of a field of an object of this program as it is where the guards hold"""
    if obj is None:
        return None
    if obj.op == 'ite':
        ls = feasible(obj, [t if p else mk_not(t) for t, p in guards])
        if len(ls) != 1:
            return None
        obj = ls[0]
    st = [ev.args[0] for ev in e.events if ev.kind == 'store' and ev.recv is obj and ev.callee == name]
    if len(set(st)) == 1:
        return st[0]
    if not st and obj.op == 'new' and name in ckw(obj):
        return ckw(obj)[name]
    f = field(e, obj, name)
    if f is None:
        return None
    known = {t: p for t, p in guards}
    f = specialise(f, known.get)
    ls = feasible(f, [t if p else mk_not(t) for t, p in guards])
    return ls[0] if len(ls) == 1 else f


class Extraction:
    """the composed view of extract_cell: the layer table, the visitors and where they run"""

    def __init__(self, ctx: Ctx):
        self.ctx = ctx
        self.e = e = ctx.analyse(f"{EX}.extract_cell", opaque=TABLES + [REP, CTX, RES, 'klayout_pex.rcx25.r'])
        self.runs = {}
        for kind, name in (('polygon', 'new_polygon_neighborhood'), ('edge', 'new_edge_neighborhood')):
            evs = calls(e, f"klayout.db.CompoundRegionOperationNode.{name}")
            ctx.need(len(evs) == 1, f"extract_cell: {len(evs)} calls of {name}")
            self.runs[kind] = evs[0]
        self.tables = {}

    def layer_table(self, rv):
        """dict of the layer regions behind a region value / sequence"""
        return rv

    def run(self, kind):
        """(visitor term, children term, complex_op event, node event)"""
        e, ev = self.e, self.runs[kind]
        a = dict(zip(('children', 'visitor', 'bext', 'eext', 'din', 'dout'), ev.args))
        a.update(ev.kw)
        v = a.get('visitor')
        ops = [x for x in calls(e, '.complex_op') if x.args and x.args[0] is ev.result]
        return a, v, ops, ev


def table_of(seq):
    """dict behind .items()/.values()/.keys()/list(...)/enumerate(...)"""
    while True:
        if is_call(seq, 'list', 'enumerate', 'tuple', 'iter', 'sorted') and cargs(seq):
            if is_call(seq, 'sorted'):
                return None
            seq = cargs(seq)[0]
        elif is_call(seq, '.items', '.values', '.keys') and cargs(seq):
            seq = cargs(seq)[0]
        else:
            return seq


def canon(t, D, uid):
    """rewrite the many spellings of index, name and region of the current layer over the layer table D; uid: the loop over the layers"""
    memo = {}

    def is_names(x):
        return is_call(x, 'list', 'tuple') and len(cargs(x)) == 1 and (cargs(x)[0] is D or is_call(cargs(x)[0], '.keys') and
                                                                       cargs(cargs(x)[0])[0] is D)

    def is_regions(x):
        if is_call(x, 'list', 'tuple') and len(cargs(x)) == 1:
            x = cargs(x)[0]
        return is_call(x, '.values') and cargs(x)[0] is D

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if x.op == 'const':
            return x
        if is_names(x):
            r = NAMES
        elif is_regions(x):
            r = REGIONS
        elif x.op == 'index' and x.a[1] == uid and table_of(x.a[0]) is D:
            r = INSIDE
        elif x.op == 'elem' and is_call(x.a[0], 'enumerate', 'range') is False and is_names(x.a[0]):
            r = T('item', NAMES, INSIDE if x.a[1] == uid else T('index', NAMES, x.a[1]))
        elif x.op == 'key' and x.a[1] == uid and table_of(x.a[0]) is D:
            r = T('item', NAMES, INSIDE)
        elif x.op == 'val' and x.a[1] == uid and table_of(x.a[0]) is D:
            r = T('item', REGIONS, INSIDE)
        else:
            r = T(x.op, *[go(y) for y in x.a])
        memo[x] = r
        return r
    return go(t)


class Visit:
    """one visitor callback with the values that the constructor site gives to its fields"""

    def __init__(self, ctx, X: Extraction, kind, method):
        self.ctx, self.X = ctx, X
        self.args, self.visitor, self.ops, self.node = X.run(kind)
        v = self.visitor
        ctx.need(v is not None and v.op == 'new' and v.a[0] in ctx.prog.classes, f"{kind}: the visitor is not an object of this program")
        self.cls = v.a[0]
        self.q = f"{self.cls}.{method}"
        ctx.need(self.q in ctx.prog.funcs, f"{self.q} is gone")
        self.e = ctx.analyse(self.q, opaque=TABLES + [REP, RES])
        stored = {ev.callee for ev in X.e.events if ev.kind == 'store' and ev.recv is v}
        ctx.need(stored, f"{self.cls}: no fields")
        self.D = self.find_table()
        self.uid = self.ops[0].loops[-1].uid if self.ops and self.ops[0].loops else None
        self.m = {T('attr', ME, n): canon(fval(X.e, v, n, self.ops[0].guards if self.ops else ()), self.D, self.uid) for n in stored}
        self.memo = {}

    def find_table(self):
        for op in self.ops:
            if op.loops:
                t = table_of(op.loops[-1].iter)
                if t is not None:
                    return t
        self.ctx.need(False, f"{self.cls}: not run for each layer")

    def __call__(self, t):
        """resolve fields of the visitor, then canonical names"""
        if t in self.memo:
            return self.memo[t]
        r = refold(subst(t, self.m))
        self.memo[t] = r
        return r

    def lits(self, guards):
        out = []
        for t, p in lits(self.e, guards):
            t = self(t)
            if t.op == 'const':
                if bool(t.a[0]) != p:
                    out.append((const(False), True))
                continue
            out.append((t, p))
        return out

    def deep_lits(self, guards):
        return self.lits([(deep_index(self.e, t), p) for t, p in guards])


def refold(t):
    """comparisons are re-built so that their canonical order matches"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or x.op == 'const':
            return x
        if x in memo:
            return memo[x]
        a = [go(y) for y in x.a]
        if x.op in ('elem', 'val', 'key', 'index') and a[0].op == 'ite':
            ls = [l for l in leaves(a[0]) if not (l.op == 'tuple' and not l.a or l.op == 'lit' and not l.a[1])]
            if len(ls) == 1:
                a[0] = ls[0]
        r = mk_cmp(*a) if x.op == 'cmp' else T(x.op, *a)
        if r.op == 'elem' and r.a[0] is NAMES:
            r = T('item', NAMES, T('index', *r.a))
        memo[x] = r
        return r
    return go(t)


def by_index(e, t):
    """element of a comprehension at the index of a loop over the same sequence"""
    if t.op == 'item' and t.a[0].op == 'comp' and t.a[1].op == 'index':
        c = e.comps[t.a[0].a[1]]
        if len(c['loops']) == 1 and not c['guards'] and c['loops'][0].iter is t.a[1].a[0]:
            lp = c['loops'][0]
            x = T('elem', lp.iter, t.a[1].a[1])
            m = {lp.elem: x, T('index', lp.iter, lp.uid): t.a[1]}
            return by_index(e, subst(c['elt'], m))
    if t.op == 'elem' and t.a[0].op == 'comp':
        c = e.comps[t.a[0].a[1]]
        if len(c['loops']) == 1 and not c['guards'] and c['kind'] in ('list', 'gen', 'listcomp', 'genexp'):
            lp = c['loops'][0]
            return by_index(e, subst(c['elt'], {lp.elem: T('elem', lp.iter, t.a[1]), T('index', lp.iter, lp.uid): T('index', lp.iter, t.a[1])}))
    return t


def key_fields(V, cap, ev, names):
    key = fval(V.e, cap, 'key', ev.guards)
    r = {n: fval(V.e, key, n, ev.guards) for n in names}
    return None if any(v is None for v in r.values()) else {n: V(v) for n, v in r.items()}


def is_net(v, name, poly):
    """v is the net of the polygon/edge: 'VSUBS' if the layer name is VSUBS, else its property; a plain property is not enough for
    the substrate"""
    isub = mk_cmp('==', name, const(SUBS))
    a = feasible(v, [isub])
    b = feasible(v, [mk_not(isub)])
    return len(a) == 1 and is_const(a[0], SUBS) and len(b) == 1 and is_prop(b[0], poly)


def is_prop(t, poly):
    return is_call(t, '.property') and len(cargs(t)) == 2 and cargs(t)[0] is poly and is_const(cargs(t)[1], 'net')


def lookup(t):
    """table[k1][k2]... -> (table, [keys])"""
    ks = []
    while True:
        if t.op == 'item':
            ks.append(t.a[1])
            t = t.a[0]
        elif is_call(t, '.get') and len(cargs(t)) >= 2 and not (len(cargs(t)) > 2 and not (
                is_const(cargs(t)[2], None) or cargs(t)[2].op == 'lit')):
            ks.append(cargs(t)[1])
            t = cargs(t)[0]
        else:
            return t, list(reversed(ks))


def is_table(t, name):
    return t.op == 'call' and str(t.a[0]) == f"{TI}.{name}" and cargs(t)[0] is SELF_TECH


def region_parts(t):
    """(operands that the region is intersected of, regions that are subtracted)"""
    if t.op == 'bin' and t.a[0] in '&-' or is_call(t, '.__and__', '.__sub__', '.and_', '.__rand__') and len(cargs(t)) == 2:
        op, a, b = t.a if t.op == 'bin' else ('-' if t.a[0].endswith('sub__') else '&', *cargs(t))
        pa, na = region_parts(a)
        if op == '-':
            return pa, na | {b}
        pb, nb = region_parts(b)
        return pa | pb, na | nb
    if is_call(t, '.merged', '.dup') and len(cargs(t)) == 1:
        return region_parts(cargs(t)[0])
    if is_call(t, 'klayout.db.Region') and len(cargs(t)) == 1:
        return frozenset([cargs(t)[0]]), frozenset()
    return frozenset([t]), frozenset()


def fill(e, R, seen=None):
    """contributions to a region: [(what, guards, loops)] from its construction, insert calls and += updates; None: starting value"""
    seen = seen if seen is not None else set()
    if R in seen:
        return []
    seen.add(R)
    out = []
    if R.op == 'mu':
        i, u = e.mu_info[R]
        out += fill(e, i, seen)
        lp = e.loop_by_uid.get(R.a[0])
        for c, l in gated_leaves(u):
            out += [(w, tuple(g) + tuple(c), tuple(ls) or ((lp,) if lp is not None else ())) for w, g, ls in add_parts(e, l, seen)]
    elif R.op == 'ite':
        for c, l in gated_leaves(R):
            out += [(w, tuple(c) + tuple(g), ls) for w, g, ls in fill(e, l, seen)]
    elif R.op == 'bin' and R.a[0] in '+|':
        out += add_parts(e, R, seen)
    elif is_call(R, 'klayout.db.Region'):
        for x in cargs(R):
            out.append((x, (), ()))
    else:
        out.append((R, (), ()))
    for ev in e.by_recv.get(R, []):
        if ev.kind == 'call' and ev.callee in ('.insert', '.__iadd__'):
            out.append((ev.args[0], tuple(ev.guards), tuple(ev.loops)))
    return out


def carries(e, t, m, seen=()):
    """the value still contains what the loop-carried region m contained"""
    if t is m:
        return True
    if t in seen:
        return True
    if t.op == 'mu':
        i, u = e.mu_info[t]
        return carries(e, i, m, seen + (t,)) and accumulates(e, t)
    if t.op == 'ite':
        return all(carries(e, l, m, seen) for _, l in gated_leaves(t))
    if t.op == 'bin' and t.a[0] in '+|':
        return carries(e, t.a[1], m, seen) or carries(e, t.a[2], m, seen)
    if is_call(t, '.merged', '.dup', '.__add__', '.__or__', '.__iadd__', '.__ior__'):
        return any(carries(e, x, m, seen) for x in cargs(t))
    return False


_ACC = {}


def accumulates(e, R):
    """a loop-carried region never loses what it contained before"""
    if R.op == 'ite':
        return all(accumulates(e, l) for _, l in gated_leaves(R))
    if R.op == 'bin' and R.a[0] in '+|':
        return accumulates(e, R.a[1]) and accumulates(e, R.a[2])
    if R.op != 'mu' or R not in e.mu_info:
        return True
    k = (id(e), R)
    if k not in _ACC:
        _ACC[k] = True
        i, u = e.mu_info[R]
        _ACC[k] = accumulates(e, i) and all(carries(e, l, R) for _, l in gated_leaves(u))
    return _ACC[k]


def add_parts(e, t, seen):
    if t.op == 'bin' and t.a[0] in '+|':
        return add_parts(e, t.a[1], seen) + add_parts(e, t.a[2], seen)
    if t.op in ('mu', 'ite') or is_call(t, 'klayout.db.Region'):
        return fill(e, t, seen)
    return [(t, (), ())] + [(ev.args[0], tuple(ev.guards), tuple(ev.loops)) for ev in e.by_recv.get(t, [])
                            if ev.kind == 'call' and ev.callee == '.insert']


# ------------------------------------------------------------------ the layers
def layer_order(ctx, X: Extraction, kind, D):
    """D: substrate first, then the layers of the process stack, bottom up"""
    e = X.e
    q = f"{EX}.extract_cell"
    sets = [ev for ev in e.by_recv.get(D, []) if ev.kind == 'setitem']
    sub = [ev for ev in sets if is_const(ev.args[0], SUBS)]
    lay = [ev for ev in sets if ev not in sub]
    if D.op == 'lit' and D.a[0] == 'dict':
        sub += [x for x in D.a[1] if is_const(x[0], SUBS)]
    tech_metals = T('call', f"{TI}.process_metal_layers", (SELF_TECH,), ())
    ok = len(sub) == 1 and len(lay) >= 1
    ctx.ob('layers-known', ok, q, 'the layer table does not consist of the substrate and the metals')
    if not ok:
        return
    s = sub[0]
    sidx = s.idx if hasattr(s, 'idx') else -1
    ctx.ob('layers-substrate-first', all(sidx < l.idx for l in lay) and not getattr(s, 'loops', ()) and not lits(e, getattr(s, 'guards', ())), q,
           'the substrate is not the lowest layer')
    R = s.args[1] if hasattr(s, 'args') else s[1]
    fl = fill(e, R)
    halo = path(SELF_TECH, 'tech.process_parasitics.side_halo')
    dbu = path(ME, 'pex_context.dbu')
    ok = len(fl) == 1
    if ok:
        b = fl[0][0]
        ok = is_call(b, '.enlarged') and len(cargs(b)) in (2, 3) and cargs(b)[0].op == 'call' and \
            all(pnorm(x) == pmul(pnorm(halo), pinv(pnorm(dbu))) for x in cargs(b)[1:]) and str(cargs(b)[0].a[0]).endswith('top_cell_bbox')
    ctx.ob('layers-substrate-size', ok, q, f"the substrate covers {[show(x[0])[:100] for x in fl]}, not the layout enlarged by the halo")
    for l in lay:
        lp = l.loops
        ok = len(lp) == 1 and table_of(lp[0].iter) is tech_metals and not [x for x in lp[0].exits if x[0] in ('break', 'return')]
        ctx.ob('layers-stack', ok, q, 'the layers are not taken from the metals of the process stack in their order', l.loc)
        if not ok:
            continue
        m = lp[0].elem if lp[0].elem.op != 'tuple' else lp[0].elem.a[1]
        k = l.args[0]
        pair = T('call', f"{TI}.gds_pair", (SELF_TECH, path(m, 'name')), ())
        tb, ks = lookup(k)
        okk = is_table(tb, 'canonical_layer_name_by_gds_pair') and len(ks) == 1 and is_gds_pair(ks[0], m)
        ctx.ob('layers-name', okk, q, f"the layer is called {show(k)[:120]}", l.loc)
        parts = [w for w, g, ls in add_parts(e, l.args[1], set()) if not is_const(w, None)]
        own = [w for w in parts if lookup(w)[0] is D and lookup(w)[1] == [k]]
        new = [w for w in parts if w not in own]
        ok = len(new) == 1 and shapes_of(new[0], m)
        ctx.ob('layers-shapes', ok, q, f"the shapes of the layer are {[show(w)[:100] for w in new]}", l.loc)
        prior = D.op in ('call', 'new') and is_call(D, 'defaultdict')
        ctx.ob('layers-merge', len(own) == 1 or not prior, q, 'layers with the same name replace each other', l.loc)
        if ok:
            def there(t):
                # the layer has a gds pair, and there are shapes for it
                known = lambda x: x is pair or is_gds_pair(x, m) or x.op == 'call' and shapes_of(x, m)
                if known(t):
                    return True
                if t.op == 'cmp' and t.a[0] in ('==', 'is') and is_const(t.a[2], None) and known(pick(t.a[1], there)):
                    return False
                return None
            rest = [(t, p) for t, p in lits(e, l.guards) if specialise(t, there) is not const(p)]
            ctx.ob('layers-shapes', known_shapes(pick(new[0], there), m), q, f"the shapes of a layer with a gds pair are {show(pick(new[0], there))[:100]}", l.loc)
            ctx.ob('layers-all', not rest, q, f"layers are only used when {show(conj(rest))[:120]}", l.loc)


def is_gds_pair(t, m):
    return t.op == 'call' and str(t.a[0]) == f"{TI}.gds_pair" and any(a is path(m, 'name') for a in list(cargs(t)) + list(ckw(t).values()))


def known_shapes(t, m):
    return t.op == 'call' and shapes_of(t, m)


def shapes_of(t, m):
    """the shapes that the extraction context has for the layer m (possibly None without gds pair)"""
    for l in leaves(t):
        if is_const(l, None):
            continue
        if not (l.op == 'call' and str(l.a[0]) == f"{CTX}.shapes_of_layer" and any(is_gds_pair(a, m) for a in list(cargs(l)) + list(ckw(l).values()))):
            return False
    return True


def placement(ctx, X, V: Visit, kind):
    """each layer runs the visitor with its own index, over children that are the layers in the same order"""
    e, q = X.e, f"{V.cls}"
    D = V.D
    layer_order(ctx, X, kind, D)
    ok = len(V.ops) == 1
    ctx.ob('run-once', ok, q, f"the visitor runs {len(V.ops)} times per layer")
    if not ok:
        return None
    op = V.ops[0]
    recv = canon(op.recv, D, V.uid)
    ctx.ob('run-region', recv is T('item', REGIONS, INSIDE) or recv is T('item', D, T('item', NAMES, INSIDE)), q,
           f"the visitor runs on {show(op.recv)[:100]}", op.loc)
    lp = op.loops[-1]
    ctx.ob('run-all', len(op.loops) == 1 and not [x for x in lp.exits if x[0] != 'continue'], q, 'not every layer is visited', op.loc)
    ch = V.args.get('children')
    its = list_items(e, ch) if ch is not None else None
    own = [ev for ev in e.by_recv.get(ch, []) if ev.kind == 'setitem'] if ch is not None else []
    return dict(op=op, children=ch, items=its or [], over=own)


def mode_lits(e, guards):
    """guards without the extraction mode"""
    return [(t, p) for t, p in lits(e, guards) if not mentions(t, path(ME, 'pex_mode'))]


def children_ok(ctx, X, V, pl, edge):
    """one child per layer, in the order of the layers; for edges: foreign shapes on the own layer, and the own polygon last"""
    e, q, D = X.e, V.cls, V.D
    its, op = list(pl['items']), pl['op']
    out_uid = op.loops[-1].uid
    NODE = 'klayout.db.CompoundRegionOperationNode'
    if edge:
        last = its[-1] if its else None
        ok = last is not None and is_call(last[0], f"{NODE}.new_primary") and not [g for g in last[1] if g not in op.guards] and \
            not [l for l in last[2] if l not in op.loops]
        ctx.ob('own-polygon', ok, q, 'the own polygon is not the last child', V.node.loc)
        its = its[:-1]
    got = []
    ok = bool(its)
    for v, g, lp in its:
        seq = lp[-1] if lp and lp[-1].uid != out_uid else None
        ok = ok and seq is not None and seq.iter is not None and table_of(seq.iter) is D and not [x for x in seq.exits if x[0] in ('break', 'return')]
        if not ok:
            break
        conds = [t if p else mk_not(t) for t, p in lits(e, [x for x in g if x not in op.guards])]
        for c, l in gated_leaves(v):
            got.append((conds + [t for t in c], l, seq))
    own_l, oth_l = [], []
    for conds, l, seq in got:
        def same(t, seq=seq):
            """does the condition say that this is the own layer"""
            if t.op == 'cmp' and t.a[0] == '==':
                us = {x.a[1] for x in t.a[1:] if isinstance(x, T) and x.op in ('index', 'key', 'val', 'elem') and table_of(x.a[0]) is D}
                if us == {seq.uid, out_uid}:
                    return True
            return None
        for flag, dst in ((True, own_l), (False, oth_l)):
            c = specialise(conj([(t, True) if t.op != 'not' else (t.a[0], False) for t in conds]), lambda t: flag if same(t) else None)
            if c.op == 'const' and c.a[0]:
                dst.append((l, seq))
            elif c.op != 'const':
                ok = False

    def sec(l, seq):
        return is_call(l, f"{NODE}.new_secondary") and len(cargs(l)) == 1 and (
            cargs(l)[0] is seq.elem and not is_call(seq.iter, 'enumerate', '.items') or
            cargs(l)[0].op in ('val', 'elem') and cargs(l)[0].a[1] == seq.uid)
    ok = ok and len(oth_l) == 1 and sec(*oth_l[0])
    ctx.ob('children', ok, q, 'the neighbourhood does not consist of the layers in their order', V.node.loc)
    over = pl['over']
    if edge:
        ok = len(own_l) == 1 and is_call(own_l[0][0], f"{NODE}.new_foreign") and not over or \
            len(own_l) == 1 and len(over) == 1 and canon(over[0].args[0], D, V.uid) is INSIDE and is_call(over[0].args[1], f"{NODE}.new_foreign") and over[0].guards == op.guards
        ctx.ob('own-layer', ok, q, 'the own layer is not seen through polygons of other shapes', V.node.loc)
    else:
        ctx.ob('own-layer', len(own_l) == 1 and sec(*own_l[0]) and not over, q, 'the own layer is not part of the neighbourhood', V.node.loc)


# ------------------------------------------------------------------ C26
class Poly:
    """a polygon of the neighbourhood: elem of the list that belongs to a layer index"""

    def __init__(self, V, t, nb):
        self.k = None
        if t.op != 'elem':
            return
        s = t.a[0]
        if is_call(s, '.get') and cargs(s)[0] is nb:
            self.k = cargs(s)[1]
        elif s.op == 'item' and s.a[0] is nb:
            self.k = s.a[1]
        elif s.op == 'val' and table_src(s.a[0]) is nb:
            self.k = T('key', s.a[0], s.a[1])


def table_src(t):
    while is_call(t, 'sorted', 'list', '.items') and cargs(t):
        t = cargs(t)[0]
    return t


def above_range(V, k, ls, guards):
    """k runs upwards over all layers above the inside one"""
    k = V(k)
    loops = [l for l in ls if l.iter is not None]
    one = {(): Fraction(1)}
    for l in loops:
        it = V(l.iter)
        el = V(l.elem) if l.elem is not None else None
        if k is el or (el is not None and el.op == 'tuple' and el.a[0] is k) or k.op in ('key', 'index') and k.a[1] == l.uid:
            if is_call(it, 'range'):
                a = cargs(it)
                lo, hi = (const(0), a[0]) if len(a) == 1 else (a[0], a[1])
                n = pnorm(T('call', 'len', (NAMES,), ()))
                if len(a) > 2 and not is_const(a[2], 1):
                    return False
                lo_ok = pnorm(lo) == padd(pnorm(INSIDE), one) or any(
                    p and t.op == 'cmp' and t.a[0] == '<' and t.a[1] is INSIDE and t.a[2] is k for t, p in V.lits(guards)) and pnorm(lo) in ({}, pnorm(INSIDE))
                return lo_ok and pnorm(hi) == n
            src = it
            while is_call(src, 'sorted', 'list', 'enumerate', '.items') and cargs(src):
                src = cargs(src)[0]
            sorted_ = is_call(it, 'sorted') and not ckw(it)
            if src is NAMES or (is_param(src) and sorted_):
                return any(p and t.op == 'cmp' and t.a[0] == '<' and t.a[1] is INSIDE and t.a[2] is k for t, p in V.lits(guards))
    return False


@check('C26', 'value-flow analysis composed over the constructor chain; polynomial comparison; region algebra; guard classification',
       'Decides the layer order, the neighbourhood, the pairs of layers and polygons that are visited, the formula, its coefficient, the '
       'shielding set and its order, and the key. The geometry itself (areas, intersections) is computed by KLayout and trusted.')
def c26(ctx: Ctx):
    """The overlap visitor, composed with the sites that create and run it."""
    X = Extraction(ctx)
    V = Visit(ctx, X, 'polygon', 'neighbors')
    e, q = V.e, V.q
    pl = placement(ctx, X, V, 'polygon')
    if pl is None:
        return
    children_ok(ctx, X, V, pl, False)
    ctx.ob('no-distance', len(V.node.args) + len(V.node.kw) <= 2 or all(is_const(a, 0) for a in V.node.args[2:]), V.cls,
           'polygons at a distance are visited as well', V.node.loc)
    f = ctx.prog.funcs[q]
    poly, nb = T('param', f.params[3]), T('param', f.params[4])
    adds = calls(e, f"{RES}.add_overlap_cap")
    ctx.need(len(adds) >= 1, f"{q} records no overlap capacitance")
    ctx.ob('record-once', len(adds) == 1, q, 'an overlap capacitance is recorded more than once')
    for ev in adds:
        ctx.ob('record-where', V(ev.recv) is T('param', 'results'), q, 'the capacitance is not recorded in the results of the cell', ev.loc)
        cap = ev.args[0]
        kf = key_fields(V, cap, ev, ('layer_top', 'net_top', 'layer_bot', 'net_bot'))
        if not kf or not is_call(kf['net_top'], '.property'):
            ctx.fail('key', q, 'the key of the capacitance has no nets', ev.loc)
            continue
        pt = cargs(kf['net_top'])[0]
        P = Poly(V, pt, nb)
        ctx.ob('key-top', P.k is not None and is_prop(kf['net_top'], pt) and kf['layer_top'] is T('item', NAMES, V(P.k)), q,
               f"the upper side is {show(kf['layer_top'])[:80]} / {show(kf['net_top'])[:80]}", ev.loc)
        name = T('item', NAMES, INSIDE)
        ctx.ob('key-bottom', kf['layer_bot'] is name and is_net(kf['net_bot'], name, poly), q,
               f"the lower side is {show(kf['layer_bot'])[:80]} / {show(kf['net_bot'])[:80]}", ev.loc)
        if P.k is None:
            continue
        ctx.ob('above', above_range(V, P.k, ev.loops, ev.guards), q, 'the layers above are not visited upwards', ev.loc)
        # formula
        val = fval(e, cap, 'cap_value', ev.guards)
        pn = pnorm(V(val))
        areas = [a for m in pn for a, x in m if isinstance(a, T) and is_call(a, '.area') and x == 1]
        specs = [a for m in pn for a, x in m if isinstance(a, T) and a.op == 'attr' and a.a[1] == 'capacitance']
        ok = len(areas) == 1 and len(specs) == 1
        if ok:
            want = pmul(pmul(pnorm(areas[0]), {((path(ME, 'pex_context.dbu'), 2),): TH}), pnorm(specs[0]))
            ok = pn == want
        ctx.ob('formula', ok, q, f"the capacitance is {pshow(pn)[:200]}", ev.loc)
        if not ok:
            continue
        spec = specs[0].a[0]
        tb, ks = lookup(spec)
        ctx.ob('coefficient', is_table(tb, 'overlap_cap_by_layer_names') and ks == [T('item', NAMES, V(P.k)), name], q,
               f"the coefficient is that of {[show(k)[:60] for k in ks]}", ev.loc)
        pos, neg = region_parts(cargs(areas[0])[0])
        ctx.ob('overlap-region', pos == frozenset([poly, pt]), q, f"the area is that of the intersection of {[show(x)[:60] for x in pos]}", ev.loc)
        shields = list(neg)
        ctx.ob('shield', len(shields) >= 1, q, 'layers in between do not shield', ev.loc)
        got = []
        for R in shields:
            got += [(w, g, ls) for w, g, ls in fill(e, R)]
        ok = bool(got) and all(V(w) is pt or region_parts(V(w))[0] == frozenset([pt]) for w, g, ls in got)
        ctx.ob('shield-what', ok, q, f"the shield consists of {[show(w)[:60] for w, _, _ in got]}", ev.loc)
        ins = [x for R in shields for x in e.by_recv.get(R, []) if x.callee == '.insert']
        area_ev = [x for x in e.events if x.kind == 'call' and x.callee == '.area' and V(x.result) is areas[0]]
        ok = bool(ins) and bool(area_ev) and all(i.idx > a.idx for i in ins for a in area_ev) or any(R.op == 'mu' for R in shields)
        ctx.ob('shield-order', ok, q, 'a polygon shields itself', ev.loc)
        fresh = all(kept(e, R) and accumulates(e, R) for R in shields)
        ctx.ob('shield-kept', fresh, q, 'the shield does not reach the layers above', ev.loc)
        val_rest = [(t, p) for t, p in V.lits(ev.guards) if not allowed26(V, t, p, kf, nb, spec, tb, pn, areas[0])]
        ctx.ob('recorded-always', not val_rest, q, f"a capacitance is only recorded when {show(conj(val_rest))[:160]}", ev.loc)
        for i in ins:
            rest = [(t, p) for t, p in V.lits(i.guards) if not allowed26(V, t, p, kf, nb, spec, tb, None, None)]
            ctx.ob('shield-always', not rest, q, f"a polygon only shields when {show(conj(rest))[:160]}", i.loc)
        for o in [x for x in _subterms(spec) if is_call(x, '.get') and len(cargs(x)) == 2 or is_call(x, '.get') and is_const(cargs(x)[2], None)]:
            known = any((t is o or t.op in ('truthy', 'cmp') and o in t.a) and present(t, p) for t, p in V.lits(ev.guards))
            ctx.ob('coefficient-there', known, q, f"{show(o)[:100]} is used although it may be missing", ev.loc)
        for l in ev.loops:
            bad = [x for x in l.exits if x[0] in ('break', 'return')]
            ctx.ob('all-visited', not bad, q, 'the visit ends before all layers above were seen', bad[0][2] if bad else '')


def allowed26(V, t, p, kf, nb, spec, tb, pn, area):
    if t.op == 'cmp' and t.a[0] == '==' and {t.a[1], t.a[2]} == {kf['net_top'], kf['net_bot']}:
        return not p
    if t.op == 'cmp' and t.a[0] == '<' and t.a[1] is INSIDE:
        return p
    if mentions(t, nb) and not contains(t, lambda x: is_call(x, '.property') or is_call(x, '.area')):
        return present(t, p)     # the layer has polygons here
    base = t.a[0] if t.op == 'truthy' else t.a[1] if t.op == 'cmp' and t.a[0] in ('==', 'is', 'in') else t
    lk = lookup(base)
    if (lk[0] is tb or t.op == 'cmp' and t.a[0] == 'in' and lookup(t.a[2])[0] is tb):
        return present(t, p)     # the coefficient exists
    if pn is not None and t.op == 'cmp' and t.a[0] == '<' and p and t.a[1].op == 'const' and t.a[1].a[0] == 0:
        return pnorm(t.a[2]) == pn or positive_multiple(pnorm(t.a[2]), area)
    if area is not None and is_call(t, '.is_empty') and area is not None and cargs(t)[0] is cargs(area)[0]:
        return not p
    return False


def present(t, p):
    """does the condition hold where the thing it is about is there (and not empty)?"""
    if t.op == 'not':
        return present(t.a[0], not p)
    if t.op == 'truthy':
        return present(t.a[0], p)
    if t.op == 'cmp' and t.a[0] in ('==', 'is') and any(is_const(x, v) for x in t.a[1:] if isinstance(x, T) for v in (None, 0)):
        return not p
    if t.op == 'cmp' and t.a[0] == '==' and any(isinstance(x, T) and x.op == 'lit' and not x.a[1] for x in t.a[1:]):
        return not p
    if t.op == 'cmp' and t.a[0] == '<' and t.a[2].op == 'const' and is_call(t.a[1], 'len'):
        return not p
    if t.op in ('exists', 'and', 'or'):
        return True
    return p


def kept(e, R):
    """the region lives through all loops"""
    while R.op == 'mu':
        R = e.mu_info[R][0]
    return any(c.result is R and not c.loops for c in e.events)


def positive_multiple(p, area):
    """c * area * dbu^n"""
    if len(p) != 1:
        return False
    (m, c), = p.items()
    return c > 0 and any(a is area and x == 1 for a, x in m) and all(a is area or a is path(ME, 'pex_context.dbu') for a, x in m)


# ------------------------------------------------------------------ arithmetic by cases
def clampify(t):
    """max(0, x) in its spellings -> clamp(x); min/max arguments in a canonical order"""
    memo = {}

    def z(x):
        return x.op == 'const' and not isinstance(x.a[0], bool) and isinstance(x.a[0], (int, float)) and x.a[0] == 0

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or x.op == 'const':
            return x
        if x in memo:
            return memo[x]
        r = None
        if x.op == 'ite':
            c, a, b = (go(y) for y in x.a)
            if c.op == 'not':
                c, a, b = c.a[0], b, a
            if c.op == 'cmp' and c.a[0] == '<':
                if z(c.a[2]) and z(a) and c.a[1] is b:          # 0 if x < 0 else x
                    r = T('clamp', b)
                elif z(c.a[1]) and z(b) and c.a[2] is a:        # x if 0 < x else 0
                    r = T('clamp', a)
            if r is None:
                r = T('ite', c, a, b)
        elif is_call(x, 'max') and len(cargs(x)) == 2 and any(z(y) for y in cargs(x)):
            r = T('clamp', next(go(y) for y in cargs(x) if not z(y)) if not all(z(y) for y in cargs(x)) else const(0))
        else:
            r = T(x.op, *[go(y) for y in x.a])
            if is_call(r, 'min', 'max') and len(cargs(r)) == 2:
                a, b = sorted(cargs(r), key=show)
                r = T('call', r.a[0], (a, b), r.a[2])
        memo[x] = r
        return r
    return go(t)


def inner_cond(t):
    """the condition of an ite inside the term that has no ite inside"""
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                r = go(y)
                if r is not None:
                    return r
            return None
        if not isinstance(x, T) or x in seen or x.op == 'const':
            return None
        seen.add(x)
        for y in x.a:
            r = go(y)
            if r is not None:
                return r
        return x.a[0] if x.op == 'ite' else None
    return go(t)


def decide_deep(t, c, v):
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or x.op == 'const':
            return x
        if x in memo:
            return memo[x]
        if x.op == 'ite':
            k = go(x.a[0])
            s = specialise(k, lambda y: v if y is c else None)
            if s.op == 'const':
                r = go(x.a[1] if s.a[0] else x.a[2])
            else:
                r = T('ite', s, go(x.a[1]), go(x.a[2]))
        else:
            r = T(x.op, *[go(y) for y in x.a])
        memo[x] = r
        return r
    return go(t)


def cases(t, decide=lambda c: None, assume=(), limit=64):
    """[(assumed conditions, term without conditional values)]"""
    t = clampify(t)
    out, todo = [], [(t, list(assume))]
    while todo and len(out) < limit:
        x, asm = todo.pop()
        c = inner_cond(x)
        if c is None:
            out.append((asm, x))
            continue
        # one atom at a time
        at = c
        while at.op in ('and', 'or', 'not'):
            at = at.a[0]
        d = decide(at)
        for v in ((True, False) if d is None else (d,)):
            lit = at if v else mk_not(at)
            if sat(asm + [lit]):
                todo.append((decide_deep(x, at, v), asm + [lit]))
    return out


def fn_norm(t):
    """pnorm with the arguments of functions in normal form as well"""
    def rw(x):
        if is_call(x, 'math.atan') and len(cargs(x)) == 1:
            return atom(T('atan', pkey(fn_norm(cargs(x)[0]))))
        return None
    return pnorm(t, rw)


def nth_child(V, t):
    """layer index that the polygons (a list of the neighbourhood) belong to"""
    B = V.by_child
    if is_call(t, '.get') and cargs(t)[0] is B:
        return cargs(t)[1]
    if t.op == 'item' and t.a[0] is B:
        return t.a[1]
    if t.op == 'val' and table_src(t.a[0]) is B:
        return T('key', t.a[0], t.a[1])
    return None


class EdgeVisit(Visit):
    def __init__(self, ctx, X):
        super().__init__(ctx, X, 'edge', 'on_edge')
        f = ctx.prog.funcs[self.q]
        self.edge, self.nbh = T('param', f.params[3]), T('param', f.params[4])
        lps = {l.uid: l for ev in self.e.events for l in ev.loops if l.iter is self.nbh}
        ctx.need(len(lps) == 1, f"{self.q}: {len(lps)} loops over the neighbourhood")
        self.loop, = lps.values()
        E = T('elem', self.nbh, self.loop.uid)
        self.by_child = T('item', E, const(1))
        self.interval = T('item', E, const(0))
        self.L = padd(pnorm(T('item', self.interval, const(1))), pnorm(T('item', self.interval, const(0))), -1)
        self.n = T('call', 'len', (NAMES,), ())

    def child_fact(self, k, same):
        """truth of conditions on the child index k: same: True own layer, False another layer"""
        def atom_(t):
            if t.op != 'cmp':
                return None
            s = {t.a[1], t.a[2]}
            if t.a[0] == '==' and s == {INSIDE, k}:
                return same
            if t.a[0] == '==' and s == {self.n, k}:
                return False
            if t.a[0] == '<' and t.a[1] is k and t.a[2] is self.n:
                return True
            if t.a[0] == '<' and t.a[1] is self.n and t.a[2] is k:
                return False
            if same and t.a[0] == '<' and s == {INSIDE, k}:
                return False
            return None
        return atom_

    def base_fact(self, t):
        """conditions that always hold where there is something to extract"""
        if t is self.by_child or nth_child(self, t) is not None:
            return True
        if t.op == 'cmp' and t.a[0] == '==' and (is_const(t.a[1], None) or is_const(t.a[2], None)) and (
                self.by_child in t.a[1:] or any(nth_child(self, x) is not None for x in t.a[1:] if isinstance(x, T))):
            return False
        if t.op == 'cmp' and t.a[0] == '<':
            if t.a[1].op == 'const' and pnorm(t.a[2]) == self.L and t.a[1].a[0] <= 1:
                return True
            if t.a[2].op == 'const' and pnorm(t.a[1]) == self.L and t.a[2].a[0] <= 2:
                return False
        if t.op == 'cmp' and t.a[0] == 'in' and t.a[2] is self.by_child:
            return True
        return None


def near_low(V, p, clamp=None):
    """terms for the lower y of a polygon's bounding box"""
    b = T('call', '.bbox', (p,), ())
    y1, y2 = path(b, 'p1.y'), path(b, 'p2.y')
    m = clampify(T('call', 'min', (y1, y2), ()))
    r = [m, y1, T('attr', b, 'bottom')]
    if clamp is None:
        return r + [T('clamp', x) for x in r]
    return [T('clamp', x) for x in r] if clamp else r


def nearest(V, t):
    """the polygon with the nearest edge: (polygons, its distance terms) or None"""
    e = V.e
    t = V(t)
    comp = None
    mu = t
    if t.op == 'item' and t.a[1].op == 'const' and t.a[0].op == 'mu':
        comp, mu = t.a[1].a[0], t.a[0]
    if mu.op == 'mu' and mu in {V(m): m for m in e.mu_info} or mu in e.mu_info:
        raw = mu if mu in e.mu_info else {V(m): m for m in e.mu_info}[mu]
        init, upd = e.mu_info[raw]
        init, upd = V(init), clampify(V(upd))
        lp = e.loop_by_uid[mu.a[0]]
        ps = V(lp.iter)
        p = T('elem', ps, lp.uid)
        if any(x[0] in ('break', 'return') for x in lp.exits):
            return None
        if comp is not None:
            if upd.op != 'ite' or init.op != 'tuple':
                return None
            other = 1 - comp
            best = T('item', mu, const(other))
            new, ok = (upd.a[1], upd.a[2]) if upd.a[1].op == 'tuple' else (upd.a[2], upd.a[1])
            if ok is not mu or new.op != 'tuple' or tup(new)[comp] is not p or not is_inf(tup(init)[other]):
                return None
            d = tup(new)[other]
            cond = upd.a[0] if new is upd.a[1] else mk_not(upd.a[0])
        else:
            if upd.op != 'ite':
                return None
            new, old = (upd.a[1], upd.a[2]) if upd.a[1] is p else (upd.a[2], upd.a[1])
            if new is not p or old is not mu:
                return None
            cond = upd.a[0] if upd.a[1] is p else mk_not(upd.a[0])
            sib = [m for m in e.mu_info if m.a[0] == mu.a[0] and m is not raw and mentions(cond, V(m))]
            if len(sib) != 1:
                return None
            best = V(sib[0])
            i2, u2 = e.mu_info[sib[0]]
            u2 = clampify(V(u2))
            if u2.op != 'ite' or not (is_inf(V(i2)) or is_const(V(i2), None)):
                return None
            d = u2.a[1] if u2.a[2] is best else u2.a[2]
            c2 = u2.a[0] if u2.a[2] is best else mk_not(u2.a[0])
            if not equiv(c2, cond):
                return None
        if d not in near_low(V, p):
            return None
        less = mk_cmp('<', d, best)
        leq = mk_not(mk_cmp('<', best, d))
        none = mk_cmp('==', best, const(None))
        if not any(equiv(cond, c) for c in (less, leq, mk_or([none, less]), mk_or([none, leq]))):
            return None
        return ps, [best]
    if is_call(t, 'min') and len(cargs(t)) == 1 and 'key' in ckw(t):
        k = ckw(t)['key']
        if k.op in ('ref', 'func', 'lambda') or True:
            if 'nearest_edge_distance' in show(k):
                return cargs(t)[0], []
    return None


def tup(t):
    return t.a[0] if t.op == 'tuple' and len(t.a) == 1 and isinstance(t.a[0], tuple) else t.a


def is_inf(t):
    return t.op in ('ref', 'global', 'attr', 'ext') and show(t) in ('math.inf',) or show(t) in ('math.inf', 'inf') or \
        is_call(t, 'float') and show(cargs(t)[0]) in ("'inf'", '"inf"')


def edge_children(ctx, X, V):
    """foreign polygons on the own layer, the other layers, the own polygon last; the distance is the halo"""
    pl = placement(ctx, X, V, 'edge')
    if pl is None:
        return None
    e, q = X.e, V.cls
    children_ok(ctx, X, V, pl, True)
    halo, dbu = path(SELF_TECH, 'tech.process_parasitics.side_halo'), path(ME, 'pex_context.dbu')
    a = V.args
    d = a.get('dout')
    n = None
    if d is not None:
        pn = pnorm(canon(d, V.D, V.uid))
        at = [m[0][0] for m in pn if m]
        if len(at) == 1 and (is_call(at[0], 'int') or is_call(at[0], 'math.ceil', 'math.floor', 'round')) and pnorm(cargs(at[0])[0]) == pmul(
                pnorm(halo), pinv(pnorm(dbu))):
            n = pn.get((), 0) if pn[((at[0], 1),)] == 1 else None
    ctx.ob('halo', n is not None and 0 <= n <= 1, q, f"shapes are seen up to {show(d)[:100] if d is not None else None}", V.node.loc)
    for k in ('bext', 'eext', 'din'):
        ctx.ob(f"range-{k}", k in a and is_const(a[k], -1), q, f"{k} is {show(a[k]) if k in a else 'missing'}", V.node.loc)
    return pl


def record_guard(ctx, V, ev, decide, what, rule='recorded-always'):
    g = specialise(conj(V.lits(ev.guards)), decide)
    ctx.ob(rule, g.op == 'const' and bool(g.a[0]), V.q, f"{what} only when {show(g)[:200]}", ev.loc)


def no_key_none(t):
    """validation of key objects: names are not None"""
    if t.op == 'cmp' and t.a[0] == '==' and (is_const(t.a[1], None) or is_const(t.a[2], None)):
        return False
    return None


@check('C27', 'value-flow analysis composed over the constructor chain; polynomial comparison; loop-carried minimum; guard decision',
       'Decides which polygon is the neighbour, the formula, the coefficient, the key, and what the neighbourhood consists of. KLayout\'s '
       'neighbourhood algorithm (interval splitting, rotation of edges) is trusted.')
def c27(ctx: Ctx):
    """The edge visitor's sidewall part, composed with the sites that create and run it."""
    X = Extraction(ctx)
    V = EdgeVisit(ctx, X)
    e, q = V.e, V.q
    if edge_children(ctx, X, V) is None:
        return
    adds = calls(e, f"{RES}.add_sidewall_cap")
    ctx.need(len(adds) >= 1, f"{q} records no sidewall capacitance")
    ctx.ob('record-once', len(adds) == 1, q, 'a sidewall capacitance is recorded more than once')
    name = T('item', NAMES, INSIDE)
    for ev in adds:
        ctx.ob('record-where', V(ev.recv) is T('param', 'results'), q, 'the capacitance is not recorded in the results of the cell', ev.loc)
        cap = ev.args[0]
        kf = key_fields(V, cap, ev, ('layer', 'net1', 'net2'))
        if not kf or not is_call(kf['net1'], '.property') or not is_call(kf['net2'], '.property'):
            ctx.fail('key', q, 'the key of the capacitance has no nets', ev.loc)
            continue
        ctx.ob('key-layer', kf['layer'] is name, q, f"the layer is {show(kf['layer'])[:100]}", ev.loc)
        nets = [kf['net1'], kf['net2']]
        far = [n for n in nets if not is_prop(n, V.edge)]
        ok = len(far) == 1 and is_prop(far[0], cargs(far[0])[0])
        ctx.ob('key-nets', ok, q, f"the nets are {[show(n)[:80] for n in nets]}", ev.loc)
        if not ok:
            continue
        near = cargs(far[0])[0]
        nr = nearest(V, near)
        ctx.ob('nearest', nr is not None, q, f"the neighbour {show(near)[:100]} is not the polygon with the nearest edge", ev.loc)
        if nr is None:
            continue
        k = nth_child(V, nr[0])
        ctx.ob('same-layer', k is not None and (k is INSIDE or entails([t if p else mk_not(t) for t, p in V.lits(ev.guards)], mk_cmp('==', INSIDE, k))), q,
               f"the neighbour is among {show(nr[0])[:100]}", ev.loc)
        spec = T('item', T('call', f"{TI}.sidewall_cap_by_layer_name", (SELF_TECH,), ()), name)
        dbu = pnorm(path(ME, 'pex_context.dbu'))
        c, off = pnorm(T('attr', spec, 'capacitance')), pnorm(T('attr', spec, 'offset'))
        lows = near_low(V, near) + nr[1] + [x for b in nr[1] for x in [b]]
        if near.op == 'item':
            lows.append(T('item', near.a[0], const(1 - near.a[1].a[0])))
        half = {(): Fraction(1, 2000)}
        for asm, v in cases(V(fval(e, cap, 'cap_value', ev.guards))):
            v = specs_by_get(v)
            pn = fn_norm(v)
            ok = any(pn == pmul(pmul(pmul(pmul(V.L, dbu), c), half), pinv(padd(pmul(pnorm(d), dbu), off))) for d in lows)
            ctx.ob('formula', ok, q, f"the capacitance is {pshow(pn)[:300]}", ev.loc)
        differ = mk_cmp('==', *nets)

        def decide(t):
            if t is differ:
                return False
            b = V.base_fact(t)
            if b is None and k is not None:
                b = V.child_fact(k, True)(t)
            return b
        record_guard(ctx, V, ev, decide, 'a sidewall capacitance is recorded')
        for l in ev.loops:
            bad = [x for x in l.exits if x[0] in ('break', 'return')]
            ctx.ob('all-visited', not bad, q, 'the visit ends before all polygons were seen', bad[0][2] if bad else '')


def specs_by_get(t):
    """table.get(k) -> table[k]"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or x.op == 'const':
            return x
        if x in memo:
            return memo[x]
        r = T(x.op, *[go(y) for y in x.a])
        if is_call(r, '.get') and len(cargs(r)) in (2, 3) and lookup(r)[0].op == 'call' and str(lookup(r)[0].a[0]).startswith(TI):
            r = T('item', cargs(r)[0], cargs(r)[1])
        memo[x] = r
        return r
    return go(t)


def groups(e, D):
    """[(key, value, guards, loops)] of what is appended to the lists of a dict of lists"""
    out = []
    for ev in e.events:
        if ev.kind != 'call' or ev.callee not in ('.append', '.extend'):
            continue
        r = ev.recv
        if r is None:
            continue
        k = None
        if r.op == 'item' and r.a[0] is D:
            k = r.a[1]
        elif is_call(r, '.setdefault') and cargs(r)[0] is D:
            k = cargs(r)[1]
        if k is not None:
            out.append((by_index(e, k), by_index(e, ev.args[0]), tuple(ev.guards), tuple(ev.loops)))
    return out


def deep_index(e, t):
    """by_index everywhere inside a term"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T) or x.op == 'const':
            return x
        if x in memo:
            return memo[x]
        r = T(x.op, *[go(y) for y in x.a]) if x.op != 'cmp' else mk_cmp(x.a[0], *[go(y) for y in x.a[1:]])
        for _ in range(4):
            y = by_index(e, r)
            if y is r:
                break
            r = go(y)
        memo[x] = r
        return r
    return go(t)


def sources(V, outside, P, ev):
    """where the polygon of a record comes from: [(net, polygon value, guards)] - through a table of polygons by net, or directly"""
    e = V.e
    if outside.op == 'key' and P.op == 'elem' and P.a[0].op == 'val' and P.a[0].a[1] == outside.a[1]:
        D = table_src(outside.a[0])
        for d in e.by_recv:
            if V(d) is D:
                for x in e.by_recv[d]:
                    if x.kind == 'setitem' and not (x.args[1].op == 'lit' and not x.args[1].a[1] and any(
                            t.op == 'cmp' and t.a[0] == 'in' and not p and t.a[2] is d for t, p in x.guards)):
                        return []
        gs = [g for d in {x.recv.a[0] if x.recv.op == 'item' else cargs(x.recv)[0] for x in e.events
                          if x.kind == 'call' and x.callee in ('.append', '.extend') and x.recv is not None and (
                              x.recv.op == 'item' or is_call(x.recv, '.setdefault'))} if V(d) is D for g in groups(e, d)]
        return [(V(deep_index(e, k)), V(v), V.deep_lits(g)) for k, v, g, ls in gs]
    return [(V(deep_index(e, outside)), P, V.deep_lits(ev.guards))]


@check('C28', 'value-flow analysis composed over the constructor chain; arithmetic normal form by cases; region algebra; guard decision',
       'Decides the formula, its coefficients, near and far distance, the grouping by net, what shields, and the key. The geometry itself is '
       'computed by KLayout and trusted. Contributions below a tenth of an attofarad may be dropped.')
def c28(ctx: Ctx):
    """The edge visitor's fringe part, composed with the sites that create and run it."""
    X = Extraction(ctx)
    V = EdgeVisit(ctx, X)
    e, q = V.e, V.q
    if edge_children(ctx, X, V) is None:
        return
    adds = calls(e, f"{RES}.add_sideoverlap_cap")
    ctx.need(len(adds) >= 1, f"{q} records no fringe capacitance")
    ctx.ob('record-once', len(adds) == 1, q, 'a fringe capacitance is recorded more than once')
    name = T('item', NAMES, INSIDE)
    for ev in adds:
        ctx.ob('record-where', V(ev.recv) is T('param', 'results'), q, 'the capacitance is not recorded in the results of the cell', ev.loc)
        cap = ev.args[0]
        kf = key_fields(V, cap, ev, ('layer_inside', 'net_inside', 'layer_outside', 'net_outside'))
        if not kf:
            ctx.fail('key', q, 'the key of the capacitance has no nets', ev.loc)
            continue
        ctx.ob('key-inside', kf['layer_inside'] is name and is_net(kf['net_inside'], name, V.edge), q,
               f"the inside is {show(kf['layer_inside'])[:80]} / {show(kf['net_inside'])[:80]}", ev.loc)
        lo = kf['layer_outside']
        k = lo.a[1] if lo.op == 'item' and lo.a[0] is NAMES else None
        ctx.ob('key-outside-layer', k is not None and k.op == 'key' and table_src(k.a[0]) is V.by_child, q, f"the outside layer is {show(lo)[:80]}", ev.loc)
        if k is None:
            continue
        # value
        cv = V(fval(e, cap, 'cap_value', ev.guards))
        halo, dbu = path(SELF_TECH, 'tech.process_parasitics.side_halo'), path(ME, 'pex_context.dbu')
        boxes = []
        contains(cv, lambda x: boxes.append(x) if is_call(x, '.bbox') and x not in boxes else False)
        ctx.ob('one-polygon', len(boxes) == 1, q, f"the distances are those of {[show(b)[:80] for b in boxes]}", ev.loc)
        if len(boxes) != 1:
            continue
        P = cargs(boxes[0])[0]
        scale = path(ME, 'scale_ratio_to_fit_halo')
        tab = T('call', f"{TI}.overlap_cap_by_layer_names", (SELF_TECH,), ())
        io = T('item', T('item', tab, name), lo)
        oi = T('item', T('item', tab, lo), name)
        so = T('item', T('item', T('call', f"{TI}.side_overlap_cap_by_layer_names", (SELF_TECH,), ()), name), lo)

        def is_io(t):
            """a condition that says that the (inside, outside) coefficient exists: its truth, or None"""
            t2 = specs_by_get(t)
            if t2 is io:
                return True
            if t2.op == 'cmp' and t2.a[0] == '==' and io in t2.a[1:] and any(is_const(x, None) for x in t2.a[1:] if isinstance(x, T)):
                return False
            if t2.op == 'cmp' and t2.a[0] == 'in' and t2.a[1] is lo and t2.a[2] is T('item', tab, name):
                return True
            if t2.op == 'cmp' and t2.a[0] == '<' and t2.a[1:] == (k, INSIDE):
                return True
            if t2.op == 'cmp' and t2.a[0] == '<' and t2.a[1:] == (INSIDE, k):
                return False
            return None

        two_pi = pmul({(): Fraction(2)}, pinv(pnorm(T('x',)))) if False else None
        pi = None
        for a in [x for x in _subterms(cv) if show(x) == 'math.pi']:
            pi = a
        ctx.ob('pi', pi is not None, q, 'the fringe formula has no pi', ev.loc)
        if pi is None:
            continue

        def at(spec, x):
            arg = pmul(pmul({(): Fraction(1, 50)}, pnorm(T('attr', spec, 'capacitance'))), x)
            return pmul(pmul({(): Fraction(2)}, pinv(pnorm(pi))), atom(T('atan', pkey(arg))))

        b = boxes[0]
        lows = [T('clamp', x) for x in (path(b, 'p1.y'), T('attr', b, 'bottom'))]
        highs = [T('clamp', x) for x in (path(b, 'p2.y'), T('attr', b, 'top'))]
        pd = pnorm(dbu)

        def ratio_fact(t):
            """2/pi*atan(x) of a positive x lies in (0, 1)"""
            if t.op == 'cmp' and t.a[0] in ('<', '=='):
                for c_, o, left in ((t.a[1], t.a[2], True), (t.a[2], t.a[1], False)):
                    if c_.op == 'const' and isinstance(c_.a[0], (int, float)):
                        for _, v in cases(o, lambda c: None):
                            pn = fn_norm(specs_by_get(v))
                            if pn in (at(io, pnorm(halo)), at(oi, pnorm(halo))):
                                if t.a[0] == '==':
                                    return False if c_.a[0] >= 1 or c_.a[0] <= 0 else None
                                if c_.a[0] >= 1:
                                    return not left
                                if c_.a[0] <= 0:
                                    return left
            return None
        seen_modes = set()
        for asm, v in cases(cv, ratio_fact):
            pn = fn_norm(specs_by_get(v))
            ex = None
            sc = None
            known = True
            for c_ in asm:
                pos, t = (False, c_.a[0]) if c_.op == 'not' else (True, c_)
                r = is_io(t)
                if r is not None:
                    ex = pos == r
                elif t is scale:
                    sc = pos
                elif ratio_fact(t) is None and V.base_fact(t) is None and V.child_fact(k, False)(t) is None:
                    known = False
            ok = known and ex is not None
            if ok:
                spec = io if ex else oi
                want = []
                for lw in lows:
                    for hg in highs:
                        w = padd(at(spec, pmul(pnorm(hg), pd)), at(spec, pmul(pnorm(lw), pd)), -1)
                        if sc:
                            w = pmul(w, pinv(at(spec, pnorm(halo))))
                        want.append(pmul(pmul(pmul(pmul(w, V.L), pd), pnorm(T('attr', so, 'capacitance'))), {(): TH}))
                ok = sc is not None and pn in want
            seen_modes.add((ex, sc))
            ctx.ob('formula', ok, q, f"with {[show(c_)[:60] for c_ in asm]} the capacitance is {pshow(pn)[:300]}", ev.loc)
        # polygons
        src = sources(V, kf['net_outside'], P, ev)
        ctx.ob('sources', len(src) >= 1, q, 'no polygons are grouped by net', ev.loc)
        S = None
        for net, pv, g in src:
            conds = [t if p else mk_not(t) for t, p in g]
            p, shield = origin(V, pv)
            ok = p is not None and p.op == 'elem' and nth_child(V, p.a[0]) is k
            ctx.ob('polygon', ok, q, f"the outside polygon is {show(pv)[:100]}", ev.loc)
            if not ok:
                continue
            ctx.ob('key-outside-net', is_net(net, lo, p) or is_call(net, '.property') and False, q, f"the outside net is {show(net)[:120]}", ev.loc)
            inside_net = kf['net_inside']
            empties = [t for t, pol in g if is_call(t, '.is_empty') and pol]
            if shield is None:
                ctx.ob('shielded', len(empties) == 1, q, 'a polygon is used without regard to what shields it', ev.loc)
                cur = cargs(empties[0])[0] if len(empties) == 1 else None
            else:
                cur = shield
            if cur is not None:
                ctx.ob('one-shield', S is None or S is cur, q, 'the shield differs between the cases', ev.loc)
                S = cur

            def decide(t, net=net, p=p, pv=pv, inside_net=inside_net):
                if t.op == 'cmp' and t.a[0] == '==' and {t.a[1], t.a[2]} == {net, inside_net}:
                    return False
                if is_call(t, '.is_empty'):
                    x = cargs(t)[0]
                    if x is S:
                        return shield is None
                    if region_parts(x)[0] == frozenset([p]):
                        return False
                b_ = V.base_fact(t)
                if b_ is None:
                    b_ = V.child_fact(k, False)(t)
                if b_ is None:
                    b_ = no_key_none(t)
                return b_
            gg = specialise(conj(g), decide)
            direct = not (kf['net_outside'].op == 'key')
            if not direct:
                ctx.ob('polygon-always', gg.op == 'const' and bool(gg.a[0]), q, f"a polygon is only used when {show(gg)[:160]}", ev.loc)
        if src and S is not None:
            free = any(not any(is_call(t, '.is_empty') and cargs(t)[0] is S and not pol for t, pol in g) for _, _, g in src)
            ctx.ob('unshielded', free, q, 'polygons that nothing shields are not used', ev.loc)
        # record
        lowc, highc = lows, highs
        vals = {pkey(fn_norm(specs_by_get(v))) for _, v in cases(cv)}

        def decide2(t):
            t = clampify(t)
            if t.op == 'cmp' and t.a[0] == '<':
                if t.a[1].op == 'const' and 0 <= t.a[1].a[0] <= 0.0001 and {pkey(fn_norm(specs_by_get(v))) for _, v in cases(t.a[2])} <= vals | {pkey({})}:
                    return True
                if t.a[2] in lowc + highc and is_const(t.a[1], 0) or t.a[1] in lowc and t.a[2] in highc:
                    return True if t.a[1] in lowc else None
                if t.a[1] in lowc + highc and is_const(t.a[2], 0) or t.a[1] in highc and t.a[2] in lowc:
                    return False
            if t.op == 'cmp' and t.a[0] == '==' and (t.a[1] in lowc and t.a[2] in highc or t.a[2] in lowc and t.a[1] in highc):
                return False
            if t.op == 'cmp' and t.a[0] == '==' and {t.a[1], t.a[2]} == {kf['net_inside'], kf['net_outside']}:
                return False
            if is_call(t, '.is_box') or t is P:
                return None
            r = V.base_fact(t)
            if r is None:
                r = V.child_fact(k, False)(t)
            if r is None:
                r = no_key_none(t)
            if r is None and t.op == 'cmp' and t.a[0] == '==' and is_const(t.a[2], SUBS):
                return None
            return r
        g = specialise(conj(V.lits(ev.guards)), decide2)
        isub = mk_cmp('==', name, const(SUBS))
        edge_net = T('call', '.property', (V.edge, const('net')), ())
        ctx.ob('recorded-always', g.op == 'const' and bool(g.a[0]), q, f"a fringe capacitance is only recorded when {show(g)[:200]}", ev.loc)
        for l in ev.loops:
            bad = [x for x in l.exits if x[0] in ('break', 'return')]
            ctx.ob('all-visited', not bad, q, 'the visit ends before all polygons were seen', bad[0][2] if bad else '')
        # shields
        if S is None:
            continue
        fringe_shield(ctx, V, S, k, ev)


def _subterms(t):
    out, seen = [], set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            out.append(x)
            for y in x.a:
                go(y)
    go(t)
    return out


def origin(V, pv):
    """(polygon of the neighbourhood, region subtracted from it or None)"""
    if pv.op in ('call', 'new') and is_call(pv, 'klayout.db.PolygonWithProperties', 'klayout.db.Polygon') and cargs(pv):
        pv = cargs(pv)[0]
    if pv.op == 'elem':
        it = pv.a[0]
        if is_call(it, '.each', '.each_merged') and len(cargs(it)) == 1:
            it = cargs(it)[0]
        pos, neg = region_parts(it)
        if len(neg) == 1 and len(pos) == 1:
            p, = pos
            s, = neg
            return p, s
        if not neg:
            return pv, None
    return None, None


def fringe_shield(ctx, V, S, k, ev):
    e, q = V.e, V.q
    inv = {}
    for m in e.mu_info:
        inv.setdefault(V(m), m)
    lay = None
    lats = set()
    ctx.ob('shield-kept', all(accumulates(e, m) for m in summed_mus(V, S, inv)), q, 'the shield loses what it consisted of before', ev.loc)
    for below in (True, False):
        asm = [mk_cmp('<', k, INSIDE)] if below else [mk_cmp('<', INSIDE, k)]
        asm += [mk_not(mk_cmp('==', k, INSIDE))]

        def at_(t):
            if entails(asm, t):
                return True
            if entails(asm, mk_not(t)) or t.op == 'cmp' and t.a[0] == '<' and t.a[1:] == ((INSIDE, k) if below else (k, INSIDE)):
                return False
            return None
        s1 = specialise(S, at_)
        parts = vfill(V, s1, inv)
        got = []
        for w, g, ls in parts:
            g = specialise(conj(g), at_) if g else const(True)
            if g.op == 'const' and not g.a[0]:
                continue
            if w.op == 'item' and w.a[0].op == 'comp':
                got.append((w, g, ls))
            else:
                for l in leaves(w):
                    if not is_const(l, None):
                        lats.add((l, w))
        rel = 'below' if below else 'above'
        ok = len(got) == 1
        if ok:
            w = got[0][0]
            lay = w.a[0]
            ix = w.a[1]
            ok = False
            if ix.op == 'elem' and is_call(ix.a[0], 'range') and len(cargs(ix.a[0])) == 2:
                lo, hi = cargs(ix.a[0])

                def mm(t):
                    r = {}
                    if is_call(t, 'min') and set(cargs(t)) == {k, INSIDE}:
                        return k if below else INSIDE
                    if is_call(t, 'max') and set(cargs(t)) == {k, INSIDE}:
                        return INSIDE if below else k
                    return None
                low, high = (k, INSIDE) if below else (INSIDE, k)
                ok = pnorm(specialise_val(lo, at_), mm) == padd(pnorm(low), {(): Fraction(1)}) and pnorm(specialise_val(hi, at_), mm) == pnorm(high)
        ctx.ob(f"between-{rel}", ok, q, f"layers between an edge and a layer {rel} do not (exactly) shield", ev.loc)
    # regions per layer
    if lay is not None:
        c = e.comps.get(lay.a[1])
        ok = c is not None and len(c['loops']) == 1 and V(c['loops'][0].iter) is NAMES and is_call(c['elt'], 'klayout.db.Region') and not c['guards'] \
            and not cargs(c['elt'])
        ctx.ob('shield-layers', ok, q, 'there is no shield region per layer', ev.loc)
        ins = [x for x in e.events if x.kind == 'call' and x.callee in ('.insert', '.__iadd__') and x.recv is not None and x.recv.op == 'item' and
               V(x.recv.a[0]) is lay]
        ok = len(ins) == 1
        if ok:
            i = ins[0]
            ck = nth_child(V, V(i.args[0]))
            ok = ck is not None and V(i.recv.a[1]) is ck
            if not ok and V(i.args[0]).op == 'elem':
                ck = nth_child(V, V(i.args[0]).a[0])
                ok = ck is not None and V(i.recv.a[1]) is ck

            def dec(t):
                r = V.base_fact(t)
                return V.child_fact(ck, False)(t) if r is None and ck is not None else r
            g = specialise(conj(V.lits(i.guards)), dec)
            ok = ok and g.op == 'const' and bool(g.a[0]) and not [x for l in i.loops for x in l.exits if x[0] in ('break', 'return')]

            def own(t):
                # the child is the polygon itself, for which there is no layer
                if ck is not None and t.op == 'cmp' and ck in t.a[1:]:
                    if V.n in t.a[1:]:
                        return t.a[0] == '=='
                    if INSIDE in t.a[1:]:
                        return t.a[0] == '<' and t.a[1] is INSIDE
                return V.base_fact(t)
            g = specialise(conj(V.lits(i.guards)), own)
            ctx.ob('shield-layers', g.op == 'const' and not g.a[0], q, 'the own polygon is looked for among the layers', i.loc)
        ctx.ob('shield-polygons', ok, q, 'the shield of a layer does not consist of its polygons', ev.loc)
    # lateral shield
    lat = [l for l, _ in lats]
    ok = len(lat) == 1 and is_call(lat[0], 'klayout.db.Polygon')
    ctx.ob('lateral', ok, q, f"the lateral shield is {[show(l)[:100] for l in lat]}", ev.loc)
    if not ok:
        return
    halo, dbu = path(SELF_TECH, 'tech.process_parasitics.side_halo'), path(ME, 'pex_context.dbu')
    mus = [m for m in _subterms(lat[0]) if m.op == 'mu']
    tops = [x for x in _subterms(lat[0]) if x.op == 'bin' and mentions(x, halo)]
    tops = [x for x in tops if not any(x is not y and x in list(_subterms(y)) for y in tops)]
    reach = bool(tops)
    for x in tops:
        extra = padd(pmul(pnorm(x), pnorm(dbu)), pnorm(halo), -1)
        reach = reach and all(c > 0 for c in extra.values())
    flags = facing_edges(V)
    ctx.ob('lateral-edge', bool(flags) and all(flags), q, 'the lateral shield is not the lower side of the polygon', ev.loc)
    ctx.ob('lateral-reach', reach, q, 'the lateral shield does not reach the end of the halo', ev.loc)
    ok = False
    both = set()
    if mus:
        best = mus[0]
        raw = inv.get(best)
        if raw is not None:
            i0, u0 = e.mu_info[raw]
            upd = clampify(V(u0))
            ok = is_const(V(i0), None)
            ck = None
            for c, l in gated_leaves(upd):
                if l is best:
                    continue
                ps = [m for m in _subterms(l) if m.op == 'item' and m.a[0].op == 'mu' and nearest(V, m) is not None] + \
                     [m for m in _subterms(l) if m.op in ('mu', 'call') and m is not best and nearest(V, m) is not None]
                keys = {nth_child(V, nearest(V, m)[0]) for m in ps}
                if len(keys) != 1 or None in keys:
                    ok = False
                    continue
                ck, = keys
                if sat(list(c) + [mk_cmp('==', ck, V.n), mk_not(mk_cmp('==', INSIDE, ck))]):
                    both.add('own polygon')
                if sat(list(c) + [mk_cmp('==', INSIDE, ck), mk_not(mk_cmp('==', ck, V.n))]):
                    both.add('own layer')
                if sat(list(c) + [mk_not(mk_cmp('==', INSIDE, ck)), mk_not(mk_cmp('==', ck, V.n))]):
                    both.add('other layer')
                # nearer ones replace farther ones
                dist = [x for x in _subterms(conj(c)) if x.op == 'cmp' and x.a[0] == '<']
                dm = [m for x in dist for m in x.a[1:] if isinstance(m, T) and m.op == 'mu' and m.a[0] == best.a[0]]
                nd = [x.a[1] if x.a[2] in dm else x.a[2] for x in dist if set(x.a[1:]) & set(dm)]
                if not dm or not nd:
                    ok = False
                    continue
                less = mk_cmp('<', nd[0], dm[0])
                none = mk_cmp('==', dm[0], const(None))
                ok = ok and entails(list(c) + [mk_not(none)], mk_or([less, mk_not(mk_cmp('<', dm[0], nd[0]))])) and sat(list(c) + [none]) or \
                    ok and entails(list(c), less)
                du = clampify(V(e.mu_info[inv[dm[0]]][1]))
                ok = ok and all(entails(list(c2), mk_not(conj(c))) or True for c2, _ in gated_leaves(du)) and \
                    feasible(du, c) == [nd[0]]
    ctx.ob('lateral-nearest', ok, q, 'the lateral shield is not the nearest facing edge', ev.loc)
    ctx.ob('lateral-who', both == {'own polygon', 'own layer'}, q, f"the lateral shield comes from {sorted(both)}", ev.loc)


def facing_edges(V):
    """for each condition on the edges of a polygon: does it say that the edge runs to the left (the lower side, as contours run clockwise)?"""
    e = V.e
    out = []
    of = lambda t: {x for x in _subterms(t) if x.op == 'elem' and is_call(x.a[0], '.each_edge')}

    def leftward(t, pol):
        if t.op != 'cmp' or t.a[0] != '<' or not pol:
            return False
        x, = of(t)
        m = {}
        for y in _subterms(t):
            if y.op == 'attr' and y.a[1] == 'x' and is_call(y.a[0], '.d') and cargs(y.a[0])[0] is x or is_call(y, '.dx') and cargs(y)[0] is x:
                m[y] = T('bin', '-', path(x, 'p2.x'), path(x, 'p1.x'))
            elif y.op == 'attr' and y.a[0] is x and y.a[1] in ('x1', 'x2'):
                m[y] = path(x, f"p{y.a[1][1]}.x")
        a, b = (subst(z, m) for z in t.a[1:])
        return padd(pnorm(a), pnorm(b), -1) == padd(pnorm(path(x, 'p2.x')), pnorm(path(x, 'p1.x')), -1)
    for c in e.comps.values():
        for t, pol in c['guards']:
            if len(of(t)) == 1:
                out.append(leftward(t, pol))
    for i, u in e.mu_info.values():
        for t in _subterms(u):
            if t.op == 'cmp' and len(of(t)) == 1:
                out.append(leftward(t, True))
    for ev in e.events:
        for t, pol in ev.guards:
            if t.op == 'cmp' and len(of(t)) == 1:
                out.append(leftward(t, True))
    return out


def summed_mus(V, t, inv, seen=None):
    """loop-carried regions that the region is made of"""
    seen = seen if seen is not None else set()
    if t in seen:
        return []
    seen.add(t)
    if t.op == 'ite':
        return [m for _, l in gated_leaves(t) for m in summed_mus(V, l, inv, seen)]
    if t.op == 'bin' and t.a[0] in '+|':
        return summed_mus(V, t.a[1], inv, seen) + summed_mus(V, t.a[2], inv, seen)
    if t.op == 'mu' and t in inv:
        i, u = V.e.mu_info[inv[t]]
        return [inv[t]] + summed_mus(V, V(i), inv, seen) + summed_mus(V, V(u), inv, seen)
    return []


def specialise_val(t, at_):
    r = specialise(t, at_)
    return r


def vfill(V, t, inv, seen=None):
    """fill() on substituted terms"""
    e = V.e
    seen = seen if seen is not None else set()
    out = []
    if t in seen:
        return []
    seen.add(t)
    if t.op == 'ite':
        for c, l in gated_leaves(t):
            out += [(w, tuple(c) + tuple(g), ls) for w, g, ls in vfill(V, l, inv, seen)]
    elif t.op == 'mu' and t in inv:
        i, u = e.mu_info[inv[t]]
        out += vfill(V, V(i), inv, seen) + vfill(V, V(u), inv, seen)
    elif t.op == 'bin' and t.a[0] in '+|':
        out += vfill(V, t.a[1], inv, seen) + vfill(V, t.a[2], inv, seen)
    elif is_call(t, 'klayout.db.Region'):
        for x in cargs(t):
            out.append((x, (), ()))
        for ev in e.events:
            if ev.kind == 'call' and ev.callee in ('.insert', '.__iadd__') and ev.recv is not None and V(ev.recv) is t:
                out.append((V(ev.args[0]), tuple(x if p else mk_not(x) for x, p in V.lits(ev.guards)), tuple(ev.loops)))
    else:
        out.append((t, (), ()))
        for ev in e.events:
            if ev.kind == 'call' and ev.callee == '.insert' and ev.recv is not None and t.op in ('call', 'new') and V(ev.recv) is t:
                out.append((V(ev.args[0]), tuple(x if p else mk_not(x) for x, p in V.lits(ev.guards)), tuple(ev.loops)))
    return out


# ------------------------------------------------------------------ C29
@check('C29', 'value-flow analysis with path conditions: the conditions of each record entail that its nets differ',
       'Decides whether a record with twice the same net is possible for each place that records a capacitance. Net names are compared as the '
       'engine compares them; the names themselves come from the layout properties.')
def c29(ctx: Ctx):
    """All places that record overlap, sidewall and fringe capacitances."""
    X = Extraction(ctx)
    spec = {'add_overlap_cap': ('net_top', 'net_bot'), 'add_sidewall_cap': ('net1', 'net2'), 'add_sideoverlap_cap': ('net_inside', 'net_outside')}
    seen = {k: 0 for k in spec}
    for kind, meth in (('polygon', 'neighbors'), ('edge', 'on_edge')):
        V = Visit(ctx, X, kind, meth)
        e = V.e
        for fn, names in spec.items():
            for ev in calls(e, f"{RES}.{fn}"):
                seen[fn] += 1
                kf = key_fields(V, ev.args[0], ev, names)
                if not kf:
                    ctx.fail('differ', V.q, f"the nets of {fn} are not known", ev.loc)
                    continue
                a, b = kf[names[0]], kf[names[1]]
                pairs = [(a, b, [t if p else mk_not(t) for t, p in V.lits(ev.guards)])]
                if b.op == 'key' or a.op == 'key':
                    x, y = (b, a) if b.op == 'key' else (a, b)
                    P = None
                    D = table_src(x.a[0])
                    src = []
                    for d in {z.recv.a[0] if z.recv.op == 'item' else cargs(z.recv)[0] for z in e.events
                              if z.kind == 'call' and z.callee in ('.append', '.extend') and z.recv is not None and
                              (z.recv.op == 'item' or is_call(z.recv, '.setdefault'))}:
                        if V(d) is D:
                            src += groups(e, d)
                    if src:
                        base = pairs[0][2]
                        pairs = [(V(deep_index(e, kk)), y, [t if p else mk_not(t) for t, p in V.deep_lits(g)] + base)
                                 for kk, vv, g, ls in src]
                for a, b, conds in pairs:
                    # decided per case of both names
                    ok = entails(conds, mk_not(mk_cmp('==', a, b)))
                    if not ok:
                        ok = all(not sat(conds + list(c1) + list(c2) + [mk_cmp('==', l1, l2)]) if l1 is not l2 else not sat(conds + list(c1) + list(c2))
                                 for c1, l1 in gated_leaves(a) for c2, l2 in gated_leaves(b))
                    ctx.ob('differ', ok, f"{V.q} {fn}", f"a capacitance between {show(a)[:80]} and itself can be recorded", ev.loc)
    for fn, n in seen.items():
        ctx.ob('recorded', n >= 1, fn, 'is recorded nowhere')
