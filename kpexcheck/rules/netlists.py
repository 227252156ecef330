"""C12 Maxwell expansion, C13 2.5D expansion, C14 reduction, C15 netlist CSV, C16 netlistsvg JSON."""
import re
from fractions import Fraction
from ..core import check, Ctx
from ..q import *
from ..bools import sat, entails, equiv, conj, feasible
from ..out import lines, mapped, source, is_file_of, pieces
from ..tev import Tev, Seq, Unsupported, as_int, poly
from ..vfa import truthy, const, mk_not, mk_cmp
from .matrix import matrix_base, touches, MUTATORS, all_subterms, default_of

NET_MUT = {'add', 'remove', 'create_circuit', 'create_device', 'create_net', 'create_pin', 'create_subcircuit', 'remove_device',
           'remove_net', 'remove_subcircuit', 'combine_devices', 'simplify', 'purge', 'purge_nets', 'purge_devices', 'make_top_level_pins',
           'flatten', 'flatten_circuit', 'connect_terminal', 'disconnect_terminal', 'set_parameter', 'join_nets', 'clear', 'read',
           'blank_circuit', 'disconnect_pin', 'connect_pin', 'rename_pin', 'remove_pin', 'join_symmetric_nets'}


def raise_only(e, t) -> bool:
    """the condition only says that no iteration raised"""
    ex = [x for x in subterms(t) if x.op == 'exists']
    return bool(ex) and all(all(k[0] in ('raise', 'continue') for k in e.loop_by_uid[x.a[1]].exits) for x in ex if x.a[1] in e.loop_by_uid)


def live(e, guards):
    """guards without 'nothing was raised before'"""
    return tuple((t, p) for t, p in guards if not (not p and t.op == 'exists' and raise_only(e, t)))


def raised(e):
    """literals whose negation raises"""
    return [live(e, ev.guards) for ev in e.events if ev.kind == 'raise']


def without_raises(e, ev, guards=None):
    """guards of an event, minus the literals that only say that an earlier check did not raise"""
    g = live(e, ev.guards if guards is None else guards)
    out = []
    for i, (t, p) in enumerate(g):
        rest = [x for x in g if x != (t, p)]
        if any(entails(list(rest) + [(t, not p)], conj(r)) for r in raised(e) if r and (t, not p) in r or len(r) == 1 and r):
            continue
        out.append((t, p))
    return tuple(out)


def same_guards(e, a, b):
    return equiv(conj(live(e, a)), conj(live(e, b)))


class Dev:
    def __init__(self, ev):
        self.ev, self.terms, self.params, self.problems = ev, {}, {}, []

    def __repr__(self):
        return f"{show(self.ev.result)} {({k: show(v) for k, v in self.terms.items()})}"


def devices(e, circuit):
    """devices created in a circuit, with their connections and parameters"""
    out = []
    for ev in e.events:
        if ev.kind == 'call' and ev.callee == '.create_device' and ev.recv is circuit:
            d = Dev(ev)
            for x in e.by_recv.get(ev.result, []):
                if x.kind != 'call' or x.callee not in ('.connect_terminal', '.set_parameter', '.disconnect_terminal'):
                    continue
                if x.callee == '.disconnect_terminal' or not loops_prefix(ev.loops, x.loops) or len(x.loops) != len(ev.loops) or \
                        not same_guards(e, x.guards, ev.guards):
                    d.problems.append(x)
                    continue
                tgt = d.terms if x.callee == '.connect_terminal' else d.params
                if not x.args or x.args[0].op != 'const' or x.args[0].a[0] in tgt:
                    d.problems.append(x)
                    continue
                tgt[x.args[0].a[0]] = x.args[1]
            out.append(d)
    return out


def copy_of(e, par):
    """the term of the copy of a netlist parameter, and everything that modifies the original"""
    src = T('param', par)
    dups = [ev for ev in e.events if ev.kind == 'call' and ev.callee in ('.dup', '.__copy__', '.__deepcopy__') and ev.recv is src]
    return dups[0].result if len(dups) == 1 else None


def reaches(t, root):
    """is t an object inside root (reached by method results, items, elements)"""
    while True:
        if t is root:
            return True
        if t.op in ('attr', 'item', 'elem', 'val', 'key'):
            t = t.a[0]
        elif t.op in ('call', 'new') and str(t.a[0]).startswith('.') and t.a[0] not in ('.dup',) and cargs(t):
            t = cargs(t)[0]
        elif t.op == 'call' and is_call(t, 'list', 'sorted', 'enumerate', 'iter', 'reversed', 'tuple') and cargs(t):
            t = cargs(t)[0]
        else:
            return False


def input_untouched(ctx, e, par, q):
    src = T('param', par)
    bad = [ev for ev in e.events if ev.recv is not None and reaches(ev.recv, src) and
           (ev.kind in ('store', 'setitem', 'delitem') or ev.kind == 'call' and ev.name in NET_MUT)]
    ctx.ob('input-untouched', not bad, q, f"the netlist passed in is modified by {bad[0].callee if bad else ''}",
           bad[0].loc if bad else '')


def the_copy(ctx, e, par, q):
    cp = copy_of(e, par)
    ctx.ob('works-on-copy', cp is not None, q, f"no copy of the netlist {par} is made")
    input_untouched(ctx, e, par, q)
    if cp is None:
        return None, None
    rs = [r for r in (leaves(e.result) if e.result is not None else [])]
    ctx.ob('returns-copy', rs == [cp], q, f"the result is {[show(r)[:80] for r in rs]}, not the copy")
    cs = [ev.result for ev in e.events if ev.kind == 'call' and ev.callee == '.circuit_by_name' and ev.recv is cp]
    cs = list(dict.fromkeys(cs))
    ok = len(cs) >= 1 and all(len(cargs(c)) == 2 and is_param(cargs(c)[1], 'top_cell_name') for c in cs)
    ctx.ob('top-circuit', ok and len(cs) == 1, q, 'the circuit worked on is not the one of the top cell')
    return cp, cs[0] if cs else None


# ------------------------------------------------------------------ C12
EXPANDER = 'klayout_pex.klayout.netlist_expander.NetlistExpander.expand'
SAMPLES = [('g1_VDD', 'VDD'), ('g12_$3', '$3'), ('g7_a_b', 'a_b'), ('g10_g2_x', 'g2_x'), ('g3_X|Y', 'X|Y'), ('g4_net 1', 'net 1')]


def net_of_name(ctx, e, q, v, name_ok):
    """v = table[name(conductor)] where the table maps every net's expanded name to the net; returns problem text or None"""
    if v.op == 'item':
        table, key = v.a
    elif is_call(v, '.get') and v.op == 'call' and len(cargs(v)) >= 2:
        table, key = cargs(v)[:2]
    else:
        return f"{show(v)[:80]} is not looked up in the table of net names"
    ents = dict_entries(e, table)
    if ents is None:
        return 'the table of net names is not built here'
    plain = [x for x in ents if len(x[3]) == 1 and is_call(x[3][0].iter, '.each_net') and not live(e, x[2])]
    k, n = (plain[0][0], plain[0][1]) if plain else (None, None)
    if k is None or not (is_call(k, '.expanded_name') and cargs(k)[0] is n and n.op == 'elem'):
        return 'the table does not map the expanded name of every net to the net'
    return name_ok(key)


@check('C12', 'value-flow analysis, with the extracted index, guard and arithmetic expressions evaluated over all index pairs',
       'Decides, for matrices of 1 to 4 conductors (thorough: 12) with symbolic entries, the exact multiset of capacitors (nets, value) and the '
       'condition under which each is written. The index expressions are affine, so larger sizes follow the same pattern. Assumes a '
       'symmetric matrix (C10).')
def c12(ctx: Ctx):
    """Device creations of NetlistExpander.expand: each pair i<j gets -S_ij, each i>0 gets the row sum to conductor 0, positive values
    only; names unique; the net of each conductor by name, missing nets raise; input netlist never modified."""
    q = EXPANDER
    ctx.need(q in ctx.prog.funcs, f"{q} is gone")
    e = ctx.analyse(q)
    cp, top = the_copy(ctx, e, 'extracted_netlist', q)
    if top is None:
        return
    mat = T('param', 'cap_matrix')
    names = T('attr', mat, 'conductor_names')
    devs = devices(e, top)
    caps = [d for d in devs if is_call(cargs(d.ev.result)[1], 'klayout.db.DeviceClassCapacitor')
            or is_new(cargs(d.ev.result)[1], 'DeviceClassCapacitor')]
    other = [d for d in devs if d not in caps]
    for d in devs:
        ctx.ob('device-complete', not d.problems and set(d.terms) == {'A', 'B'} and len(d.params) == 1, f"{q}:{show(d.ev.args[1])[:60]}",
               'a device is created without both terminals and its value in every case', d.ev.loc)
    classes = {cargs(d.ev.result)[1] for d in devs}
    for c in classes:
        added = [ev for ev in e.events if ev.kind == 'call' and ev.callee == '.add' and ev.recv is cp and ev.args and ev.args[0] is c]
        ctx.ob('class-registered', len(added) == 1 and not live(e, added[0].guards), q, f"the device class {show(c)} is not added")
    ctx.ob('caps-created', bool(caps), q, 'no capacitors are created')
    # table of nets
    probs = {}

    def name_ok(key):
        ms = [x for x in subterms(key) if is_call(x, '.match', '.fullmatch', '.search', 're.match', 're.fullmatch', 're.search')]
        if not (is_call(key, '.group', 'item') or key.op == 'item') or len(set(ms)) != 1:
            return f"the name of the net of a conductor is {show(key)[:80]}"
        m = ms[0]
        grp = cargs(key)[1] if key.op == 'call' else key.a[1]
        if m.a[0].startswith('re.'):
            pat, txt, fn = cargs(m)[0], cargs(m)[1], m.a[0][3:]
        else:
            c = cargs(m)[0]
            pat, txt, fn = (cargs(c)[0] if is_call(c, 're.compile') else None), cargs(m)[1], m.a[0][1:]
        if pat is None or pat.op != 'const' or grp.op != 'const':
            return 'the pattern of conductor names is not constant'
        if not (txt.op == 'elem' and txt.a[0] is names or txt.op == 'item' and txt.a[0] is names):
            return f"the name is taken from {show(txt)[:60]}"
        for s, w in SAMPLES:
            mm = getattr(re, fn)(pat.a[0], s)
            if not mm or mm.group(grp.a[0]) != w:
                return f"conductor {s!r} is taken for net {mm and mm.group(grp.a[0])!r}"
        return None

    def net_list(t):
        if t in probs:
            return probs[t][0]
        probs[t] = (False, None)
        if t.op not in ('lit', 'comp', 'call'):
            return False
        its = list_items(e, t)
        if its is None or len(its) != 1:
            return False
        v, g, lp = its[0]
        if len(lp) != 1 or not mentions(lp[0].iter, names):
            return False
        p = net_of_name(ctx, e, q, v, name_ok)
        seq = lp[0].iter
        while is_call(seq, 'enumerate', 'list', 'tuple', 'iter'):
            seq = cargs(seq)[0]
        full = seq is names or is_call(seq, 'range') and len(cargs(seq)) == 1 or \
            is_call(seq, 'range') and len(cargs(seq)) == 2 and is_const(cargs(seq)[0], 0)
        if p is None and not full:
            p = f"nets are only looked up for {show(lp[0].iter)[:60]}"
        # every conductor yields a net, or raises
        ing = [ev for ev in e.events if ev.kind == 'raise' and ev.loops and ev.loops[-1] is lp[0]]
        rest = list(live(e, g))
        covered = not rest or any(equiv(conj([x for x in live(e, ev.guards)]), mk_not(conj(rest))) for ev in ing) or \
            entails([mk_not(conj(rest))], mk_or_all([conj(live(e, ev.guards)) for ev in ing]))
        if p is None and not covered:
            p = f"conductors are skipped unless {show(conj(rest))[:80]}"
        if p is None and is_call(v, '.get') and not rest:
            p = 'a conductor without net is not reported'
        probs[t] = (True, p)
        return True

    def base_for(n):
        mb = matrix_base(mat, n)

        def base(t, ev):
            r = mb(t, ev)
            if r is not None:
                return r
            if t.op in ('lit', 'comp', 'call') and net_list(t):
                return Seq('NET', (n,))
            return None
        return base

    def canon(p):
        """symmetric entries"""
        out = {}
        for m, c in p.items():
            mm = tuple(sorted((((s[0],) + tuple(sorted(s[1:]))) if isinstance(s, tuple) and s and s[0] == 'S' else s, k) for s, k in m))
            out[mm] = out.get(mm, 0) + c
        return {m: c for m, c in out.items() if c}

    for n in range(1, 13 if ctx.tier == 'thorough' else 5):
        try:
            got, nm = {}, []
            for d in caps:
                if d.problems or set(d.terms) != {'A', 'B'} or list(d.params) != ['C']:
                    raise Unsupported('a capacitor without two terminals or value')
                tv = Tev(base_for(n), e)
                tv.distinct = {'NET'}
                gs = live(e, d.ev.guards)
                vg = [x for x in gs if has_entry(x[0], T('attr', mat, 'rows'))]
                ig = [x for x in gs if x not in vg]
                for _ in tv.instances(d.ev.loops, ig):
                    val = poly(tv.ev(d.params['C']))
                    a, b = node(tv.ev(d.terms['A'])), node(tv.ev(d.terms['B']))
                    ok = len(vg) == 1
                    if ok:
                        t, p = vg[0]
                        ok = t.op == 'cmp' and p and t.a[0] == '<' and not canon(poly(tv.ev(t.a[1]))) and \
                            canon(poly(tv.ev(t.a[2]))) == canon(val)
                    if not ok:
                        raise Unsupported(f"the capacitor is written when {show(conj(vg))[:120]}")
                    got.setdefault(tuple(sorted((a, b))), []).append(canon(val))
                    nm.append(text_of(tv, d.ev.args[1]) if len(d.ev.args) > 1 else None)
            want = {}
            for i in range(n):
                for j in range(i + 1, n):
                    want.setdefault((i, j), []).append({((('S', i, j), 1),): Fraction(-1)})
            for i in range(1, n):
                row = {}
                for j in range(n):
                    row[((('S',) + tuple(sorted((i, j))), 1),)] = Fraction(1)
                want.setdefault((0, i), []).append(row)
            key = lambda l: sorted(map(repr, (sorted(x.items(), key=repr) for x in l)))
            bad = [k for k in set(got) | set(want) if key(got.get(k, [])) != key(want.get(k, []))]
            ctx.ob('capacitors', not bad, f"{q}:n={n}",
                   f"for {n} conductors, the capacitors between {sorted(bad)[:3]} are "
                   f"{[[pshow(x) for x in got.get(k, [])] for k in sorted(bad)[:3]]}", caps[0].ev.loc if caps else '')
            ctx.ob('unique-names', None not in nm and len(set(nm)) == len(nm), f"{q}:n={n}", 'two capacitors have the same name')
        except Unsupported as x:
            ctx.fail('capacitors', f"{q}:n={n}", f"the capacitors cannot be derived: {x}", caps[0].ev.loc if caps else '')
    lists = [p for ok, p in probs.values() if ok]
    ctx.ob('nets-by-name', bool(lists) and not any(lists), q, next((p for p in lists if p), 'the nets of the conductors are not looked up'))
    # shorts of the grounds
    for d in other:
        ctx.ob('shorts', list(d.params) == ['R'] and all(is_const(v, 0) for v in d.params.values()), f"{q}:{show(d.ev.args[1])[:40]}",
               'a resistor other than a short is added', d.ev.loc)
    whitebox(ctx, e, q, top, None)


def has_entry(t, rows):
    """does the value of an entry (not just a number of rows or columns) occur in t"""
    if t is rows or t.op == 'mu':
        return True
    if t.op == 'index' or is_call(t, 'len', 'range'):
        return False
    return any(has_entry(x, rows) for x in t.a if isinstance(x, T)) or \
        any(has_entry(y, rows) for x in t.a if isinstance(x, tuple) for y in x if isinstance(y, T))


def mk_or_all(ts):
    from ..vfa import mk_or
    return mk_or(ts) if ts else const(False)


def node(v):
    """index of a net symbol"""
    if isinstance(v, dict) and len(v) == 1:
        (m, c), = v.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple) and m[0][0][0] == 'NET':
            return m[0][0][1]
    raise Unsupported('a terminal is not connected to the net of a conductor')


def text_of(tv, t):
    out = ''
    for p in pieces(t):
        if p.op == 'const':
            out += str(p.a[0])
        else:
            i = as_int(tv.ev(p))
            if i is None:
                raise Unsupported('name')
            out += str(i)
    return out


def live_iterator(ev):
    """the loop around a removal that still walks KLayout's own iterator: the removal invalidates it"""
    for l in ev.loops:
        it = None if l.copied or l.uid in ev.after else l.iter
        while it is not None and is_call(it, 'iter', 'enumerate', 'zip', 'filter', 'map', 'chain') and cargs(it):
            it = next((x for x in cargs(it) if isinstance(x, T) and x.op == 'call'), None)
            if it is None:
                break
        if it is not None and it.op == 'call' and isinstance(it.a[0], str) and it.a[0].startswith('.each_'):
            return it
    return None


def whitebox(ctx, e, q, top, kinds):
    """devices of the schematic are removed only if asked for"""
    rm = [ev for ev in e.events if ev.kind == 'call' and ev.callee in ('.remove_device', '.remove_net', '.remove_subcircuit')
          and ev.recv is not None and reaches(ev.recv, top)]
    bb = T('param', 'blackbox_devices')
    ctx.ob('whitebox', bool(rm), q, 'white-boxed devices are not removed')
    for ev in rm:
        it = live_iterator(ev)
        ctx.ob('not-while-iterating', it is None, q, f"removed while {show(it)[:60] if it is not None else ''} is still being walked (its iterator becomes invalid)", ev.loc)
        g = live(e, ev.guards)
        ctx.ob('whitebox-only', entails(g, mk_not(truthy(bb))), q, 'devices are removed although black-boxing is on', ev.loc)
        d = ev.args[0] if ev.args else None
        if kinds is None:
            ok = equiv(conj(g), mk_not(truthy(bb)))
            ctx.ob('whitebox-all', ok, q, f"devices are removed when {show(conj(g))[:100]}", ev.loc)
            continue
        dcs = [x for x in all_subterms(e, [t for t, _ in g]) if is_call(x, '.device_class')]
        ctx.ob('whitebox-kind', bool(dcs) and same_dev(dcs[0], d), q, 'the kind is not that of the removed device', ev.loc)
        if not dcs:
            continue
        for k in KINDS:
            m = lambda t, k=k: kind_test(t, k)
            r = [lit for lit in g]
            v = eval_kind(conj(r), k, bb)
            ctx.ob('whitebox-kinds', v == (k in kinds), f"{q}:{k}",
                   f"a {k} is {'removed' if v else 'kept' if v is not None else 'removed under another condition'}", ev.loc)


KINDS = ['DeviceClassResistor', 'DeviceClassResistorWithBulk', 'DeviceClassCapacitor', 'DeviceClassCapacitorWithBulk',
         'DeviceClassInductor', 'DeviceClassBJT3Transistor', 'DeviceClassBJT4Transistor', 'DeviceClassDiode',
         'DeviceClassMOS3Transistor', 'DeviceClassMOS4Transistor']
SUPER = {'DeviceClassResistorWithBulk': ['DeviceClassResistor'], 'DeviceClassCapacitorWithBulk': ['DeviceClassCapacitor'],
         'DeviceClassBJT4Transistor': ['DeviceClassBJT3Transistor'], 'DeviceClassMOS4Transistor': ['DeviceClassMOS3Transistor']}


def same_dev(dc, d):
    return d is not None and (cargs(dc)[0] is d or cargs(dc)[0].op == 'elem' and (d.op == 'elem' and (
        mentions(d, cargs(dc)[0].a[0]) or True)))


def kind_test(t, k):
    """value of a test of a device class for kind k, or None"""
    from ..vfa import is_const
    if t.op == 'cmp' and t.a[0] in ('==', 'is'):
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if b.op == 'ref' and str(b.a[0]).split('.')[-1] in KINDS and mentions_cls(a):
                return str(b.a[0]).split('.')[-1] == k
    if t.op == 'cmp' and t.a[0] == 'in' and mentions_cls(t.a[1]):
        items = ref_items(t.a[2])
        if items is not None:
            return k in items
    if is_call(t, 'isinstance', 'issubclass') and len(cargs(t)) == 2:
        items = ref_items(cargs(t)[1])
        if items is None and cargs(t)[1].op == 'ref':
            items = [str(cargs(t)[1].a[0]).split('.')[-1]]
        if items is not None:
            return k in items or any(s in items for s in SUPER.get(k, []))
    return None


def ref_items(t):
    xs = t.a if t.op == 'tuple' else t.a[1] if t.op == 'lit' and t.a[0] in ('list', 'set', 'tuple') else \
        cargs(t)[0].a if is_call(t, 'frozenset', 'set') and cargs(t) and cargs(t)[0].op == 'tuple' else None
    if xs is None or any(x.op != 'ref' for x in xs):
        return None
    return [str(x.a[0]).split('.')[-1] for x in xs]


def mentions_cls(t):
    return t.op == 'attr' and t.a[1] == '__class__' or is_call(t, 'type') or is_call(t, '.device_class')


def eval_kind(t, k, bb):
    """three-valued evaluation of a condition for a device of kind k with black-boxing off"""
    if t.op == 'and':
        vs = [eval_kind(x, k, bb) for x in t.a]
        return False if False in vs else None if None in vs else True
    if t.op == 'or':
        vs = [eval_kind(x, k, bb) for x in t.a]
        return True if True in vs else None if None in vs else False
    if t.op == 'not':
        v = eval_kind(t.a[0], k, bb)
        return None if v is None else not v
    if t.op == 'const':
        return bool(t.a[0])
    if t is bb or t.op == 'truthy' and t.a[0] is bb:
        return False
    return kind_test(t, k)


# ------------------------------------------------------------------ C13
EXP25 = 'klayout_pex.rcx25.netlist_expander.RCX25NetlistExpander.expand'
RES = 'klayout_pex.rcx25.extraction_results'


def dict_source(it):
    """the dictionary whose items a loop runs over"""
    while it is not None and it.op == 'call' and is_call(it, 'enumerate', 'sorted', 'list', 'tuple', 'iter', 'reversed',
                                                         '.items', '.keys', '.values') and cargs(it):
        it = cargs(it)[0]
    return it


def entry_of(t):
    """(which, dict) if t is the key or value of a dictionary entry"""
    if t.op in ('key', 'val'):
        return t.op, t.a[0], t.a[1]
    if t.op == 'item' and t.a[1].op in ('key', 'elem') and t.a[0] is t.a[1].a[0]:
        return 'val', t.a[0], t.a[1].a[1]
    if t.op == 'elem':
        return 'key', dict_source(t.a[0]), t.a[1]
    return None


def entries_of(t):
    """the same for elements of concatenated sequences"""
    x = entry_of(t)
    if t.op == 'elem':
        out, work = [], [t.a[0]]
        while work:
            y = dict_source(work.pop())
            if y.op == 'bin' and y.a[0] in ('+', '|'):
                work += [y.a[1], y.a[2]]
            elif is_call(y, 'itertools.chain', 'chain', '.union') or y.op == 'lit':
                work += [z.a[0] if z.op == 'star' else z for z in (cargs(y) if y.op == 'call' else y.a[1]) if isinstance(z, T)]
            else:
                out.append(('key', y, t.a[1]))
        return out
    return [x] if x else []


def net_keys(e, top, t, at):
    """names of nets that a terminal's net term is looked up by: list of (key, problem)"""
    out = []
    for c, l in gated_leaves(t):
        if l.op == 'item':
            out.append((l.a[1], table_problem(e, top, l.a[0], l.a[1], at)))
        elif is_call(l, '.get') and len(cargs(l)) == 2:
            out.append((cargs(l)[1], table_problem(e, top, cargs(l)[0], cargs(l)[1], at)))
        elif is_call(l, '.setdefault') and len(cargs(l)) == 3:
            out.append((cargs(l)[1], 'a net is created although one of that name exists'))
        elif is_call(l, '.create_net') and cargs(l)[0] is top:
            st = [x for x in e.events if x.kind == 'setitem' and len(x.args) == 2 and x.args[1] is l]
            k = cargs(l)[1] if len(cargs(l)) > 1 else None
            p = None
            if not st or st[0].args[0] is not k:
                p = 'the created net is not remembered under its name'
            elif not any(y.op == 'cmp' and y.a[0] == 'in' and y.a[1] is k and not pol for y, pol in st[0].guards) and \
                    not any(is_call(y, '.get') for g, _ in st[0].guards for y in subterms(g)):
                p = 'a net is created although one of that name exists'
            out.append((k, p))
        else:
            out.append((l, f"the net is {show(l)[:60]}"))
    return out


def table_problem(e, top, table, key, at):
    """table: every net of the circuit by its expanded name, plus created nets for the missing keys"""
    ents = dict_entries(e, table)
    if ents is None:
        return 'the table of net names is not built here'
    ok = False
    for k, v, g, lp in ents:
        if len(lp) == 1 and is_call(lp[0].iter, '.each_net') and cargs(lp[0].iter)[0] is top and not live(e, g) and \
                is_call(k, '.expanded_name') and cargs(k)[0] is v:
            ok = True
    if not ok:
        return 'the table does not map the expanded name of every net to the net'
    for k, v, g, lp in ents:
        if is_call(v, '.create_net'):
            if cargs(v)[0] is not top or len(cargs(v)) < 2 or cargs(v)[1] is not k:
                return f"the net created for {show(k)[:40]} has another name"
            g2 = live(e, g)
            if not any(t.op == 'cmp' and t.a[0] == 'in' and t.a[1] is k and not p for t, p in g2) and \
                    not any(is_call(y, '.get') for t, _ in g2 for y in subterms(t)):
                return 'a net is created although one of that name exists'
    if at is not None and key is not None and key.op == 'attr' and entry_of(key.a[0]):
        w, d, _ = entry_of(key.a[0])
        hit = False
        for ev in e.by_recv.get(table, []):
            if ev.kind == 'setitem' and ev.idx < at.idx and ev.args[0].op == 'attr' and ev.args[0].a[1] == key.a[1]:
                if any(x[0] == 'key' and x[1] is d for x in entries_of(ev.args[0].a[0])):
                    gs = [t for t, p in live(e, ev.guards) if not (t.op == 'cmp' and t.a[0] == 'in' and not p and t.a[1] is ev.args[0])]
                    hit = hit or not gs
        if not hit:
            return f"nets for the missing {key.a[1]} of {show(d)[-30:]} are not created"
    return None


@check('C13', 'value-flow analysis of the 2.5D netlist expander',
       'Decides source table, terminals, unit conversion, naming and completeness of every created device, net creation and '
       'white-box removal, for every summary. The values of the summary itself are C29 and C45.')
def c13(ctx: Ctx):
    """create_device calls of RCX25NetlistExpander.expand: exactly one per entry of summary.capacitances (C = fF*1e-15) and of
    summary.resistances (R = ohm), A/B on the two nets of the key; nets looked up by name and created when missing."""
    q = EXP25
    ctx.need(q in ctx.prog.funcs, f"{q} is gone")
    e = ctx.analyse(q, opaque=[f'{RES}.ExtractionResults.summarize'])
    cp, top = the_copy(ctx, e, 'extracted_netlist', q)
    if top is None:
        return
    summ = [ev.result for ev in e.events if ev.kind == 'call' and ev.callee.endswith('.ExtractionResults.summarize')]
    summ = list(dict.fromkeys(summ))
    ctx.ob('summary', len(summ) == 1, q, 'the results are not summarised')
    devs = devices(e, top)
    seen = {}
    for d in devs:
        cls = cargs(d.ev.result)[1]
        kind = 'C' if is_call(cls, 'klayout.db.DeviceClassCapacitor') or is_new(cls, 'DeviceClassCapacitor') else \
            'R' if is_call(cls, 'klayout.db.DeviceClassResistor') or is_new(cls, 'DeviceClassResistor') else '?'
        nm = f"{q}:{kind}"
        added = [ev for ev in e.events if ev.kind == 'call' and ev.callee == '.add' and ev.recv is cp and ev.args and ev.args[0] is cls]
        ctx.ob('class-registered', len(added) == 1 and not live(e, added[0].guards), nm, 'the device class is not added to the netlist')
        ctx.ob('device-complete', not d.problems and set(d.terms) == {'A', 'B'} and set(d.params) == {kind}, nm,
               'a device lacks a terminal or its value', d.ev.loc)
        if d.problems or set(d.terms) != {'A', 'B'} or set(d.params) != {kind}:
            continue
        ctx.ob('device-unconditional', not live(e, d.ev.guards), nm, f"parasitics are skipped unless {show(conj(live(e, d.ev.guards)))[:100]}",
               d.ev.loc)
        want = 'capacitances' if kind == 'C' else 'resistances'
        src = dict_source(d.ev.loops[0].iter) if len(d.ev.loops) == 1 else None
        ok = len(summ) == 1 and src is T('attr', summ[0], want) and not d.ev.loops[0].exits_early() if hasattr(
            d.ev.loops[0] if d.ev.loops else None, 'exits_early') else len(summ) == 1 and src is T('attr', summ[0], want)
        ctx.ob('device-source', ok, nm, f"the devices are created for {show(src)[:80] if src is not None else 'several loops'}, not for each "
               f"entry of {want}", d.ev.loc)
        if d.ev.loops:
            br = [x for x in d.ev.loops[0].exits if x[0] in ('break', 'return')]
            ctx.ob('device-every-entry', not br, nm, 'the loop over the parasitics ends early', d.ev.loc)
        seen[kind] = seen.get(kind, 0) + 1
        ks = {}
        for term in ('A', 'B'):
            nk = net_keys(e, top, d.terms[term], d.ev)
            for k, p in nk:
                ctx.ob('terminal-net', p is None, f"{nm}:{term}", p or '', d.ev.loc)
            ks[term] = {k for k, _ in nk}
        names = []
        for term in ('A', 'B'):
            k = next(iter(ks[term])) if len(ks[term]) == 1 else None
            x = entry_of(k.a[0]) if k is not None and k.op == 'attr' else None
            names.append(k.a[1] if x and x[0] == 'key' and x[1] is src and d.ev.loops and x[2] == d.ev.loops[0].uid else None)
        ctx.ob('terminal-key', sorted(map(str, names)) == ['net1', 'net2'], nm,
               f"the terminals are connected to {[show(x)[:60] for t in 'AB' for x in ks[t]]}", d.ev.loc)
        v = d.params[kind]
        ent = [x for x in subterms(v) if (entry_of(x) or (None,))[0] == 'val' and entry_of(x)[1] is src]
        p = pnorm(v, lambda t: {(('V', 1),): Fraction(1)} if ent and t is ent[0] else None)
        f = Fraction(1, 10 ** 15) if kind == 'C' else Fraction(1)
        ok = bool(ent) and set(p) == {(('V', 1),)} and abs(p[(('V', 1),)] / f - 1) < Fraction(1, 10 ** 9)
        ctx.ob('value', ok, nm, f"the value is {show(v)[:100]}", d.ev.loc)
        ctx.ob('unique-names', unique_name(d), nm, 'devices of the same kind share a name', d.ev.loc)
    ctx.ob('both-kinds', seen == {'C': 1, 'R': 1}, q, f"devices are created at {seen} places")
    # created nets
    for ev in e.events:
        if ev.kind == 'call' and ev.callee == '.create_net':
            k = ev.args[0] if ev.args else None
            ok = any(t.op == 'cmp' and t.a[0] == 'in' and t.a[1] is k and not p for t, p in ev.guards) or \
                any(is_call(y, '.get', '.net_by_name') and k in subterms(y) for t, _ in ev.guards for y in subterms(t))
            ctx.ob('net-once', ok, f"{q}:{show(k)[-20:] if k is not None else ''}", 'a net is created although one of that name exists', ev.loc)
    whitebox(ctx, e, q, top, ['DeviceClassCapacitor', 'DeviceClassCapacitorWithBulk'])


def unique_name(d):
    if len(d.ev.args) < 2 or not d.ev.loops:
        return len(d.ev.args) < 2
    uid = d.ev.loops[-1].uid
    ps = [p for p in pieces(d.ev.args[1]) if p.op != 'const']
    for p in ps:
        if any(x.op == 'index' and x.a[1] == uid for x in subterms(p)) and not any(x.op == 'bin' and x.a[0] in ('%', '//') for x in subterms(p)):
            return True
        if any(x.op == 'mu' for x in subterms(p)):
            return True
    nets = {x.a[1] for p in ps for x in subterms(p) if x.op == 'attr' and x.a[1] in ('net1', 'net2')}
    return nets == {'net1', 'net2'}


# ------------------------------------------------------------------ C14
def dev_param(e, t):
    """(device, parameter name) that a term reads"""
    if is_call(t, '.parameter') and len(cargs(t)) == 2:
        k = cargs(t)[1]
        if k.op == 'const' and isinstance(k.a[0], str):
            return cargs(t)[0], k.a[0]
        if is_call(k, '.id') and is_call(cargs(k)[0], '.parameter_definition') and len(cargs(cargs(k)[0])) == 2 and \
                cargs(cargs(k)[0])[1].op == 'const':
            return cargs(t)[0], cargs(cargs(k)[0])[1].a[0]
    if t.op == 'item' and t.a[1].op == 'const' or is_call(t, '.get') and t.op == 'call' and len(cargs(t)) >= 2 and cargs(t)[1].op == 'const':
        table, key = (t.a[0], t.a[1]) if t.op == 'item' else cargs(t)[:2]
        ents = dict_entries(e, table)
        if ents is not None and len(ents) == 1:
            k, v, g, lp = ents[0]
            if len(lp) == 1 and is_call(lp[0].iter, '.parameter_definitions') and k.op == 'attr' and k.a[1] == 'name' and \
                    is_call(v, '.parameter') and is_call(cargs(v)[1], '.id') and cargs(cargs(v)[1])[0] is k.a[0]:
                d = cargs(v)[0]
                dc = cargs(lp[0].iter)[0]
                if is_call(dc, '.device_class') and cargs(dc)[0] is d:
                    return d, key.a[0]
    return None


def is_kind_literal(t, p, cls):
    """isinstance(device_class(d), cls): returns d"""
    if p and is_call(t, 'isinstance') and is_call(cargs(t)[0], '.device_class') and is_ref(cargs(t)[1], cls):
        return cargs(cargs(t)[0])[0]
    return None


@check('C14', 'value-flow and ordering analysis of the reducer',
       'Decides, for every netlist, the exact condition under which a device is removed, that devices are combined before any is judged, '
       'and that only a copy is modified.')
def c14(ctx: Ctx):
    """remove_device of NetlistReducer.reduce: iff the device class is a capacitor and its C is below the threshold; combine_devices first."""
    q = 'klayout_pex.klayout.netlist_reducer.NetlistReducer.reduce'
    ctx.need(q in ctx.prog.funcs, f"{q} is gone")
    e = ctx.analyse(q)
    cp, top = the_copy(ctx, e, 'netlist', q)
    if top is None:
        return
    comb = [ev for ev in e.events if ev.kind == 'call' and ev.callee == '.combine_devices' and reaches(ev.recv, cp)]
    scan = [ev for ev in e.events if ev.kind == 'call' and ev.callee == '.each_device']
    ctx.ob('combine-first', len(comb) == 1 and not live(e, comb[0].guards) and not comb[0].loops and comb[0].recv in (cp, top) and
           bool(scan) and comb[0].idx < scan[0].idx, q, 'devices are not combined before they are compared with the threshold')
    rm = [ev for ev in e.events if ev.kind == 'call' and ev.name in NET_MUT and ev.recv is not None and reaches(ev.recv, cp) and ev not in comb]
    others = [ev for ev in rm if ev.callee != '.remove_device' or ev.recv is not top]
    ctx.ob('only-devices-removed', not others, q, f"the netlist is also changed by {others[0].callee if others else ''}",
           others[0].loc if others else '')
    rm = [ev for ev in rm if ev not in others]
    ctx.ob('removal', len(rm) == 1, q, f"devices are removed at {len(rm)} places")
    th = T('param', 'cap_threshold')
    for ev in rm:
        it = live_iterator(ev)
        ctx.ob('not-while-iterating', it is None, q, f"removed while {show(it)[:60] if it is not None else ''} is still being walked (its iterator becomes invalid)", ev.loc)
        d = ev.args[0] if ev.args else None
        src = e_source(d)
        ctx.ob('every-device', src is not None and src.op == 'call' and is_call(src, '.each_device') and cargs(src)[0] is top, q,
               f"the devices that are judged are {show(src)[:60] if src is not None else None}", ev.loc)
        for l in ev.loops:
            ctx.ob('no-early-end', not [x for x in l.exits if x[0] in ('break', 'return')], q, 'not all devices are judged', ev.loc)
        g = live(e, ev.guards)
        kinds = [x for t, p in g for x in [is_kind_literal(t, p, 'DeviceClassCapacitor')] if x is not None]
        ctx.ob('capacitors-only', len(kinds) == 1 and kinds[0] is d, q, 'devices other than capacitors may be removed', ev.loc)
        rest = [(t, p) for t, p in g if is_kind_literal(t, p, 'DeviceClassCapacitor') is None]
        ok = len(rest) == 1
        if ok:
            t, p = rest[0]
            ok = t.op == 'cmp' and t.a[0] == '<' and p and t.a[2] is th and dev_param(e, t.a[1]) == (d, 'C')
        ctx.ob('threshold', ok, q, f"a capacitor is removed when {show(conj(rest))[:150]}, not when its C is below the threshold", ev.loc)
    dv = default_of(ctx, q, 'cap_threshold')
    ctx.ob('default-threshold', isinstance(dv, (int, float)) and abs(dv - 0.05e-15) < 1e-24, q, f"the default threshold is {dv} F")


def e_source(d):
    """each_device term behind a device"""
    while d is not None and d.op in ('elem',):
        d = d.a[0]
        while is_call(d, 'list', 'tuple', 'iter', 'sorted', 'reversed') and cargs(d):
            d = cargs(d)[0]
    return d


# ------------------------------------------------------------------ C15
def net_of_terminal(t, d):
    """terminal name if t is the expanded name of the net at a terminal of device d"""
    if is_call(t, '.expanded_name') and is_call(cargs(t)[0], '.net_for_terminal') and cargs(cargs(t)[0])[0] is d:
        k = cargs(cargs(t)[0])[1]
        return k.a[0] if k.op == 'const' else None
    return None


def scaled_param(e, t, d, par):
    """factor f (and digits) if t is round(par*f, digits) or par*f in some format"""
    digits = None
    while True:
        if is_call(t, 'round'):
            digits = cargs(t)[1].a[0] if len(cargs(t)) == 2 and cargs(t)[1].op == 'const' else 0
            t = cargs(t)[0]
        elif is_call(t, 'format', '%fmt') and len(cargs(t)) == 2:
            a = cargs(t)
            x, spec = (a[0], a[1]) if t.a[0] == 'format' else (a[1], a[0])
            m = re.fullmatch(r'%?\.(\d+)f', str(spec.a[0])) if spec.op == 'const' else None
            if not m:
                return None
            digits, t = int(m.group(1)), x
        elif is_call(t, 'str', 'float') and len(cargs(t)) == 1:
            t = cargs(t)[0]
        else:
            break
    p = pnorm(t, lambda x: {(('V', 1),): Fraction(1)} if dev_param(e, x) == (d, par) else None)
    if set(p) != {(('V', 1),)}:
        return None
    return p[(('V', 1),)], digits


def row_items(lns):
    return lns


@check('C15', 'value-flow analysis of the text that is written',
       'Decides the header, the exact condition under which a device has a row, and the contents of each column (net of terminal A, of B, '
       'value scaled by 1e15 with at least 2 decimals).')
def c15(ctx: Ctx):
    """NetlistCSVWriter.write_csv: header; one row per capacitor of class PEX_CAP of the top circuit: name;net A;net B;C in fF."""
    q = 'klayout_pex.klayout.netlist_csv.NetlistCSVWriter.write_csv'
    ctx.need(q in ctx.prog.funcs, f"{q} is gone")
    e = ctx.analyse(q)
    input_untouched(ctx, e, 'netlist', q)
    ls = lines(e, is_file_of(lambda p: is_param(p, 'output_path')))
    ctx.ob('csv-lines', len(ls) == 2 and all(l.ended for l in ls), q, f"the file has the lines {ls}"[:300])
    if len(ls) != 2:
        return
    h, r = ls
    ctx.ob('csv-header', h.text == 'Device;Net1;Net2;Capacitance [fF]' and not h.loops and not h.guards, q, f"the header is {h.text!r}", h.loc)
    cols = [[]]
    for p in r.parts:
        if p.op == 'const' and ';' in str(p.a[0]):
            segs = str(p.a[0]).split(';')
            if segs[0]:
                cols[-1].append(const(segs[0]))
            for s in segs[1:]:
                cols.append([const(s)] if s else [])
        elif is_call(p, '.join') and is_const(cargs(p)[0], ';'):
            its = list_items(e, cargs(p)[1], r.ev) or []
            for i, (v, g, l) in enumerate(its):
                if i:
                    cols.append([])
                cols[-1].extend(pieces(v))
        else:
            cols[-1].append(p)
    ctx.ob('csv-columns', len(cols) == 4 and all(len(c) == 1 for c in cols), q, f"a row has the columns {r}"[:300], r.loc)
    ok = len(r.loops) == 1 and is_call(dict_source(r.loops[0].iter), '.each_device')
    circ = cargs(dict_source(r.loops[0].iter))[0] if ok else None
    ok = ok and is_call(circ, '.circuit_by_name') and is_param(cargs(circ)[0], 'netlist') and is_param(cargs(circ)[1], 'top_cell_name')
    ctx.ob('csv-devices', ok and not [x for x in r.loops[0].exits if x[0] in ('break', 'return')], q,
           'the rows are not written for every device of the top circuit', r.loc)
    if len(cols) != 4 or not all(len(c) == 1 for c in cols) or not r.loops:
        return
    d = r.loops[0].elem
    if d is not None and d.op == 'tuple':
        d = d.a[1]
    g = live(e, r.guards)
    kinds = [x for t, p in g for x in [is_kind_literal(t, p, 'DeviceClassCapacitor')] if x is not None]
    rest = [(t, p) for t, p in g if is_kind_literal(t, p, 'DeviceClassCapacitor') is None]
    ok = kinds == [d] and len(rest) == 1
    if ok:
        t, p = rest[0]
        ok = p and t.op == 'cmp' and t.a[0] == '==' and any(x.op == 'attr' and x.a[1] == 'name' and is_call(x.a[0], '.device_class')
                                                            and cargs(x.a[0])[0] is d for x in t.a[1:]) and \
            any(is_const(x, 'PEX_CAP') for x in t.a[1:])
    ctx.ob('csv-filter', ok, q, f"a device has a row when {show(conj(g))[:150]}", r.loc)
    nm = cols[0][0]
    lv = list(leaves(nm))
    ok = bool(lv) and all((is_call(x, '.expanded_name') and cargs(x)[0] is d) or (x.op == 'attr' and x.a[1] == 'name' and x.a[0] is d) for x in lv)
    ctx.ob('csv-name', ok, q, f"the device column is {show(nm)[:80]}", r.loc)
    for i, term in ((1, 'A'), (2, 'B')):
        x = cols[i][0]
        ctx.ob('csv-net', net_of_terminal(x, d) == term, f"{q}:{term}", f"the column of net {i} is {show(x)[:80]}", r.loc)
    sp = scaled_param(e, cols[3][0], d, 'C')
    ctx.ob('csv-value', sp is not None and abs(sp[0] / 10 ** 15 - 1) < Fraction(1, 10 ** 9) and (sp[1] is None or sp[1] >= 2), q,
           f"the value column is {show(cols[3][0])[:100]}", r.loc)


# ------------------------------------------------------------------ C16
JW = 'klayout_pex.netlistsvg.netlist_json.NetlistJSONWriter'


def net_id_function(ctx):
    """method that gives a net its identity: result stored in a table of self, keyed by the name of its only argument"""
    cand = {}
    for qn, f in ctx.prog.funcs.items():
        if qn.startswith(JW + '.') and qn.count('.') == JW.count('.') + 1 and len(f.params) == 2 and f.name != '__init__':
            e = ctx.analyse(qn)
            st = [ev for ev in e.events if ev.kind == 'setitem' and ev.recv.op == 'attr' and is_param(ev.recv.a[0]) or
                  ev.kind == 'call' and ev.callee == '.setdefault' and ev.recv.op == 'attr']
            if st and not any(ev.kind == 'call' and ev.callee == '.each_device' for ev in e.events):
                cand[qn] = e, st
    # the innermost of them: the others only call it
    for qn, (e, st) in cand.items():
        if not any(c != qn and c in ev.ctx for c in cand for ev in st):
            return qn, e
    return None, None


def check_net_id(ctx, qn, e):
    net = T('param', ctx.prog.funcs[qn].params[1])
    me = T('param', ctx.prog.funcs[qn].params[0])

    def key_ok(k):
        lv = list(leaves(k))
        return bool(lv) and all((is_call(x, '.expanded_name') and cargs(x)[0] is net) or
                                (x.op == 'attr' and x.a[1] == 'name' and x.a[0] is net) for x in lv)
    st = [ev for ev in e.events if ev.kind == 'setitem' or ev.kind == 'call' and ev.callee == '.setdefault']
    ok = len(st) == 1 and key_ok(st[0].args[0])
    ctx.ob('net-id-key', ok, qn, 'the identity is not kept under the name of the net')
    if not ok:
        return
    s = st[0]
    table, key, val = s.recv, s.args[0], s.args[1]
    # counter
    inc = [ev for ev in e.events if ev.kind == 'store' and ev.recv is me]
    fresh = False
    if val.op == 'attr' and val.a[0] is me:
        fresh = len(inc) == 1 and inc[0].callee == val.a[1] and pnorm(inc[0].args[0], lambda t: {(('N', 1),): Fraction(1)} if t is val else None) == \
            {(('N', 1),): Fraction(1), (): Fraction(1)} and inc[0].guards == s.guards
    elif is_call(val, 'len') and cargs(val)[0] is table:
        fresh = True
    elif is_call(val, 'next') and cargs(val)[0].op == 'attr':
        fresh = True
    elif val.op == 'bin' and val.a[0] == '+' and is_call(val.a[1], 'len') and cargs(val.a[1])[0] is table and val.a[2].op == 'const':
        fresh = True
    elif inc and inc[0].args[0] is val:
        fresh = val.op == 'bin' and val.a[0] == '+' and val.a[2].op == 'const' and val.a[2].a[0] == 1
    ctx.ob('net-id-fresh', fresh, qn, f"the identity of a new net is {show(val)[:80]}", s.loc)
    if s.kind == 'call':
        ctx.ob('net-id-result', e.result is s.result and fresh and is_call(val, 'len'), qn, 'the identity is not the stored one')
        return
    res = gated_leaves(e.result)
    for c, l in res:
        if l is val:
            continue
        ok = is_call(l, '.get') and cargs(l)[0] is table and cargs(l)[1] is key or l.op == 'item' and l.a[0] is table and l.a[1] is key
        ctx.ob('net-id-result', ok, qn, f"the identity is {show(l)[:80]}", s.loc)
    missing = [T('cmp', 'in', key, table)]
    ok = False
    g = conj(s.guards)
    for x in list(subterms(g)) + missing:
        if x.op == 'cmp' and x.a[0] == '==' and any(is_const(y, None) for y in x.a[1:]) and any(is_call(y, '.get') for y in x.a[1:]):
            ok = ok or equiv(g, x)
        if x is missing[0]:
            ok = ok or equiv(g, mk_not(x))
    ctx.ob('net-id-once', ok, qn, f"a new identity is given when {show(g)[:100]}", s.loc)


@check('C16', 'value-flow analysis of the generated JSON structure',
       'Decides for every netlist which cells the description has, the uniqueness of their keys, the net behind each connection, '
       'the unit of each value, and that a net name maps to one identity. Assumes klayout gives devices and subcircuits of a circuit unique '
       'expanded names.')
def c16(ctx: Ctx):
    """Cells and ports of NetlistJSONWriter.netlist_json_dict."""
    q = f'{JW}.netlist_json_dict'
    ctx.need(q in ctx.prog.funcs, f"{q} is gone")
    idf, ie = net_id_function(ctx)
    ctx.ob('net-id', idf is not None, JW, 'no function gives nets their identity')
    if idf is None:
        return
    check_net_id(ctx, idf, ie)
    e = ctx.analyse(q, opaque=[idf])
    top = T('param', 'top_circuit')

    def net_id(t):
        """net term whose identity t is"""
        if t.op in ('lit', 'tuple'):
            its = list_items(e, t)
            if its is None or len(its) != 1:
                return None
            t = its[0][0]
        if t.op == 'call' and t.a[0] == idf and len(cargs(t)) >= 1:
            return cargs(t)[-1]
        return None
    root = dict(top_entries(e, e.result))
    mods = root.get('modules')
    ments = dict_entries(e, mods) if mods is not None else None
    ok = ments is not None and len(ments) == 1 and ments[0][0].op == 'attr' and ments[0][0].a[1] == 'name' and ments[0][0].a[0] is top
    ctx.ob('module', ok, q, 'the description does not have one module with the name of the circuit')
    if not ok:
        return
    mod = dict(top_entries(e, ments[0][1]))
    ctx.ob('module-parts', set(mod) >= {'ports', 'cells'}, q, f"the module has {sorted(mod)}")
    if not set(mod) >= {'ports', 'cells'}:
        return
    # ports
    ps = dict_entries(e, mod['ports'])
    ok = ps is not None and len(ps) == 1
    if ok:
        k, v, g, lp = ps[0]
        ok = len(lp) == 1 and is_call(lp[0].iter, '.each_pin') and cargs(lp[0].iter)[0] is top and not live(e, g)
        pin = lp[0].elem if lp else None
        d = dict(top_entries(e, v))
        n = net_id(d['bits']) if 'bits' in d else None
        ok = ok and is_call(k, '.name') and cargs(k)[0] is pin and n is not None and is_call(n, '.net_for_pin') and \
            cargs(n)[0] is top and (cargs(n)[1] is pin or is_call(cargs(n)[1], '.id') and cargs(cargs(n)[1])[0] is pin)
    ctx.ob('ports', ok, q, 'the ports are not the pins of the circuit with their nets')
    # cells
    cs = dict_entries(e, mod['cells'])
    ctx.ob('cells', bool(cs), q, 'the cells are not built here')
    kinds = {}
    prefixes = []
    for k, v, g, lp in cs or []:
        g = live(e, g)
        d = dict(top_entries(e, v))
        ty = d.get('type')
        if not lp and not (ty is not None and is_const(ty, 'gnd')):
            ctx.fail('cell-known', f"{q}:{show(k)[:40]}", 'a cell of unknown origin is added')
            continue
        conns = dict_entries(e, d['connections']) if 'connections' in d else None
        if ty is not None and is_const(ty, 'gnd'):
            kinds.setdefault('gnd', []).append((k, g, conns, d, lp))
            continue
        dev = lp[0].elem
        if dev is not None and dev.op == 'tuple':
            dev = dev.a[1]
        itr = dict_source(lp[0].iter)
        pk = pieces(k)
        pre = str(pk[0].a[0]) if pk and pk[0].op == 'const' else ''
        idp = [p for p in pk if p.op != 'const']
        own = any(x is dev for p in idp for x in subterms(p)) and all(
            all((is_call(l, '.expanded_name', '.id') and cargs(l)[0] is dev) or (l.op == 'attr' and l.a[1] == 'name' and l.a[0] is dev)
                for l in leaves(p)) for p in idp) and any(
            (is_call(l, '.expanded_name', '.id')) for p in idp for l in leaves(p))
        if is_call(itr, '.each_subcircuit'):
            kind = 'X'
            ok = own and len(lp) == 1 and not g
            ctx.ob('subcircuit-key', ok and cargs(itr)[0] is top, q, f"the key of a subcircuit cell is {show(k)[:80]}")
            ok = conns is not None and len(conns) == 1
            if ok:
                ck, cv, cg, cl = conns[0]
                n = net_id(cv)
                cref = cargs(cl[-1].iter)[0] if cl and is_call(cl[-1].iter, '.each_pin') else None
                pin = cl[-1].elem if cl else None
                ok = cref is not None and is_call(cref, '.circuit_ref') and cargs(cref)[0] is dev and n is not None and \
                    is_call(n, '.net_for_pin') and cargs(n)[0] is dev and is_call(cargs(n)[1], '.id') and cargs(cargs(n)[1])[0] is pin \
                    and not [x for x in live(e, cg) if x not in g] and any(is_call(x, '.id') and cargs(x)[0] is pin for x in subterms(ck))
            ctx.ob('subcircuit-pins', ok, q, 'the pins of a subcircuit are not connected to the nets of that instance')
        elif is_call(itr, '.each_device'):
            cap = [is_kind_literal(t, p, 'DeviceClassCapacitor') for t, p in g]
            res = [is_kind_literal(t, p, 'DeviceClassResistor') for t, p in g]
            kind = 'C' if dev in cap else 'R' if dev in res else '?'
            neg = [(t, p) for t, p in g if not p and is_kind_literal(t, True, 'DeviceClassCapacitor') is dev and kind == 'R']
            rest = [x for x in g if x not in neg and is_kind_literal(*x, 'DeviceClassCapacitor') is not dev and
                    is_kind_literal(*x, 'DeviceClassResistor') is not dev]
            ctx.ob('device-cell', kind != '?' and not rest and own and cargs(itr)[0] is top and len(lp) == 1, f"{q}:{kind}",
                   f"the cell {show(k)[:60]} is written when {show(conj(g))[:100]}")
            want = {'C': ('c_v', 'C', 15, 3, 'f'), 'R': ('r_v', 'R', 0, 3, '')}.get(kind)
            if want is None:
                continue
            ctx.ob('device-type', ty is not None and is_const(ty, want[0]), f"{q}:{kind}", f"the type is {show(ty) if ty is not None else None}")
            got = {}
            for ck, cv, cg, cl in conns or []:
                n = net_id(cv)
                if ck.op == 'const' and n is not None and is_call(n, '.net_for_terminal') and cargs(n)[0] is dev and cargs(n)[1].op == 'const':
                    got[ck.a[0]] = cargs(n)[1].a[0]
            ctx.ob('device-connections', got == {'A': 'A', 'B': 'B'}, f"{q}:{kind}", f"the terminals are connected as {got}")
            at = dict(top_entries(e, d['attributes'])) if 'attributes' in d else {}
            val = at.get('value')
            ok = val is not None
            if ok:
                vp = pieces(val)
                num = [p for p in vp if p.op != 'const']
                suf = ''.join(str(p.a[0]) for p in vp if p.op == 'const')
                sp = scaled_param(e, num[0], dev, want[1]) if len(num) == 1 else None
                ok = sp is not None and suf == want[4] and abs(sp[0] / 10 ** want[2] - 1) < Fraction(1, 10 ** 9) and \
                    (sp[1] is None or sp[1] >= want[3])
            ctx.ob('device-value', ok, f"{q}:{kind}", f"the value is {show(val)[:80] if val is not None else None}")
        else:
            ctx.fail('cell-known', f"{q}:{show(k)[:40]}", 'a cell of unknown origin is added')
            continue
        kinds.setdefault(kind, []).append(k)
        prefixes.append(pre)
    ctx.ob('all-kinds', all(len(kinds.get(x, [])) == 1 for x in 'XCR'), q, f"the kinds of cells are {sorted(kinds)}")
    ok = all(prefixes) and len(set(prefixes)) == len(prefixes) and not any(a != b and a.startswith(b) for a in prefixes for b in prefixes) \
        and not any('gnd'.startswith(p) for p in prefixes)
    ctx.ob('unique-keys', ok, q, f"the prefixes {prefixes} do not keep the keys apart")
    # other devices are an error
    for ev in e.events:
        if ev.kind == 'raise':
            g = live(e, ev.guards)
            ks = {('C' if is_kind_literal(t, True, 'DeviceClassCapacitor') is not None else
                   'R' if is_kind_literal(t, True, 'DeviceClassResistor') is not None else '?') for t, p in g if not p}
            ctx.ob('unsupported-only', ks >= {'C', 'R'}, q, f"an error is raised when {show(conj(g))[:100]}", ev.loc)
    drop = [ev for ev in e.events if ev.kind == 'call' and ev.callee in ('.pop', '.popitem', '.clear') and ev.recv is mod['cells']]
    ctx.ob('cells-kept', not drop, q, 'cells are removed again', drop[0].loc if drop else '')
    # grounds: cell connected to the identity of the net with that name
    for k, g, conns, d, lp in kinds.get('gnd', []):
        ok = conns is not None and len(conns) == 1 and is_const(conns[0][0], 'A')
        nmv = dict(top_entries(e, d['attributes'])).get('value') if 'attributes' in d else None
        if ok:
            its = list_items(e, conns[0][1])
            x = its[0][0] if its and len(its) == 1 else None
            ok = x is not None and (is_call(x, '.get') and cargs(x)[1] is nmv or x.op == 'item' and x.a[1] is nmv)
        ctx.ob('ground-net', ok, f"{q}:{show(nmv)[:20] if nmv is not None else k}", 'a ground symbol is connected to another net')


def top_entries(e, t):
    """constant-keyed entries of a dict"""
    out = []
    for k, v, g, lp in (dict_entries(e, t) if t is not None else None) or []:
        if k.op == 'const':
            out.append((k.a[0], v))
    return out
