"""C18-C21, C23, C49, C50: the generator of the technology files, the tables it writes, and the LVS decks.

The C++ sources are parsed by clang; constants are propagated through the functions that build the messages (no generated program is run
and no generated file is read), so the rules see the technology descriptions as the sources define them."""
from __future__ import annotations
import os
import re
from typing import *

from ..core import check, Ctx
from ..model import AnalysisBroken
from ..cxx import Source, Eval, Msg, Cell, Sym, kids, strip_ns, DIR

_CACHE: Dict[str, tuple] = {}
EPS0 = 8.8541878128      # aF/um


def generator(ctx: Ctx):
    """(Source, Eval after main, {file stem: Technology message})"""
    root = ctx.prog.repo
    if root not in _CACHE:
        src = Source(root, ctx.prog.protos)
        e = Eval(src, decide=lambda c: False)
        e.call(src.function('main'), [Cell(Sym('argc')), Cell(Sym('argv'))])
        techs: Dict[str, List[tuple]] = {}
        for q, args, place, res, fn in e.calls:
            ms = [a for a in args if isinstance(a, Msg) and a.qual.endswith('.Technology')]
            paths = [str(a) for a in args if '_tech' in str(a) and not isinstance(a, Msg)]
            if ms and paths:
                m = re.search(r"([^/\s'\"]+)_tech[\w.]*", paths[0])
                if m:
                    techs.setdefault(m.group(0).rstrip(")>'"), []).append((ms[0], place, q))
        _CACHE[root] = (src, e, techs)
    src, e, techs = _CACHE[root]
    ctx.analysed |= {f'{DIR}:{q}' for q in e.used}
    return src, e, techs


def loc_of(ctx, m, field=None):
    at = (m.set_at.get(field) if field else None) or m.at
    return rel(ctx, at)


def rel(ctx, at):
    if not at:
        return DIR
    f = at[0]
    i = f.find(DIR)
    return f"{f[i:] if i >= 0 else f}:{at[1]}"


# ---------------------------------------------------------------- C18
STR, NUM, ENUM = 'str', 'num', 'enum'
INT_T = r'(unsigned |signed )?(char|short|int|long|long long)( int)?|u?int(_fast|_least)?(8|16|32|64)_t|size_t|ssize_t|unsigned|::std::u?int\d+_t'
FLOAT_T = r'(long )?double|float'


def bare(t):
    return re.sub(r'\s+', ' ', re.sub(r'\bconst\b|[&]', '', strip_ns(t))).strip()


def pclass(ev, p):
    t = bare(p['type']['qualType'])
    d = bare(p['type'].get('desugaredQualType', ''))
    if '*' in t and t.replace(' ', '') not in ('char*',):
        return None
    if t in ('std::string', 'std::string_view', 'string', 'char *', 'string_view') or 'basic_string' in d:
        return STR
    for x in (t, d):
        if re.fullmatch(FLOAT_T, x) or re.fullmatch(INT_T, x):
            return NUM
    for x in (t, d):
        q = next((q for q in ev.src.protos.enums if x.endswith('::'.join(ev._cxx(q)[1])) or x.endswith('_'.join(ev._cxx(q)[1]))), None)
        if q:
            return (ENUM, q)
    return None


def is_signed(p):
    t = bare(p['type'].get('desugaredQualType') or p['type']['qualType'])
    return bool(re.fullmatch(r'(signed )?(char|short|int|long|long long)( int)?|int(_fast|_least)?\d+_t|ssize_t', t))


def setters(src, ev):
    """helpers that put scalars into a message they are given"""
    out = []
    for (q, _), f in sorted(src.funcs.items(), key=lambda kv: (kv[1].get('_tu', ''), kv[1].get('_at') or (0, 0))):
        ps = [p for p in kids(f) if p['kind'] == 'ParmVarDecl']
        if len(ps) < 2:
            continue
        t0 = ps[0]['type']['qualType']
        mq = ev.msg_type(t0)
        if not mq or ('*' not in t0 and '&' not in t0) or re.match(r'\s*const\b', strip_ns(t0)):
            continue
        cl = [pclass(ev, p) for p in ps[1:]]
        if all(cl):
            out.append((f, mq, ps, cl))
    return out


def leaves(m, path=()):
    for k, v in m.f.items():
        if isinstance(v, Msg):
            yield from leaves(v, path + (k,))
        elif isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, Msg):
                    yield from leaves(x, path + (k, i))
                else:
                    yield path + (k, i), x
        else:
            yield path + (k,), v


def at_path(m, path):
    for p in path:
        if isinstance(m, Msg):
            m = m.f.get(p)
        elif isinstance(m, list):
            m = m[p] if p < len(m) else None
        else:
            return None
    return m


def tokens(s):
    return [t for t in re.split(r'[^A-Za-z0-9]+|(?<=[a-z])(?=[A-Z])', s) if t and not t.isdigit()]


def sim(name, path):
    a = [t.lower() for t in tokens(name)]
    b = [t.lower() for p in path if isinstance(p, str) for t in tokens(p)]
    n, used = 0, set()
    for x in a:
        for j, y in enumerate(b):
            if j not in used and (x == y or (len(x) >= 3 and y.startswith(x)) or (len(y) >= 3 and x.startswith(y))):
                used.add(j)
                n += 1
                break
    return n / max(1, len(a) + len(set(b)) - n) if a else 0.0


def run(src, f, mq, values):
    e = Eval(src, decide=None)
    m = Msg(mq)
    r = e.call(f, [Cell(m)] + [Cell(v) for v in values])
    return m, r


@check('C18', 'constant propagation through the syntax tree (clang) of every helper of the generator: where each argument ends up',
       'Every helper that stores scalars in a message; arguments are represented by distinct values and by the sentinels of their type.')
def c18(ctx: Ctx):
    src, ev, techs = generator(ctx)
    hs = setters(src, ev)
    ctx.need(len(hs) >= 5, 'the helpers of the generator are not recognized any more')
    for f, mq, ps, cl in hs:
        name = f['_qual']
        where = rel(ctx, f.get('_at'))
        sig = f"{name}({', '.join(p.get('name', '?') for p in ps)})"
        ctx.analysed.add(f'{DIR}:{name}')

        def base_value(i):
            c = cl[i]
            if c == STR:
                return f"kpex argument {i}"
            if c == NUM:
                t = bare(ps[i + 1]['type'].get('desugaredQualType') or ps[i + 1]['type']['qualType'])
                return 1001.5 + 2 * i if re.fullmatch(FLOAT_T, t) else 1000 + i
            vs = ctx.prog.protos.enums[c[1]]
            return sorted(vs, key=vs.get)[min(1, len(vs) - 1)]
        base = [base_value(i) for i in range(len(cl))]
        try:
            m, r = run(src, f, mq, base)
        except AnalysisBroken as x:
            ctx.fail('helper', sig, f"cannot tell where the arguments end up: {x}", where)
            continue
        lv = dict(leaves(m))
        path = {}
        for i, p in enumerate(ps[1:]):
            hits = [k for k, v in lv.items() if v == base[i] and not isinstance(v, bool)]
            if ctx.ob('stored', hits, f"{name}: {p.get('name')}",
                      f"the argument {p.get('name')} of {name} is not stored unaltered in any field"
                      f" (stored: {', '.join('.'.join(map(str, k)) + '=' + str(v) for k, v in lv.items())[:200]})", where):
                path[i] = hits
        # nothing but the arguments and constants of the schema
        for k, v in lv.items():
            known = any(k in h for h in path.values()) or isinstance(v, str) and any(v in vs for vs in ctx.prog.protos.enums.values())
            if not known and isinstance(v, (int, float)) and not isinstance(v, bool) and k[-1] not in ('layer_type',):
                ctx.fail('altered', f"{name}: {'.'.join(map(str, k))}", f"{'.'.join(map(str, k))} is {v} instead of an argument of {name}", where)
        # which field: by the names
        decls = [f] + [d for (q, t), ds in src.decls.items() if q == name for d in ds
                       if d is not f and strip_ns(d['type']['qualType']) == strip_ns(f['type']['qualType'])]
        for d in decls:
            dps = [p.get('name') or '' for p in kids(d) if p['kind'] == 'ParmVarDecl'][1:]
            idx = [i for i in path if i < len(dps) and dps[i]]
            for a in range(len(idx)):
                for b in range(a + 1, len(idx)):
                    i, j = idx[a], idx[b]
                    ci, cj = cl[i], cl[j]
                    if ci != cj:
                        continue
                    pi, pj = path[i][0], path[j][0]
                    own = sim(dps[i], pi) + sim(dps[j], pj)
                    other = sim(dps[i], pj) + sim(dps[j], pi)
                    ctx.ob('field', other <= own + 1e-9, f"{name}: {dps[i]}, {dps[j]}",
                           f"{name} stores the argument {dps[i]} in {'.'.join(map(str, pi))} and {dps[j]} in {'.'.join(map(str, pj))}",
                           rel(ctx, d.get('_at')))
        # one new entry; earlier ones untouched
        reps = [(k, v) for k, v in m.f.items() if isinstance(v, list)]
        ctx.ob('one-entry', sum(len(v) for _, v in reps) <= 1, name, f"{name} adds several entries", where)
        if reps:
            m2 = Msg(mq)
            e2 = Eval(src)
            keep = []
            for k, v in reps:
                old = Msg(v[0].qual if v and isinstance(v[0], Msg) else mq)
                keep.append((k, old))
                m2.f[k] = [old]
            try:
                e2.call(f, [Cell(m2)] + [Cell(v) for v in base])
                for k, old in keep:
                    ctx.ob('new-entry', not old.f and m2.f[k] and m2.f[k][0] is old and len(m2.f[k]) == 2, f"{name}: {k}",
                           f"{name} changes an entry that is already there, or adds none", where)
            except AnalysisBroken as x:
                ctx.fail('new-entry', name, str(x), where)
            entry = reps[0][1][0] if reps[0][1] else None
        else:
            entry = m
        # kind of the stack layer and its details
        if isinstance(entry, Msg) and isinstance(entry.f.get('layer_type'), str):
            lt = re.sub(r'^LAYER_TYPE_', '', entry.f['layer_type']).lower()
            subs = [k for k, v in entry.f.items() if isinstance(v, Msg)]
            ctx.ob('kind', subs == [lt + '_layer'], name, f"{name} marks the entry as {entry.f['layer_type']}, but fills in {subs}", where)
        elif isinstance(entry, Msg) and 'layer_type' in (ctx.prog.protos.messages.get(entry.qual) or {}):
            ctx.fail('kind', name, f"{name} does not set the kind of the entry", where)
        # what it returns is (part of) the new entry
        if isinstance(r, Msg):
            def parts(x):
                yield x
                for v in x.f.values():
                    if isinstance(v, Msg):
                        yield from parts(v)
            ctx.ob('result', isinstance(entry, Msg) and any(x is r for x in parts(entry)), name,
                   f"{name} does not return the entry that it added", where)
        # every representative of each argument arrives
        for i, p in enumerate(ps[1:]):
            if i not in path:
                continue
            c = cl[i]
            t = bare(p['type'].get('desugaredQualType') or p['type']['qualType'])
            if c == STR:
                probes = ['', 'A']
            elif c == NUM:
                if re.fullmatch(FLOAT_T, t):
                    probes = [0.0, -0.25, 0.0009765625, 123456.0]
                elif is_signed(p):
                    probes = [0, 1, 65535]
                else:
                    probes = [0, 1, 65535]
            else:
                probes = list(ctx.prog.protos.enums[c[1]])
            for v in probes:
                vals = list(base)
                vals[i] = v
                try:
                    mm, _ = run(src, f, mq, vals)
                except AnalysisBroken as x:
                    ctx.fail('value', f"{name}: {p.get('name')}", str(x), where)
                    break
                for k in path[i]:
                    got = at_path(mm, k)
                    if c == NUM and is_signed(p) and got is None:
                        ctx.fail('value', f"{name}: {p.get('name')}={v}", f"{name} drops {p.get('name')}={v}", where)
                        break
                    default = 0 if c == NUM else '' if c == STR else next((n for n, z in ctx.prog.protos.enums[c[1]].items() if z == 0), None)
                    if got is None:
                        got = default
                    if not ctx.ob('value', got == v, f"{name}: {p.get('name')}={v!r}", f"{name} stores {got!r} for {p.get('name')}={v!r}", where):
                        break
                # the other arguments are not affected
                bad = [ps[j + 1].get('name') for j in path if j != i for k in path[j] if at_path(mm, k) != base[j]]
                ctx.ob('independent', not bad, f"{name}: {p.get('name')}={v!r}", f"{name} drops {bad} for {p.get('name')}={v!r}", where)
        # -1: not available
        groups: Dict[tuple, List[int]] = {}
        for i, p in enumerate(ps[1:]):
            if i in path and cl[i] == NUM and is_signed(p):
                groups.setdefault(path[i][0][:-1], []).append(i)
        for parent, idx in groups.items():
            if len(parent) < 2:
                continue
            for gone in [idx] + ([[i] for i in idx] if len(idx) > 1 else []):
                vals = list(base)
                for i in gone:
                    vals[i] = -1
                names = ', '.join(str(ps[i + 1].get('name')) for i in gone)
                try:
                    mm, _ = run(src, f, mq, vals)
                except AnalysisBroken as x:
                    ctx.fail('absent', name, str(x), where)
                    break
                got = at_path(mm, parent)
                ctx.ob('absent', got is None, f"{name}: {'.'.join(map(str, parent))} without {names}",
                       f"{name} sets {parent[-1]} although {names} is -1 (not available)", where)
                bad = [ps[j + 1].get('name') for j in path if j not in idx for k in path[j] if at_path(mm, k) != base[j]]
                ctx.ob('independent', not bad, f"{name}: {parent[-1]} without {names}", f"{name} drops {bad} if {names} is -1 (not available)", where)
        # no conversion on the way loses values
        stack = [f]
        while stack:
            n = stack.pop()
            if n.get('kind') in ('ImplicitCastExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr'):
                ck, t = n.get('castKind'), bare(n['type'].get('desugaredQualType') or n['type']['qualType'])
                bad = ck == 'FloatingToIntegral' or ck == 'IntegralCast' and re.fullmatch(
                    r'(unsigned |signed )?(char|short)( int)?|u?int(_fast|_least)?(8|16)_t', t)
                if bad:
                    ctx.fail('narrow', f"{name}: {t}", f"{name} converts a value to {t}", rel(ctx, n.get('_at')))
            stack.extend(kids(n))
        for i, p in enumerate(ps[1:]):
            t = bare(p['type'].get('desugaredQualType') or p['type']['qualType'])
            if cl[i] == NUM and i in path:
                ctx.ob('narrow', not re.fullmatch(r'(unsigned |signed )?(char|short)( int)?|u?int(_fast|_least)?(8|16)_t', t),
                       f"{name}: {p.get('name')}", f"the parameter {p.get('name')} of {name} cannot represent the values of its field", where)
                fld = field_type(ctx, mq, path[i][0])
                if fld in ('double', 'float'):
                    ctx.ob('narrow', re.fullmatch(FLOAT_T, t), f"{name}: {p.get('name')} ({t})",
                           f"the parameter {p.get('name')} of {name} is a {t}, its field a {fld}", where)
    return


def field_type(ctx, mq, path):
    for p in path:
        if isinstance(p, int):
            continue
        spec = (ctx.prog.protos.messages.get(mq) or {}).get(p)
        if spec is None:
            return None
        t = spec[0]
        if t in ctx.prog.protos.messages:
            mq = t
        else:
            return t
    return None


# ---------------------------------------------------------------- the technology descriptions
def short(p):
    return re.sub(r'^[A-Z]+_', '', p or '') if isinstance(p, str) else p


class Tech:
    """a technology as the generator describes it"""

    def __init__(self, ctx, stem, msg):
        self.ctx, self.stem, self.msg = ctx, stem, msg
        self.name = re.sub(r'_tech.*', '', stem)
        self.layers = list(msg.f.get('layers', []))
        self.computed = list(msg.f.get('lvs_computed_layers', []))
        self.stack = list(msg.get('process_stack.layers') or [])
        self.canon = {l.get('name'): l for l in self.layers}
        self.comp = {c.get('layer_info.name'): c for c in self.computed}

    def t(self, m, k):
        return m.get(k)

    def purpose(self, name):
        if name in self.canon:
            return short(self.canon[name].get('purpose'))
        if name in self.comp:
            return short(self.comp[name].get('layer_info.purpose'))
        return None

    def canonical(self, name):
        """layout layer behind a layout or computed layer"""
        if name in self.canon:
            return name
        c = self.comp.get(name)
        if c is not None:
            o = c.get('original_layer_name')
            return o if o in self.canon else name
        return None

    def kind(self, c):
        return re.sub(r'^KIND_', '', c.get('kind') or 'KIND_UNSPECIFIED')

    def gds(self, m, field='drw_gds_pair'):
        g = m.get(field)
        return (g.get('layer', 0), g.get('datatype', 0)) if isinstance(g, Msg) else None

    def part(self, l):
        """the filled in details of an entry of the process stack"""
        ms = [(k, v) for k, v in l.f.items() if isinstance(v, Msg)]
        return ms[0] if ms else (None, None)

    def of_kind(self, kind):
        return [(l, l.f[kind]) for l in self.stack if isinstance(l.f.get(kind), Msg)]

    def contacts(self):
        """(stack layer, details, contact)"""
        for l in self.stack:
            k, d = self.part(l)
            if d is not None and isinstance(d.f.get('contact_above'), Msg):
                yield l, k, d, d.f['contact_above']

    def z_of(self, canonical):
        """(z, thickness) of a metal"""
        for l, m in self.of_kind('metal_layer'):
            if l.get('name') == canonical:
                return m.get('z', 0.0), m.get('thickness', 0.0)
        for l, m in self.of_kind('metal_layer'):
            if self.canonical(l.get('name')) == canonical:
                return m.get('z', 0.0), m.get('thickness', 0.0)
        return None

    def conductors(self):
        """layout metals from bottom to top"""
        ms = [n for n in self.canon if self.purpose(n) == 'METAL' and self.z_of(n) is not None]
        return sorted(ms, key=lambda n: self.z_of(n)[0])

    def wells(self):
        return [n for n in self.canon if self.purpose(n) in ('NWELL', 'PWELL')]

    def diffs(self):
        return [n for n in self.canon if self.purpose(n) == 'DIFF']

    def table(self, path):
        return list(self.msg.get('process_parasitics.' + path) or [])


def each_tech(ctx):
    _, _, techs = generator(ctx)
    ctx.need(techs, 'the generator writes no technology file')
    for stem, ws in sorted(techs.items()):
        yield Tech(ctx, stem, ws[-1][0])


PURPOSES = {'METAL': {'METAL'}, 'MIM_CAP': {'MIM_CAP', 'METAL'}, 'NTAP': {'NTAP_OR_PTAP', 'DIFF', 'NTAP'},
            'PTAP': {'NTAP_OR_PTAP', 'DIFF', 'PTAP'}}
IMPLICIT = 'pwell'         # the p-well that a process without a drawn p-well has


def full(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


@check('C19', 'constants propagated through the table builders of the generator (clang syntax tree); cross-reference of all names and keys',
       'Every PDK that the generator writes; every layer, contact and dielectric named by another entry, every key of a lookup.')
def c19(ctx: Ctx):
    for t in each_tech(ctx):
        n = t.name
        L = lambda m, f=None: loc_of(ctx, m, f)

        def uniq(rule, items, what):
            seen = {}
            for k, m in items:
                if k is None:
                    continue
                ctx.ob(rule, k not in seen, f"{n}: {what} {k}", f"{n}: {what} {k} is declared twice", L(m))
                seen[k] = m
        for l in t.layers:
            ctx.ob('declared', isinstance(l.get('name'), str) and l.get('name') and t.gds(l) is not None,
                   f"{n}: layer {l.get('name')}", f"{n}: a layer without name or GDS layer", L(l))
        for c in t.computed:
            ctx.ob('declared', c.get('layer_info.name') and t.gds(c, 'layer_info.drw_gds_pair') is not None,
                   f"{n}: computed layer {c.get('layer_info.name')}", f"{n}: a computed layer without name or GDS layer", L(c))
        uniq('unique', [(l.get('name'), l) for l in t.layers], 'layer')
        uniq('unique', [(c.get('layer_info.name'), c) for c in t.computed], 'computed layer')
        uniq('unique-gds', [(t.gds(l, f), l) for l in t.layers for f in ('drw_gds_pair', 'pin_gds_pair', 'label_gds_pair')], 'GDS layer')
        # computed layers
        pairs = {}
        drawn = {t.gds(l): l for l in t.layers}
        for c in t.computed:
            nm, o, k, p = c.get('layer_info.name'), c.get('original_layer_name') or '', t.kind(c), short(c.get('layer_info.purpose'))
            g = t.gds(c, 'layer_info.drw_gds_pair')
            who = f"{n}: computed layer {nm}"
            if nm in t.canon:
                ctx.ob('same-layer', t.gds(t.canon[nm]) == g, who, f"{who} is {g}, the layout layer of this name {t.gds(t.canon[nm])}", L(c))
            if g in pairs:
                a = pairs[g]
                ctx.ob('ambiguous', (t.kind(a), a.get('layer_info.purpose'), a.get('original_layer_name')) == (t.kind(c), c.get('layer_info.purpose'), o),
                       who, f"{who} and {a.get('layer_info.name')} have the same GDS layer {g}, but disagree otherwise", L(c))
            pairs[g] = c
            if k in ('PIN', 'LABEL'):
                b, dot, sfx = o.rpartition('.')
                fld, ok = ('pin_gds_pair', {'pin'}) if k == 'PIN' else ('label_gds_pair', {'label', 'text', 'lbl', 'txt'})
                if ctx.ob('original', b in t.canon and sfx in ok, who, f"{who} ({k.lower()}) comes from {o}, which is no {k.lower()} layer of a layout layer", L(c)):
                    ctx.ob('pin-layer', t.gds(t.canon[b], fld) == g, who,
                           f"{who} has the GDS layer {g}, but {k.lower()}s of {b} are on {t.gds(t.canon[b], fld)}", L(c))
                    ctx.ob('purpose', p == t.purpose(b), who, f"{who} has the purpose {p}, {b} has {t.purpose(b)}", L(c))
            else:
                ctx.ob('kind', k != 'UNSPECIFIED', who, f"{who} has no kind", L(c))
                if ctx.ob('original', o in t.canon, who, f"{who} comes from {o}, which is no layout layer", L(c)):
                    ok = PURPOSES.get(p, {p})
                    ctx.ob('purpose', t.purpose(o) in ok, who, f"{who} has the purpose {p}, but comes from {o} ({t.purpose(o)})", L(c))
                    if g in drawn:
                        ctx.ob('drawn', drawn[g].get('name') == o, who,
                               f"{who} has the GDS layer of {drawn[g].get('name')}, but comes from {o}", L(c))
        # process stack
        DIEL = ('simple_dielectric_layer', 'conformal_dielectric_layer', 'sidewall_dielectric_layer')
        ROLE = {'nwell_layer': {'NWELL', 'NTAP'}, 'diffusion_layer': {'N_IMPLANT', 'P_IMPLANT', 'DIFF', 'NTAP', 'PTAP'}, 'metal_layer': {'METAL', 'MIM_CAP'}}
        seen = {}
        for l in t.stack:
            nm = l.get('name')
            k, d = t.part(l)
            who = f"{n}: stack layer {nm}"
            if not ctx.ob('details', d is not None, who, f"{who} has no details", L(l)):
                continue
            if k in ROLE:
                ctx.ob('stack-name', t.purpose(nm) in ROLE[k], who,
                       f"{who} ({k}) is not declared" if t.purpose(nm) is None else f"{who} ({k}) is declared as {t.purpose(nm)}", L(l))
                if k == 'metal_layer' and nm in t.comp:
                    ctx.ob('stack-name', t.kind(t.comp[nm]) not in ('PIN', 'LABEL'), who, f"{who} is a pin or label layer", L(l))
            if nm in seen:
                a = seen[nm]
                ka, da = t.part(a)
                ctx.ob('redeclared', k in DIEL and ka == k and da.get('dielectric_k') == d.get('dielectric_k'), who,
                       f"{who} is declared twice, with different contents", L(l))
            seen.setdefault(nm, l)
        for nm in t.conductors():
            at = [l for l, _ in t.of_kind('metal_layer') if t.canonical(l.get('name')) == nm]
            ctx.ob('in-stack', at, f"{n}: {nm}", f"{n}: {nm} is missing in the process stack")
        for nm in t.canon:
            if t.purpose(nm) == 'METAL':
                ctx.ob('in-stack', t.z_of(nm) is not None, f"{n}: {nm}", f"{n}: the metal {nm} is missing in the process stack", L(t.canon[nm]))
        for l in t.stack:
            k, d = t.part(l)
            if d is None or 'reference' not in (ctx.prog.protos.messages.get(d.qual) or {}):
                continue
            ref = d.get('reference')
            who = f"{n}: stack layer {l.get('name')}"
            if not ctx.ob('reference', ref in seen and ref != l.get('name'), who, f"{who} refers to {ref}, which is not in the process stack", L(d, 'reference')):
                continue
            kr = t.part(seen[ref])[0]
            ok = {'sidewall_dielectric_layer': DIEL[1:] + ('metal_layer',), 'conformal_dielectric_layer': DIEL[1:] + ('metal_layer',)}.get(
                k, DIEL + ('field_oxide_layer',))
            ctx.ob('reference', kr in ok, who, f"{who} refers to {ref}, a {kr}", L(d, 'reference'))
        for l in t.stack:
            nm, hops = l.get('name'), 0
            x = seen.get(nm)
            while x is not None and hops <= len(t.stack):
                d = t.part(x)[1]
                x = seen.get(d.get('reference')) if d is not None else None
                hops += 1
            ctx.ob('reference', hops <= len(t.stack), f"{n}: stack layer {nm}", f"{n}: the references of {nm} never end", L(l))
        # contacts
        names = {}
        for l, k, d, co in t.contacts():
            if k == 'nwell_layer' and not co.get('name'):
                continue
            nm = co.get('name')
            who = f"{n}: contact {nm} of {l.get('name')}"
            if nm is not None:
                ctx.ob('contact-name', nm not in names, who, f"{n}: the contact {nm} is used for {names.get(nm)} and {l.get('name')}", L(co))
                names[nm] = l.get('name')
            c = t.comp.get(nm)
            want = {'VIA'} if k == 'metal_layer' else {'CONTACT'}
            if k == 'metal_layer' and t.conductors()[:1] == [t.canonical(l.get('name'))]:
                want = {'CONTACT', 'VIA'}
            ctx.ob('contact', c is not None and t.kind(c) not in ('PIN', 'LABEL') and short(c.get('layer_info.purpose')) in want, who,
                   f"{who} is not declared as computed layer" if c is None else f"{who} is declared as {short(c.get('layer_info.purpose'))}", L(co, 'name'))
            if c is not None and k == 'metal_layer':
                mk = t.kind(t.comp[l.get('name')]) if l.get('name') in t.comp and l.get('name') not in t.canon else \
                    'DEVICE_CAPACITOR' if t.purpose(l.get('name')) == 'MIM_CAP' else 'REGULAR'
                ctx.ob('contact-kind', t.kind(c) == mk, who, f"{who} is of the kind {t.kind(c)}, its layer of the kind {mk}", L(co, 'name'))
            below, above = co.get('layer_below'), co.get('metal_above')
            if ctx.ob('contact-below', t.canonical(below) is not None, who, f"{who} connects to {below}, which is not declared", L(co, 'layer_below')):
                same = t.canonical(below) == t.canonical(l.get('name')) or \
                    t.purpose(l.get('name')) == 'MIM_CAP' and t.purpose(t.canonical(below)) in ('MIM_CAP', 'METAL')
                ctx.ob('contact-below', same, who, f"{who} says that it is above {below}", L(co, 'layer_below'))
            if ctx.ob('contact-above', t.canonical(above) is not None, who, f"{who} connects to {above}, which is not declared", L(co, 'metal_above')):
                up = t.conductors()
                me = t.canonical(l.get('name'))
                if me in up:
                    nxt = up[up.index(me) + 1:up.index(me) + 2]
                elif k == 'metal_layer':
                    z = d.get('z', 0.0)
                    nxt = [x for x in up if t.z_of(x)[0] > z][:1]
                else:
                    # diffusions are contacted from the first metal above the gate
                    nxt = up[1:2]
                ctx.ob('contact-above', t.canonical(above) in nxt, who, f"{who} goes up to {above}, the next metal is {nxt}", L(co, 'metal_above'))
        tops = t.conductors()[-1:]
        for l, m in t.of_kind('metal_layer'):
            if t.purpose(l.get('name')) == 'METAL' and t.canonical(l.get('name')) not in tops and \
                    (l.get('name') in t.canon or t.kind(t.comp[l.get('name')]) == 'REGULAR' if l.get('name') in t.canon or l.get('name') in t.comp else False):
                ctx.ob('contacted', isinstance(m.f.get('contact_above'), Msg), f"{n}: {l.get('name')}", f"{n}: no contact above {l.get('name')}", L(l))
        for l, m in t.of_kind('diffusion_layer'):
            ctx.ob('contacted', isinstance(m.f.get('contact_above'), Msg), f"{n}: {l.get('name')}", f"{n}: no contact above {l.get('name')}", L(l))
        # parasitics: names are those of layout layers
        def named(path, field, purposes, extra=()):
            for m in t.table(path):
                v = m.get(field)
                ctx.ob('table-name', v in extra or t.purpose(v) in purposes and v in t.canon, f"{n}: {path} {field} {v}",
                       f"{n}: {path}: {field} is {v}, which is " + ('not declared' if t.purpose(v) is None else 'no layout layer' if v not in t.canon else f"a {t.purpose(v)}"), L(m, field))
        GROUND = {'METAL', 'NWELL', 'PWELL', 'DNWELL', 'DIFF'}
        named('resistance.layers', 'layer_name', {'METAL'})
        named('resistance.vias', 'via_name', {'VIA', 'METAL', 'CONTACT'})
        named('capacitance.substrates', 'layer_name', {'METAL', 'DNWELL'})
        named('capacitance.sidewalls', 'layer_name', {'METAL'})
        named('capacitance.overlaps', 'top_layer_name', GROUND, (IMPLICIT,))
        named('capacitance.overlaps', 'bottom_layer_name', GROUND, (IMPLICIT,))
        named('capacitance.sideoverlaps', 'in_layer_name', {'METAL'})
        named('capacitance.sideoverlaps', 'out_layer_name', GROUND, (IMPLICIT,))
        for m in t.table('resistance.contacts'):
            cn, dn, an = m.get('contact_name'), m.get('device_layer_name'), m.get('layer_above')
            who = f"{n}: contact resistance {cn}"
            ctx.ob('table-name', cn in t.comp and t.purpose(cn) == 'CONTACT', who, f"{who}: no computed contact layer", L(m))
            ctx.ob('table-name', t.canonical(dn) is not None, who, f"{who}: {dn} is not declared", L(m))
            ctx.ob('table-name', t.canonical(an) is not None and t.purpose(t.canonical(an)) == 'METAL', who, f"{who}: {an} is no metal", L(m))


def close(a, b, tol=1e-6):
    return full(a) and full(b) and abs(a - b) <= tol * max(abs(a), abs(b))


@check('C20', 'constants propagated through the table builders of the generator (clang syntax tree); completeness, agreement and order of the entries',
       'Every PDK that the generator writes, every conductor, pair of conductors, via and contact. Coefficients are judged against each other, not against foundry data.')
def c20(ctx: Ctx):
    for t in each_tech(ctx):
        n = t.name
        up = t.conductors()
        ctx.need(len(up) >= 2, f"{n}: no conductors")
        wells = t.wells() + [x for x in (IMPLICIT,) if not any(t.purpose(w) == 'PWELL' for w in t.wells())]
        diffs = t.diffs()
        top_loc = rel(ctx, t.msg.at)

        def index(path, key, value, positive=True):
            d: Dict[tuple, Msg] = {}
            for m in t.table(path):
                k = tuple(m.get(x) for x in key)
                who = f"{n}: {path} {'/'.join(map(str, k))}"
                for v in value:
                    x = m.get(v, 0.0)
                    ctx.ob('positive', full(x) and x > 0, who, f"{who}: {v} is {x}", loc_of(ctx, m, v))
                if k in d:
                    ctx.ob('agree', all(close(d[k].get(v, 0.0), m.get(v, 0.0), 0.03) for v in value), who,
                           f"{who} is given twice, with {[d[k].get(v) for v in value]} and {[m.get(v) for v in value]}", loc_of(ctx, m))
                d[k] = m
            return d
        lr = index('resistance.layers', ('layer_name',), ('resistance',))
        cr = index('resistance.contacts', ('device_layer_name',), ('resistance',))
        vr = index('resistance.vias', ('via_name',), ('resistance',))
        sub = index('capacitance.substrates', ('layer_name',), ('area_capacitance', 'perimeter_capacitance'))
        ov = index('capacitance.overlaps', ('top_layer_name', 'bottom_layer_name'), ('capacitance',))
        sw = index('capacitance.sidewalls', ('layer_name',), ('capacitance',))
        so = index('capacitance.sideoverlaps', ('in_layer_name', 'out_layer_name'), ('capacitance',))

        def have(tab, key, what):
            return ctx.ob('complete', key in tab, f"{n}: {what} {'/'.join(key)}", f"{n}: no {what} for {'/'.join(key)}", top_loc)
        for a in up:
            have(lr, (a,), 'sheet resistance')
            have(sub, (a,), 'substrate capacitance')
            have(sw, (a,), 'sidewall capacitance')
            for w in wells:
                if have(ov, (a, w), 'overlap capacitance') and (a,) in sub:
                    ctx.ob('well', close(ov[(a, w)].get('capacitance'), sub[(a,)].get('area_capacitance')), f"{n}: {a}/{w}",
                           f"{n}: overlap of {a} with {w} is {ov[(a, w)].get('capacitance')}, its area capacitance to the substrate {sub[(a,)].get('area_capacitance')}",
                           loc_of(ctx, ov[(a, w)], 'capacitance'))
                if have(so, (a, w), 'fringe capacitance') and (a,) in sub:
                    ctx.ob('well', close(so[(a, w)].get('capacitance'), sub[(a,)].get('perimeter_capacitance')), f"{n}: {a}/{w} fringe",
                           f"{n}: fringe of {a} to {w} is {so[(a, w)].get('capacitance')}, its perimeter capacitance to the substrate {sub[(a,)].get('perimeter_capacitance')}",
                           loc_of(ctx, so[(a, w)], 'capacitance'))
            for x in diffs:
                if a != up[0]:
                    have(ov, (a, x), 'overlap capacitance')
                    have(so, (a, x), 'fringe capacitance')
        for i, a in enumerate(up):
            for b in up[:i]:
                have(ov, (a, b), 'overlap capacitance')
                have(so, (a, b), 'fringe capacitance')
                have(so, (b, a), 'fringe capacitance')
        for (a, b), m in ov.items():
            if a in up and b in up:
                ctx.ob('orientation', up.index(a) > up.index(b), f"{n}: {a}/{b}", f"{n}: overlap entry {a}/{b}: {a} is not above {b}", loc_of(ctx, m))
        for v in t.canon:
            if t.purpose(v) == 'VIA':
                have(vr, (v,), 'via resistance')
        for l, k, d, co in t.contacts():
            c = t.comp.get(co.get('name'))
            if c is None or short(c.get('layer_info.purpose')) != 'CONTACT':
                continue
            key = (co.get('layer_below'),)
            who = f"{n}: contact {co.get('name')}"
            if have(cr, key, 'contact resistance'):
                m = cr[key]
                ctx.ob('contact', m.get('contact_name') == co.get('name') and t.canonical(m.get('layer_above')) == t.canonical(co.get('metal_above')), who,
                       f"{who}: the contact resistance for {key[0]} is that of {m.get('contact_name')} to {m.get('layer_above')}", loc_of(ctx, m))
        # nearer plates couple more
        below = lambda a: [w for w in wells[:1]] + [x for x in diffs if a != up[0]] + up[:up.index(a)]
        for a in up:
            seq = [(b, ov[(a, b)]) for b in below(a) if (a, b) in ov]
            for (b, m), (c, mm) in zip(seq, seq[1:]):
                ctx.ob('nearer', m.get('capacitance', 0) < mm.get('capacitance', 0), f"{n}: {a}: {b}, {c}",
                       f"{n}: {a} has {m.get('capacitance')} to {b}, but {mm.get('capacitance')} to {c} above it", loc_of(ctx, mm, 'capacitance'))
            seq = [(b, so[(a, b)]) for b in below(a) if (a, b) in so]
            for (b, m), (c, mm) in zip(seq, seq[1:]):
                ctx.ob('nearer', m.get('capacitance', 0) < mm.get('capacitance', 0) * 1.03, f"{n}: fringe of {a}: {b}, {c}",
                       f"{n}: fringe of {a}: {m.get('capacitance')} to {b}, but {mm.get('capacitance')} to {c} above it", loc_of(ctx, mm, 'capacitance'))
            seq = [(b, so[(a, b)]) for b in up[up.index(a) + 1:] if (a, b) in so]
            for (b, m), (c, mm) in zip(seq, seq[1:]):
                ctx.ob('nearer', m.get('capacitance', 0) * 1.03 > mm.get('capacitance', 0), f"{n}: fringe of {a} upwards: {b}, {c}",
                       f"{n}: fringe of {a}: {m.get('capacitance')} to {b}, but {mm.get('capacitance')} to {c} above it", loc_of(ctx, mm, 'capacitance'))
            # several layers cover the same plate: further up is further away
        for b in wells + diffs + up:
            seq = [(a, ov[(a, b)]) for a in up if (a, b) in ov]
            for (a, m), (c, mm) in zip(seq, seq[1:]):
                ctx.ob('nearer', m.get('capacitance', 0) > mm.get('capacitance', 0), f"{n}: over {b}: {a}, {c}",
                       f"{n}: {b} has {m.get('capacitance')} to {a}, but {mm.get('capacitance')} to {c} above it", loc_of(ctx, mm, 'capacitance'))
