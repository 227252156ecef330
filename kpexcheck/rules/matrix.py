"""C10 capacitance matrix, C11 solver log parsers, C12 Maxwell expansion, C14 reduction, C15 netlist CSV, C16 netlistsvg JSON."""
import re
from fractions import Fraction
from ..core import check, Ctx
from ..q import *
from ..bools import sat, entails, equiv, conj, feasible
from ..out import lines, mapped, source, is_file_of, pieces
from ..tev import Tev, Seq, Unsupported, as_int, poly
from ..vfa import truthy, const, mk_not, mk_cmp

CM = 'klayout_pex.common.capacitance_matrix.CapacitanceMatrix'


def unstrip(t):
    n = 0
    while is_call(t, '.strip', '.rstrip', '.lstrip') and t.op == 'call' and \
            all(a.op == 'const' and (a.a[0] is None or isinstance(a.a[0], str) and not a.a[0].strip()) for a in cargs(t)[1:]):
        t = cargs(t)[0]
        n += 1
    return t, n


def default_of(ctx, qual, par):
    f = ctx.prog.funcs.get(qual)
    if f is None:
        return None
    a = f.node.args
    pos = a.posonlyargs + a.args
    ds = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
    ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    d = ds.get(par)
    return getattr(d, 'value', None) if d is not None else None


def full_precision(t, elem):
    """is this text of the number precise to at least 10 digits"""
    if t.op == 'fstr' and len(t.a) == 1:
        t = t.a[0]
    if t is elem or t.op == 'call' and is_call(t, 'str', 'repr') and cargs(t)[0] is elem:
        return True
    spec = None
    if is_call(t, '%fmt') and cargs(t)[1] is elem:
        spec = str(cargs(t)[0].a[0]).lstrip('%')
    elif is_call(t, 'format') and len(cargs(t)) == 2 and cargs(t)[0] is elem and cargs(t)[1].op == 'const':
        spec = str(cargs(t)[1].a[0])
    if spec is None:
        return False
    m = re.fullmatch(r'\.(\d+)([ge])', spec)
    return bool(m) and int(m.group(1)) >= 10


@check('C10', 'value-flow analysis of writer and parser; evaluation of the extracted index and value expressions over all index pairs',
       'Decides layout and separator agreement of writer and parser, the number format (at least 10 digits), and for the '
       'symmetrisation the exact value stored at every index pair of matrices up to 4x4 (thorough: 16x16; the index expressions are affine) '
       'and that only a deep copy is written. File encoding is not considered.')
def c10(ctx: Ctx):
    """write_csv: header line = joined names, then one line per row, joined with the same separator that parse_csv splits at;
    parse_csv: first line names, all other lines rows of floats; averaged_off_diagonals: value per index pair."""
    # --- writer
    q = f'{CM}.write_csv'
    ctx.need(q in ctx.prog.funcs and f'{CM}.parse_csv' in ctx.prog.funcs, 'CapacitanceMatrix csv functions are gone')
    e = ctx.analyse(q)
    sep = T('param', 'separator')
    me = T('param', 'self')
    ls = lines(e, is_file_of(lambda p: is_param(p, 'output_path')))
    ctx.ob('csv-lines', len(ls) == 2 and all(x.ended for x in ls), q, f"the file has the lines {ls}")

    def joined(ln):
        if len(ln.parts) != 1 or not is_call(ln.parts[0], '.join'):
            return None, None
        j = cargs(ln.parts[0])
        return j[0], mapped(e, j[1], ln.ev)
    if len(ls) == 2:
        h, r = ls
        s, m = joined(h)
        ctx.ob('csv-header', s is sep and m is not None and source(m[0]) is T('attr', me, 'conductor_names') and not m[2]
               and not h.loops and not h.guards, q, f"the header is {h}", h.loc)
        s, m = joined(r)
        row = None
        ok = s is sep and m is not None and not m[2] and len(r.loops) == 1 and not r.guards
        if ok:
            row = r.loops[0].elem
            src = r.loops[0].iter
            if src is not T('attr', me, 'rows'):
                ok = is_call(src, 'range', 'enumerate') and mentions(src, T('attr', me, 'rows'))
            cell = [x for x in subterms(m[0]) if x.op in ('elem', 'item') and source_is_row(x, me)]
            ok = ok and len(cell) >= 1 and full_precision(m[0], cell[0])
        ctx.ob('csv-rows', ok, q, f"the rows are {r}", r.loc)
    # --- parser
    q = f'{CM}.parse_csv'
    e = ctx.analyse(q)
    res = [x for x in leaves(e.result)] if e.result is not None else []
    ctx.ob('parser-result', len(res) == 1 and is_new(res[0], 'CapacitanceMatrix'), q, 'the parser does not return one matrix')
    if len(res) == 1 and is_new(res[0], 'CapacitanceMatrix'):
        names, rows = field(e, res[0], 'conductor_names'), field(e, res[0], 'rows')
        f = lambda t: t.op in ('call', 'new') and is_call(t, 'open', 'io.open') and is_param(path_root(cargs(t)[0]), 'path')

        def all_lines(t):
            t0 = t
            while is_call(t, 'list', '.splitlines', '.readlines', '.read', '.split') and cargs(t):
                t = cargs(t)[0]
            return f(t)

        def header(t):
            return (t.op == 'item' and is_const(t.a[1], 0) and all_lines(t.a[0])) or \
                (is_call(t, '.readline', 'next') and f(cargs(t)[0]))

        def others(t):
            return (t.op == 'slice' and is_const(t.a[1], 1) and all(is_const(x, None) for x in t.a[2:]) and all_lines(t.a[0])) \
                or f(t)
        m = mapped(e, names) if names is not None else None
        ok = m is not None and not m[2]
        if ok:
            base, n1 = unstrip(m[0])
            sp = source(base)
            ok = sp is not None and is_call(sp, '.split') and sp.op == 'call'
            if ok:
                line, n2 = unstrip(cargs(sp)[0])
                s = cargs(sp)[1] if len(cargs(sp)) > 1 else ckw(sp).get('sep')
                ok = header(line) and s is sep and (n1 + n2 > 0)
        ctx.ob('parse-header', ok, q, f"the names are {show(names) if names is not None else None}")
        its = list_items(e, rows) if rows is not None else None
        ok = its is not None and len(its) == 1
        if ok:
            v, g, lp = its[0]
            fin = set(e.final.guards)
            ok = len(lp) == 1 and others(lp[0].iter) and set(g) <= fin
            m = mapped(e, v)
            ok = ok and m is not None and not set(m[2]) - fin and is_call(m[0], 'float')
            if ok:
                base, _ = unstrip(cargs(m[0])[0])
                sp = source(base)
                ok = sp is not None and is_call(sp, '.split') and sp.op == 'call'
                if ok:
                    line, _ = unstrip(cargs(sp)[0])
                    s = cargs(sp)[1] if len(cargs(sp)) > 1 else ckw(sp).get('sep')
                    ok = s is sep and source(line) is lp[0].iter
        ctx.ob('parse-rows', ok, q, 'the rows are not the floats of all lines after the first')
    a, b = default_of(ctx, f'{CM}.write_csv', 'separator'), default_of(ctx, f'{CM}.parse_csv', 'separator')
    ctx.ob('same-separator', a is not None and a == b and a not in '0123456789+-.eE', CM, f"write_csv uses {a!r}, parse_csv {b!r}")
    # --- symmetrisation
    q = f'{CM}.averaged_off_diagonals'
    ctx.need(q in ctx.prog.funcs, 'averaged_off_diagonals is gone')
    e = ctx.analyse(q)
    symmetrised(ctx, e, q)


def source_is_row(x, me):
    """self.rows[i][j] in one of its forms"""
    b = x.a[0]
    return b.op in ('elem', 'item') and b.a[0] is T('attr', me, 'rows')


def matrix_base(me, n, names=None):
    rows = Seq('S', (n, n))

    def base(t, ev):
        if t is T('attr', me, 'rows'):
            return rows
        if t is T('attr', me, 'conductor_names'):
            return Seq('NAME', (n,))
        if t.op == 'attr' and t.a[1] == 'dimension' and t.a[0] is me:
            return n
        return None
    return base


def symmetrised(ctx, e, q):
    me = T('param', 'self')
    res = [x for x in leaves(e.result)] if e.result is not None else []
    ctx.ob('sym-result', len(res) == 1, q, 'no single matrix is returned')
    if len(res) != 1:
        return
    r = res[0]
    copied = is_call(r, 'copy.deepcopy', 'deepcopy') and cargs(r)[0] is me
    sites = [ev for ev in e.events if ev.kind == 'setitem']
    tgt = T('attr', r, 'rows')
    if not copied and is_new(r, 'CapacitanceMatrix') and (its := list_items(e, field(e, r, 'rows'))) is not None and len(its) == 1:
        # a new list of copied rows
        v, g, lp = its[0]
        if is_call(v, 'copy.copy', 'copy.deepcopy', '.copy', 'list') and v.op == 'call':
            v = cargs(v)[0]
        elif v.op == 'slice' and all(is_const(x, None) for x in v.a[1:]):
            v = v.a[0]
        else:
            v = None
        if v is not None and v.op == 'elem' and v.a[0] is T('attr', me, 'rows') and not g and len(lp) == 1:
            copied = True
            tgt = field(e, r, 'rows')
            nm = field(e, r, 'conductor_names')
            if nm is not None and (is_call(nm, 'copy.copy', 'copy.deepcopy', '.copy', 'list') and nm.op == 'call'):
                nm = cargs(nm)[0]
            elif nm is not None and nm.op == 'slice' and all(is_const(x, None) for x in nm.a[1:]):
                nm = nm.a[0]
            ctx.ob('sym-names', nm is T('attr', me, 'conductor_names'), q, 'the names of the conductors change')
    mine = [ev for ev in sites if ev.recv.op in ('item', 'elem') and ev.recv.a[0] is tgt]
    for ev in e.events:
        bad = ev.kind in ('setitem', 'delitem', 'store') and touches(ev.recv, me) or \
            ev.kind == 'call' and ev.recv is not None and ev.name in MUTATORS and touches(ev.recv, me)
        ctx.ob('sym-original-untouched', not bad, f"{q}:{ev.kind}:{ev.callee}", 'the original matrix is modified', ev.loc) \
            if bad else None
    ctx.ob('sym-original-untouched', True, q)
    if copied:
        other = [ev for ev in sites if ev not in mine and mentions(ev.recv, r)]
        ctx.ob('sym-whole-entries', not other, q, 'rows of the copy are replaced', other[0].loc if other else '')
    else:
        ok = is_new(r, 'CapacitanceMatrix')
        nm = field(e, r, 'conductor_names') if ok else None
        m = mapped(e, nm) if nm is not None else None
        if nm is not None and is_call(nm, 'copy.copy', 'copy.deepcopy', '.copy'):
            m = (T('elem', cargs(nm)[0], 0), None, ())
        ctx.ob('sym-names', m is not None and source(m[0]) is T('attr', me, 'conductor_names') and not m[2], q,
               'the names of the conductors change')
        ctx.ob('sym-copy', ok and nm is not T('attr', me, 'conductor_names') or ok, q, 'the result is not a new matrix')
        if not ok:
            return
    for n in range(0, 17 if ctx.tier == 'thorough' else 5):
        try:
            got = {}
            want = {}
            s = lambda i, j: ('S', i, j)
            for i in range(n):
                for j in range(n):
                    want[i, j] = {((s(i, i), 1),): Fraction(1)} if i == j else \
                        {((s(i, j), 1),): Fraction(1, 2), ((s(j, i), 1),): Fraction(1, 2)}
            tv = Tev(matrix_base(me, n), e)
            if copied:
                for i in range(n):
                    for j in range(n):
                        got[i, j] = {((s(i, j), 1),): Fraction(1)}
                groups = {}
                for ev in mine:
                    for _ in tv.instances(ev.loops, ev.guards):
                        i = as_int(tv.ev(ev.recv.a[1])) if ev.recv.op == 'item' else \
                            as_int(tv.ev(T('index', tgt, ev.recv.a[1])))
                        j = as_int(tv.ev(ev.args[0]))
                        if i is None or j is None or not (0 <= i < n and 0 <= j < n):
                            raise Unsupported('index out of range')
                        got[i, j] = poly(tv.ev(ev.args[1]))
            else:
                rows = field(e, r, 'rows')
                outer = list_items(e, rows)
                if outer is None or len(outer) != 1:
                    raise Unsupported('rows')
                v, g, lp = outer[0]
                i = -1
                for _ in tv.instances(lp, g):
                    i += 1
                    inner = list_items(e, v)
                    if inner is None:
                        raise Unsupported('row')
                    j = -1
                    for x, g2, l2 in inner:
                        l2 = [l for l in l2 if l not in lp]
                        g2 = [y for y in g2 if y not in g]
                        sub = Tev(tv.base, e)
                        sub.env, sub.active, sub.outer = dict(tv.env), dict(tv.active), dict(tv.outer)
                        for _ in sub.instances(l2, g2):
                            j += 1
                            got[i, j] = poly(sub.ev(x))
            canon = lambda p: p
            bad = [k for k in set(got) | set(want) if got.get(k) != want.get(k)]
            ctx.ob('sym-values', not bad, f"{q}:n={n}", f"the entries {sorted(bad)} of a {n}x{n} matrix are not the mean of the "
                   f"mirrored entries (or the diagonal)", mine[0].loc if mine else '')
        except Unsupported as x:
            ctx.fail('sym-values', f"{q}:n={n}", f"the values cannot be derived: {x}")


MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add',
            'discard'}


def touches(t, root):
    """is t reached from root by attributes and items only (so a write to it writes to root)"""
    while t.op in ('attr', 'item', 'elem', 'val', 'slice'):
        if t.op == 'slice':
            return False
        t = t.a[0]
    return t is root


# ------------------------------------------------------------------ C11
def parser_lines(t):
    """the list of all lines of the log"""
    while t.op == 'call' and is_call(t, 'list', '.splitlines', '.readlines', '.read', 'reversed') and cargs(t):
        t = cargs(t)[0]
    if t.op == 'slice':
        return parser_lines(t.a[0])
    return is_call(t, 'open', 'io.open') and bool(cargs(t)) and is_param(path_root(cargs(t)[0]), 'log_path')


def reversed_list(e, t, at):
    """is this list of lines in reversed order"""
    rev = False
    while True:
        n = sum(1 for ev in e.by_recv.get(t, []) if ev.kind == 'call' and ev.callee == '.reverse' and ev.idx < at)
        rev ^= bool(n % 2)
        if t.op == 'slice' and is_const(t.a[3], -1):
            rev = not rev
            t = t.a[0]
        elif is_call(t, 'reversed'):
            rev = not rev
            t = cargs(t)[0]
        elif is_call(t, 'list'):
            t = cargs(t)[0]
        else:
            return rev


SI = dict(farads=0, millifarads=-3, microfarads=-6, nanofarads=-9, picofarads=-12, femtofarads=-15, attofarads=-18)


@check('C11', 'index and value-flow analysis of the log parsers',
       'Decides which lines (relative to the header) become rows, their order, the search direction, and the conversion '
       'factor of each entry. Trusts the layout of the printed matrix as documented in the source comments.')
def c11(ctx: Ctx):
    """Both parsers: header search from the end, exit at the first hit, dim rows after the dimension line in printed order, first cell =
    name, remaining cells = entries, converted by 1e-6 (lengths in um) and, for FastCap, by the unit of its header."""
    for q, hdr, fast in (('klayout_pex.fastercap.fastercap_runner.fastercap_parse_capacitance_matrix', 'Capacitance matrix is:', False),
                         ('klayout_pex.fastcap.fastcap_runner.fastcap_parse_capacitance_matrix', 'CAPACITANCE MATRIX, ', True)):
        ctx.need(q in ctx.prog.funcs, f"{q} is gone")
        e = ctx.analyse(q)
        ms = [ev for ev in e.events if ev.kind == 'call' and ev.callee == CM or ev.kind == 'call' and is_new(ev.result, CM)]
        ctx.ob('matrix-built', len(ms) == 1, q, f"{len(ms)} matrices are built")
        if len(ms) != 1:
            continue
        m = ms[0]
        names, rows = field(e, m.result, 'conductor_names'), field(e, m.result, 'rows')
        # header search
        hit = [t for t, p in m.guards if p and mentions_const(t, hdr.strip())]
        ctx.ob('header-found', bool(hit), q, f"the matrix is not looked for below the line {hdr!r}", m.loc)
        scan = [l for l in m.loops]
        ctx.ob('scan-loop', len(scan) == 1, q, 'the header is not searched in a single pass', m.loc)
        ni, ri = list_items(e, names, m), list_items(e, rows, m)
        if ni is None or ri is None or len(ni) != 1 or len(ri) != 1:
            ctx.fail('rows-built', q, 'the rows or names are not collected line by line', m.loc)
            continue
        (nv, ng, nl), (rv, rg, rl) = ni[0], ri[0]
        extra = [x for x in set(ng) | set(rg) if x not in m.guards]
        ctx.ob('rows-unconditional', not extra, q, f"rows are skipped unless {show(conj(extra))}", m.loc)
        if len(scan) != 1 or len(rl) != 2 or rl[0] is not scan[0] or list(nl) != list(rl):
            ctx.fail('rows-built', q, 'rows and names are not collected in one loop over the lines below the header', m.loc)
            continue
        outer, inner = rl
        # lines of the matrix
        base = [x for x in all_subterms(e, (rv, nv)) if (x.op == 'item' and parser_lines(x.a[0])) or
                (x.op == 'elem' and x.a[0].op == 'slice' and parser_lines(x.a[0].a[0]))]
        base = [x for x in base if any(y.op in ('elem', 'index') and y.a[1] == inner.uid for y in subterms(x))]
        ctx.ob('row-line', len(set(base)) == 1, q, 'name and values of a row come from different lines', m.loc)
        if len(set(base)) != 1:
            continue
        b = base[0]
        lst = b.a[0] if b.op == 'item' else b.a[0].a[0]
        rev = reversed_list(e, lst, m.idx)
        rets = [x for x in outer.exits if x[0] in ('return', 'break')]
        whole = outer.iter
        while is_call(whole, 'enumerate', 'range', 'len', 'reversed') and cargs(whole):
            whole = cargs(whole)[-1] if is_call(whole, 'range') else cargs(whole)[0]
        down = is_call(outer.iter, 'reversed') or (is_call(outer.iter, 'enumerate') and is_call(cargs(outer.iter)[0], 'reversed'))
        from_end = rev != down
        ok = (from_end and bool(rets)) or (not from_end and not rets)
        ctx.ob('last-matrix', ok, q, 'the matrix that is taken is not the last one in the log', m.loc)
        ctx.ob('all-lines-searched', parser_lines(whole), q, f"the search runs over {show(outer.iter)}", m.loc)
        # index of the lines relative to the header
        for idx, dim in ((20, 1), (20, 3), (31, 4)):
            try:
                tv = Tev(lambda t, ev: None, e)
                got = line_indices(e, tv, outer, inner, b, lst, idx, dim)
                want = [idx - 2 - k for k in range(dim)] if rev else [idx + 2 + k for k in range(dim)]
                ctx.ob('row-lines', got == want, f"{q}:dim={dim}",
                       f"the lines at {[x - idx for x in got]} relative to the header are taken instead of "
                       f"{[x - idx for x in want]}", m.loc)
            except Unsupported as x:
                ctx.fail('row-lines', f"{q}:dim={dim}", f"the lines of the matrix cannot be derived: {x}", m.loc)
        # dimension
        dimt = dim_terms(e, inner)
        if fast:
            ctx.ob('dimension', any(is_call(t, 'len') and any(is_call(x, '.split') for x in subterms(t)) for t in dimt), q,
                   'the number of rows is not that of the column header', m.loc)
        else:
            ok = False
            for t in dimt:
                g = [x for x in [cargs(t)[0]] if is_call(t, 'int') and is_call(x, '.group')]
                ok = ok or any(is_const(cargs(x)[1], 1, 2) and dim_pattern(cargs(x)[0]) for x in g if len(cargs(x)) > 1)
            ctx.ob('dimension', ok, q, 'the number of rows is not the printed dimension', m.loc)
            for t in dimt:
                for x in [s for s in subterms(t) if s.op == 'item' and parser_lines(s.a[0])]:
                    off = pnorm(x.a[1], lambda y: {(('i', 1),): Fraction(1)} if y.op == 'index' and y.a[1] == outer.uid else None)
                    off = padd(off, {(('i', 1),): Fraction(-1)}) if off is not None else None
                    if off is not None and all(k == () for k in off):
                        d = off.get((), 0)
                        ctx.ob('dimension-line', d == (-1 if rev else 1), q, f"the dimension is read {abs(d)} lines {'above' if (d > 0) == rev else 'below'} the header",
                               m.loc)
        res = [ev for ev in e.events if ev.kind == 'return' and ev.ctx[-1] == q]
        vals = {y for ev in res for x in list(ev.args) + [ev.result] if x is not None for _, y in gated_leaves(x)}
        ctx.ob('matrix-returned', any(y is m.result or y.op == 'mu' for v in vals for y in subterms(v)), q, f"the result is {', '.join(sorted(show(v)[:60] for v in vals)) or 'nothing'}, not the matrix", m.loc)
        # cells
        pops = []
        cells = None
        if nv.op == 'item' and is_const(nv.a[1], 0):
            cells = nv.a[0]
        ctx.ob('row-name', cells is not None and nonempty_cells(e, cells, b), q,
               f"the name of a row is {show(nv)}, not the first word of its line", m.loc)
        mp = mapped(e, rv, m)
        ok = False
        skip = None
        if mp is not None and cells is not None and not [g for g in mp[2] if g not in m.guards]:
            fl = [x for x in subterms(mp[0]) if is_call(x, 'float')]
            if len(fl) == 1:
                src = source(cargs(fl[0])[0])
                if src is not None and src.op == 'slice' and src.a[0] is cells and is_const(src.a[2], None) and \
                        is_const(src.a[3], None) and src.a[1].op == 'const':
                    pops = [ev for ev in e.by_recv.get(cells, []) if ev.callee == '.pop' and ev.kind == 'call']
                    dels = [ev for ev in e.by_recv.get(cells, []) if ev.kind == 'delitem']
                    skip = src.a[1].a[0] + len([p for p in pops + dels if p.args and is_const(p.args[0], 1)])
                    okp = all(p.args and is_const(p.args[0], 1) and set(p.guards) <= set(rg) for p in pops + dels)
                    ok = okp and skip == (2 if fast else 1)
                elif fast:
                    ok = False
                factor = pnorm(mp[0], lambda t: {(('x', 1),): Fraction(1)} if t is fl[0] else None)
                check_factor(ctx, e, q, factor, fast, m)
        ctx.ob('row-values', ok, q, 'the entries of a row are not the numbers after its ' +
               ('name and number' if fast else 'name'), m.loc)


def comp_terms(e, c):
    i = e.comps[c.a[1]]
    return [x for x in (i['elt'], i.get('key')) if x is not None] + [l.iter for l in i['loops'] if l.iter is not None]


def all_subterms(e, ts):
    seen, work, out = set(), list(ts), []
    while work:
        t = work.pop()
        for x in subterms(t):
            if x in seen:
                continue
            seen.add(x)
            out.append(x)
            if x.op == 'comp':
                work.extend(comp_terms(e, x))
    return out


def mentions_const(t, text):
    return any(x.op == 'const' and isinstance(x.a[0], str) and text in x.a[0] for x in subterms(t))


def dim_terms(e, inner):
    return [x for x in subterms(inner.iter) if is_call(x, 'len', 'int')]


def dim_pattern(m):
    """group of a match of the dimension line"""
    return any(x.op == 'const' and isinstance(x.a[0], str) and 'Dimension' in x.a[0] for x in subterms(m))


def line_indices(e, tv, outer, inner, b, lst, idx, dim):
    dims = {}

    def base(t, ev):
        if t.op == 'index' and t.a[1] == outer.uid:
            return idx
        if is_call(t, 'int') and any(is_call(x, '.group') for x in subterms(t)):
            return dim
        if is_call(t, 'len'):
            a = cargs(t)[0]
            if a is lst or parser_lines(a):
                return 60
            if any(is_call(x, '.split') for x in subterms(a)):
                return dim
        return None
    tv.base = base
    if outer.elem is not None and outer.elem.op == 'elem' and is_call(outer.iter, 'range'):
        tv.env[outer.elem] = idx
    if b.op == 'elem' and b.a[0].op == 'slice':
        s = slice(*[None if is_const(x, None) else as_int(tv.ev(x)) for x in b.a[0].a[1:4]])
        r = list(range(60))[s]
        it = inner.iter
        while is_call(it, 'enumerate', 'list', 'tuple') and cargs(it):
            it = cargs(it)[0]
        return r[::-1] if is_call(it, 'reversed') else r
    got = []
    for _ in tv.instances([inner], ()):
        k = as_int(tv.ev(b.a[1]))
        if k is None:
            raise Unsupported(show(b.a[1]))
        got.append(k)
    return got


def nonempty_cells(e, cells, line):
    """the non-empty words of the line"""
    t = cells
    filtered = False
    for _ in range(6):
        if t.op == 'comp' or t.op == 'call' and is_call(t, 'list', 'filter', 'tuple'):
            m = mapped(e, t)
            if m is None:
                return False
            b, _n = unstrip(m[0])
            if m[2]:
                x = m[0]
                ok = len(m[2]) == 1 and entails_nonempty(m[2][0], x)
                if not ok:
                    return False
                filtered = True
            t = source(b)
            if t is None:
                return False
            continue
        break
    if not is_call(t, '.split'):
        return False
    base, _ = unstrip(cargs(t)[0])
    if base is not line:
        return False
    return filtered or (len(cargs(t)) == 1 and not ckw(t))


def entails_nonempty(lit, x):
    t, p = lit
    b, _ = unstrip(x)
    return p and unstrip(t)[0] is b


def check_factor(ctx, e, q, factor, fast, m):
    """one monomial x * 1e-6 [* factor of the unit]"""
    ok = len(factor) == 1
    if ok:
        (mono, c), = factor.items()
        rest = [(a, n) for a, n in mono if a != 'x']
        ok = any(a == 'x' and n == 1 for a, n in mono) and c == Fraction(1, 10 ** 6)
        if fast:
            ok = ok and len(rest) == 1 and rest[0][1] == 1 and unit_table(ctx, e, q, rest[0][0], m)
        else:
            ok = ok and not rest
    ctx.ob('entry-unit', ok, q, f"an entry is converted with {pshow(factor)}, not with 1e-6" + (' and its unit' if fast else ''),
           m.loc)


def unit_table(ctx, e, q, t, m):
    """gate over the unit names (or a lookup in a table with constant entries)"""
    tab = None
    if is_call(t, '.get') or t.op == 'item':
        tab = cargs(t)[0] if t.op == 'call' else t.a[0]
        key = cargs(t)[1] if t.op == 'call' else t.a[1]
    elif t.op == 'ite':
        key = None
        vals = {}
        for c, l in gated_leaves(t):
            if l.op != 'const' or l.a[0] is None:
                continue
            k = [x for x, p in c if p and x.op == 'cmp' and x.a[0] == '==']
            if len(k) != 1:
                return False
            n = [x for x in k[0].a[1:] if x.op == 'const']
            key = [x for x in k[0].a[1:] if x.op != 'const'][0] if n else None
            vals[n[0].a[0] if n else None] = l.a[0]
        return units_ok(vals) and unit_key(key)
    if tab is None:
        return False
    ent = dict_entries(e, tab)
    if ent is None and tab.op == 'ref':
        ent = None
    if ent is None:
        return False
    vals = {k.a[0]: v.a[0] for k, v, g, l in ent if k.op == 'const' and v.op == 'const'}
    return len(vals) == len(ent) and units_ok(vals) and unit_key(key)


def units_ok(vals):
    if 'picofarads' not in vals and 'pico' not in vals:
        return False
    for k, v in vals.items():
        w = {u.replace('farads', ''): x for u, x in SI.items()}
        n = SI.get(k, w.get(k))
        if n is None or abs(v / 10.0 ** n - 1) > 1e-9:
            return False
    return True


def unit_key(key):
    return key is not None and is_call(key, '.group') and mentions_const(key, 'CAPACITANCE MATRIX')
