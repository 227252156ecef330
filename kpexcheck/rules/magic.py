"""C38 (Magic script), C39 (.ext parser), C40 (Magic report)."""
import re
from ..core import check, Ctx
from ..q import *
from ..bools import conj, specialise, pick, enum_atom
from ..vfa import const
from .resist import unraised
from .util import params, results, top_returns, P, call_
try:
    import re._parser as sre
    import re._constants as sc
except ImportError:        # Python < 3.11
    import sre_parse as sre
    import sre_constants as sc

MR = 'klayout_pex.magic.magic_runner'


# ------------------------------------------------------------------------------------------------ C38
def text(e, t, dec, sym):
    """the string with conditions decided, unknown parts named by sym; None if it cannot be put together"""
    t = pick(t, dec)
    if t.op == 'const':
        return str(t.a[0])
    s = sym(t)
    if s is not None:
        return s
    if t.op == 'fstr':
        return cat([text(e, x, dec, sym) for x in t.a])
    if t.op == 'bin' and t.a[0] == '+':
        return cat([text(e, x, dec, sym) for x in t.a[1:]])
    if is_call(t, 'str') and t.op == 'call' and len(cargs(t)) == 1:
        return text(e, cargs(t)[0], dec, sym)
    if is_call(t, '.strip', '.lstrip', '.rstrip') and len(cargs(t)) == 1:
        x = text(e, cargs(t)[0], dec, sym)
        return getattr(x, t.a[0][1:])() if x is not None else None
    if is_call(t, 'textwrap.dedent'):
        x = text(e, cargs(t)[0], dec, sym)
        return '\n'.join(l.strip() for l in x.split('\n')) if x is not None else None
    if is_call(t, '.join') and len(cargs(t)) == 2 and cargs(t)[0].op == 'const':
        its = list_items(e, pick(cargs(t)[1], dec))
        if its is None or any(l for _, _, l, *_ in its):
            return None
        out = []
        for v, g, *_ in its:
            c = specialise(conj(unraised(e, g)), dec)
            if c is const(True):
                x = text(e, v, dec, sym)
                if x is None:
                    return None
                out.append(x)
            elif c is not const(False):
                return None
        return cargs(t)[0].a[0].join(out)
    return None


def cat(xs):
    return None if any(x is None for x in xs) else ''.join(xs)


NEEDED = {    # command (regular in the names of the parameters): modes
    'gds read <gds_path>': ('CC', 'RC', 'R'),
    'load <cell_name>': ('CC', 'RC', 'R'),
    'extract path <run_dir_path>': ('CC', 'RC', 'R'),
    'extract do resistance': ('RC', 'R'),
    'extract no capacitance': ('R',),
    'extract no coupling': ('R',),
    'extract all': ('CC', 'RC', 'R'),
    'ext2sim labels on': ('RC', 'R'),
    'ext2sim': ('RC', 'R'),
    'extresist tolerance <tolerance>': ('RC', 'R'),
    'extresist all': ('RC', 'R'),
    'ext2spice short <short_mode>': ('CC', 'RC', 'R'),
    'ext2spice merge <merge_mode>': ('CC', 'RC', 'R'),
    'ext2spice cthresh <c_threshold>': ('CC', 'RC'),
    'ext2spice rthresh <r_threshold>': ('RC', 'R'),
    'ext2spice extresist on': ('RC', 'R'),
    'ext2spice subcircuits top on': ('CC', 'RC', 'R'),
    'ext2spice format ngspice': ('CC', 'RC', 'R'),
    'ext2spice -p <run_dir_path> -o <output_netlist_path>': ('CC', 'RC', 'R'),
    'quit -noprompt': ('CC', 'RC', 'R'),
}
HARMLESS = {'ext2spice rthresh <r_threshold>': ('CC',), 'ext2spice cthresh <c_threshold>': ('R',)}
ORDER = [     # every command of a group comes before those of the next
    ['gds read <gds_path>'], ['load <cell_name>'], ['extract path <run_dir_path>', 'extract halo <halo>', 'extract do resistance', 'extract no capacitance', 'extract no coupling'],
    ['extract all'], ['ext2sim labels on'], ['ext2sim'], ['extresist tolerance <tolerance>'], ['extresist all'],
    ['ext2spice short <short_mode>', 'ext2spice merge <merge_mode>', 'ext2spice cthresh <c_threshold>', 'ext2spice rthresh <r_threshold>', 'ext2spice extresist on',
     'ext2spice subcircuits top on', 'ext2spice format ngspice'],
    ['ext2spice -p <run_dir_path> -o <output_netlist_path>'], ['quit -noprompt']]
# the top cell, flattened under its own name
FLATTEN = ['load <cell_name>', 'select top cell', 'flatten <cell_name>_flat', 'load <cell_name>_flat', 'cellname delete <cell_name> -noprompt',
           'cellname rename <cell_name>_flat <cell_name>', 'select top cell']


@check('C38', 'symbolic text of the script for every mode with and without halo, compared with the commands that the mode requires, in order',
       'Every mode, every value of the other options (symbols in the text).')
def c38(ctx: Ctx):
    q = f"{MR}.prepare_magic_script"
    e = ctx.analyse(q)
    f = ctx.prog.funcs[q]
    ps = set(f.params)
    need = {'gds_path', 'cell_name', 'run_dir_path', 'script_path', 'output_netlist_path', 'pex_mode', 'c_threshold', 'r_threshold', 'tolerance', 'halo', 'short_mode', 'merge_mode'}
    ctx.need(need <= ps, f"{q} has other parameters")
    halo = P('halo')
    scaled = atom(halo)
    scaled = {k: v * 200 for k, v in scaled.items()}

    def sym(t):
        if t.op == 'param':
            return f"<{t.a[0]}>"
        if is_attr(t, 'value') and t.a[0].op == 'param' and t.a[0].a[0] in ('short_mode', 'merge_mode', 'pex_mode'):
            return f"<{t.a[0].a[0]}>"
        if is_call(t, 'os.path.abspath', 'os.path.realpath') and t.op == 'call' and len(cargs(t)) == 1 and cargs(t)[0].op == 'param':
            return f"<{cargs(t)[0].a[0]}>"
        if is_call(t, 'round', 'int') and len(cargs(t)) == 1:
            x = cargs(t)[0]
            if is_call(x, 'round') and len(cargs(x)) == 1:
                x = cargs(x)[0]
            elif t.a[0] == 'int':
                return None
            return '<halo>' if pnorm(x) == scaled else None
        return None
    modes = ctx.prog.classes.get(f"{MR}.MagicPEXMode")
    ctx.need(modes is not None, 'MagicPEXMode is gone')
    ws = [ev for ev in e.events if ev.kind == 'call' and ev.callee in ('.write', '.write_text', '.writelines') and ev.recv is not None and path_root(ev.recv) is not None]
    for mode in ('CC', 'RC', 'R'):
        for has in (True, False):
            inmode = enum_atom(lambda t: t is P('pex_mode'), mode)

            def dec(t):
                if t.op == 'cmp' and t.a[0] == '==' and t.a[1] is halo and is_const(t.a[2], None):
                    return not has
                return inmode(t)
            where = f"{q} {mode}{' halo' if has else ''}"
            act = [ev for ev in ws if specialise(conj(unraised(e, ev.guards)), dec) is not const(False)]
            ok = bool(act) and all(file_of(ev.recv) is P('script_path') and not ev.loops and
                                   specialise(conj(unraised(e, ev.guards)), dec) is const(True) for ev in act)
            body = cat([text(e, ev.args[0], dec, sym) for ev in act]) if ok else None
            if not ctx.ob('written', body is not None, where, 'the script is not written to its file'):
                continue
            cmds = [' '.join(l.split()) for l in body.replace(';', '\n').split('\n')]
            cmds = [c for c in cmds if c and not c.startswith('#')]
            want = [c for c, m in NEEDED.items() if mode in m] + (['extract halo <halo>'] if has else [])
            for c in want:
                n = cmds.count(c)
                ctx.ob('commands', n == 1 or n > 1 and c == 'load <cell_name>', f"{where} '{c}'", 'is missing' if n == 0 else f"occurs {n} times", act[0].loc)
            for c in cmds:
                w = c.split()
                if w[0] in ('extract', 'ext2spice', 'extresist', 'ext2sim', 'gds', 'quit'):
                    ctx.ob('commands', c in want or mode in HARMLESS.get(c, ()), f"{where} '{c}'", 'is not a command of this mode', act[0].loc)
            pos = [[cmds.index(c) for c in g if c in cmds] for g in ORDER]
            last = -1
            for g, p in zip(ORDER, pos):
                if p:
                    ctx.ob('order', min(p) > last, f"{where} '{g[0]}'", 'comes too early', act[0].loc)
                    last = max([last] + p)
            # what is extracted is the flattened cell, under its name
            try:
                a, b = cmds.index('load <cell_name>'), cmds.index('extract path <run_dir_path>')
                part = cmds[a:b]
            except ValueError:
                part = []
            ctx.ob('cell', part == FLATTEN or part in ([c for c in FLATTEN if 'flat' not in c and 'delete' not in c][:2], FLATTEN[:1]), where,
                   f"the cell is prepared with {part}", act[0].loc)


def file_of(r):
    """path that a file object was opened with for writing"""
    if is_call(r, 'open', 'io.open'):
        a = list(cargs(r))
        mode = a[1] if len(a) > 1 else ckw(r).get('mode', const('r'))
        return a[0] if mode.op == 'const' and mode.a[0] in ('w', 'wt', 'w+') else None
    if is_call(r, '.open') and cargs(r):
        return path_root(cargs(r)[0])
    if is_call(r, 'Path', 'pathlib.Path'):
        return cargs(r)[0]
    return None


# ------------------------------------------------------------------------------------------------ C39
XP = 'klayout_pex.magic.magic_ext_file_parser'
XD = 'klayout_pex.magic.magic_ext_data_structures'
ANY = frozenset(chr(c) for c in range(33, 127))
NAME = ANY - {'"'}
WORD = frozenset(c for c in ANY if c.isalnum() or c == '_')
INT = frozenset('0123456789')
REAL = frozenset('0123456789.e+-')
# record: (keywords, columns (field, quoted, characters, conversions), object, list, parser)
RECORDS = {
    'port': (['port'], [('net', True, NAME, 'str'), (None, False, INT, ''), ('x_bot', False, INT | {'-'}, 'int'), ('y_bot', False, INT | {'-'}, 'int'),
                        ('x_top', False, INT | {'-'}, 'int'), ('y_top', False, INT | {'-'}, 'int'), ('layer', False, WORD, 'str')], 'Port', 'ports', 'parse_magic_ext_file'),
    'node': (['node', 'substrate'], [('net', True, NAME, 'str'), ('int_r', False, INT, 'int'), ('fin_c', False, REAL, 'float'), ('x_bot', False, INT | {'-'}, 'int'),
                                     ('y_bot', False, INT | {'-'}, 'int'), ('layer', False, WORD, 'str')], 'Node', 'nodes', 'parse_magic_ext_file'),
    'device': (['device'], [('device_type', False, WORD, 'type'), ('model', False, WORD, 'str'), ('x_bot', False, INT | {'-'}, 'int'), ('y_bot', False, INT | {'-'}, 'int'),
                            ('x_top', False, INT | {'-'}, 'int'), ('y_top', False, INT | {'-'}, 'int')], 'Device', 'devices', 'parse_magic_ext_file'),
    'rnode': (['rnode'], [('name', True, NAME, 'str'), ('int_r', False, INT, 'int'), ('fin_c', False, REAL, 'float'), ('x_bot', False, INT | {'-'}, 'int'),
                          ('y_bot', False, INT | {'-'}, 'int')], 'ResNode', 'rnodes', 'parse_magic_res_ext_file'),
    'resist': (['resist'], [('node1', True, NAME, 'str'), ('node2', True, NAME, 'str'), ('value_ohm', False, REAL, 'float')], 'Resistor', 'resistors', 'parse_magic_res_ext_file'),
}
TYPES = ('fet', 'mosfet', 'asymmetric', 'bjt', 'devres', 'devcap', 'devcaprev', 'vsource', 'diode', 'pdiode', 'ndiode', 'subckt', 'rsubckt', 'msubckt', 'csubckt')


class Odd(Exception):
    pass


def charset(items):
    out, neg = set(), False
    for op, av in items:
        if op is sc.NEGATE:
            neg = True
        elif op is sc.LITERAL:
            out.add(chr(av))
        elif op is sc.RANGE:
            out |= {chr(c) for c in range(av[0], av[1] + 1)}
        elif op is sc.CATEGORY:
            cat_ = {sc.CATEGORY_DIGIT: INT, sc.CATEGORY_WORD: WORD, sc.CATEGORY_NOT_SPACE: ANY, sc.CATEGORY_SPACE: frozenset(' \t'),
                    sc.CATEGORY_NOT_WORD: ANY - WORD | {' '}, sc.CATEGORY_NOT_DIGIT: ANY - INT | {' '}}.get(av)
            if cat_ is None:
                raise Odd('class')
            out |= cat_
        else:
            raise Odd('class')
    return frozenset((ANY | {' '}) - out if neg else out)


class Column:
    """one blank-separated column: its literal text, or the capture group and the characters it takes"""

    def __init__(self):
        self.lits, self.group, self.chars, self.first, self.quoted, self.many = [''], None, None, None, 0, False

    def __repr__(self):
        return f"{self.lits}{self.group}"


def columns(pattern):
    """([Column], rest) of a record pattern; rest: more text may follow"""
    try:
        p = sre.parse(pattern)
    except Exception as x:
        raise Odd(str(x))
    names = {v: k for k, v in p.state.groupdict.items()}
    cols, rest, ended = [Column()], False, False

    def any_(node):
        op, av = node
        return op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and av[0] == 0 and av[1] is sc.MAXREPEAT and list(av[2]) == [(sc.ANY, None)]

    def value(c, node):
        """characters of a repeated class, possibly behind an optional sign"""
        op, av = node
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            if len(sub) == 1 and sub[0][0] is sc.IN:
                cs = charset(sub[0][1])
            elif len(sub) == 1 and sub[0][0] is sc.NOT_LITERAL:
                cs = (ANY | {' '}) - {chr(sub[0][1])}
            elif len(sub) == 1 and sub[0][0] is sc.LITERAL:
                cs = frozenset(chr(sub[0][1]))
            elif len(sub) == 1 and sub[0][0] is sc.ANY:
                cs = ANY | {' '}
            elif len(sub) == 1 and sub[0][0] is sc.SUBPATTERN:
                for n in sub[0][1][-1]:
                    value(c, n)
                return
            elif hi == 1:
                for n in sub:
                    value(c, n)
                return
            else:
                raise Odd('repeat')
            c.chars = cs if c.chars is None else c.chars | cs
            c.many = c.many or hi is sc.MAXREPEAT
            c.first = c.first or (lo, hi)
        elif op is sc.IN:
            c.chars = charset(av) | (c.chars or frozenset())
        elif op is sc.LITERAL:
            c.chars = frozenset(chr(av)) | (c.chars or frozenset())
        elif op is sc.SUBPATTERN:
            for n in av[-1]:
                value(c, n)
        elif op is sc.BRANCH:
            for b in av[1]:
                for n in b:
                    value(c, n)
        else:
            raise Odd(str(op))

    def literal(nodes):
        out = ['']
        for op, av in nodes:
            if op is sc.LITERAL:
                out = [o + chr(av) for o in out]
            elif op is sc.BRANCH:
                out = [o + x for o in out for b in av[1] for x in literal(b)]
            elif op is sc.SUBPATTERN:
                out = [o + x for o in out for x in literal(av[-1])]
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) and av[0] == 0 and av[1] == 1:
                out = [o + x for o in out for x in [''] + literal(av[2])]
            elif op is sc.IN:
                cs = charset(av)
                if len(cs) > 8:
                    raise Odd('set')
                out = [o + x for o in out for x in sorted(cs)]
            else:
                raise Odd('literal')
        return out
    nodes = list(p)
    for i, node in enumerate(nodes):
        op, av = node
        c = cols[-1]
        if op is sc.AT:
            if av in (sc.AT_END, sc.AT_END_STRING):
                ended = True
            continue
        if any_(node):
            rest = True
            continue
        blank = op is sc.LITERAL and av in (32, 9) or op in (sc.MAX_REPEAT,) and av[0] >= 1 and len(av[2]) == 1 and \
            (av[2][0] == (sc.LITERAL, 32) or av[2][0][0] is sc.IN and charset(av[2][0][1]) <= frozenset(' \t')) or \
            op is sc.IN and charset(av) <= frozenset(' \t')
        if blank:
            cols.append(Column())
        elif op is sc.LITERAL and av == 34:
            c.quoted += 1
        elif op is sc.LITERAL and c.group is None and c.chars is None:
            c.lits = [l + chr(av) for l in c.lits]
        elif op is sc.SUBPATTERN and c.group is None and av[0] is not None:
            try:
                ls = literal(av[-1])
            except Odd:
                ls = None
            c.group = {av[0], names.get(av[0], av[0])}
            if ls is not None and not c.quoted:
                c.lits = [l + x for l in c.lits for x in ls]
            else:
                for n in av[-1]:
                    value(c, n)
        elif op in (sc.SUBPATTERN, sc.BRANCH):
            try:
                c.lits = [l + x for l in c.lits for x in literal([node])]
            except Odd:
                value(c, node)
        else:
            value(c, node)
    if cols and cols[-1].lits == [''] and cols[-1].chars is None and cols[-1].group is None:
        cols.pop()
    return cols, rest or not ended


def pattern_of(t):
    """(pattern text, text it is matched with) of a match"""
    if is_call(t, 're.match', 're.fullmatch', 're.search') and len(cargs(t)) >= 2:
        p, s = cargs(t)[:2]
        if is_call(p, 're.compile'):
            p = cargs(p)[0]
        return (p.a[0], s, t.a[0].split('.')[-1]) if p.op == 'const' else None
    if is_call(t, '.match', '.fullmatch', '.search') and len(cargs(t)) == 2 and is_call(cargs(t)[0], 're.compile'):
        p = cargs(cargs(t)[0])[0]
        return (p.a[0], cargs(t)[1], t.a[0][1:]) if p.op == 'const' else None
    return None


def group_of(t):
    """(match, group) that a value is read from"""
    if is_call(t, '.group') and len(cargs(t)) == 2 and cargs(t)[1].op == 'const':
        return cargs(t)[0], cargs(t)[1].a[0]
    if t.op == 'item' and t.a[1].op == 'const':
        if is_call(t.a[0], '.groupdict'):
            return cargs(t.a[0])[0], t.a[1].a[0]
        if is_call(t.a[0], '.groups'):
            return cargs(t.a[0])[0], t.a[1].a[0] + 1
        return t.a[0], t.a[1].a[0]
    if is_call(t, '.get') and is_call(cargs(t)[0], '.groupdict'):
        return cargs(cargs(t)[0])[0], cargs(t)[1].a[0]
    return None


def conversion(t):
    out = []
    while t.op == 'call' and len(cargs(t)) == 1 and (t.a[0] in ('int', 'float', 'str') or t.a[0].endswith('.DeviceType')) or \
            t.op == 'new' and t.a[0].endswith('DeviceType') and len(cargs(t)) == 1:
        out.append(t.a[0].split('.')[-1])
        t = cargs(t)[0]
    return t, out


def line_of(e, s, path):
    """the loop over the lines of the file that s is a line of"""
    while is_call(s, '.strip', '.rstrip', '.lstrip') and s.op == 'call':
        s = cargs(s)[0]
    if s.op != 'elem':
        return None
    it = s.a[0]
    while is_call(it, 'list', 'iter', 'tuple') and it.op == 'call':
        it = cargs(it)[0]
    f = cargs(it)[0] if is_call(it, '.readlines', '.splitlines') else it
    if is_call(f, '.read') or is_call(f, '.read_text'):
        f = cargs(f)[0]
    if is_call(f, 'open', 'io.open') and cargs(f)[0] is path or is_call(f, '.open') and cargs(f)[0] is path or f is path:
        ls = [l for l in e.loop_by_uid.values() if l.uid == s.a[1]]
        return ls[0] if ls else None
    return None


@check('C39', 'columns and character classes of the record patterns, compared with the record layout; value analysis from column to field',
       'Every record kind, every column; the pattern language is decided from its syntax tree.')
def c39(ctx: Ctx):
    matched = {}
    for kind, (kws, cols, cls, lst, fn) in RECORDS.items():
        q = f"{XP}.{fn}"
        e = ctx.analyse(q)
        path, = params(ctx, q)
        ret = [v for _, v, _ in results(e, lambda t: None)]
        where = f"{q} {kind}"
        ok = len(ret) == 1 and is_new(ret[0])
        L = ckw(ret[0]).get(lst) if ok else None
        if ok and L is None:
            fl = fields_of(ctx, ret[0].a[0])
            L = cargs(ret[0])[fl.index(lst)] if lst in fl and len(cargs(ret[0])) > fl.index(lst) else None
        its = list_items(e, L) if L is not None else None
        if not ctx.ob('records', its is not None and len(its) == 1 and is_new(its[0][0], cls), where, f"{lst} are not one per record"):
            continue
        v, g, lp = its[0][:3]
        fl = fields_of(ctx, v.a[0])
        val = dict(ckw(v))
        for n, a in zip(fl, cargs(v)):
            val[n] = a
        src = {}
        for n, x in val.items():
            b, conv = conversion(x)
            src[n] = (group_of(b), conv)
        ms = {s[0] for s, _ in src.values() if s}
        if not ctx.ob('records', len(ms) == 1 and all(s for s, _ in src.values()) and pattern_of(next(iter(ms))), where,
                      'the fields do not come from one match'):
            continue
        m = next(iter(ms))
        pat, subj, how = pattern_of(m)
        l = line_of(e, subj, path)
        ok = l is not None and lp == (l,) and not [x for x in l.exits if x[0] in ('break', 'return')]
        ctx.ob('records', ok, where, 'not every line of the file is looked at')
        try:
            cs, rest = columns(pat)
        except Odd as x:
            ctx.ob('layout', False, where, f"the pattern cannot be followed ({x})")
            continue
        matched[kind] = (cs, where)
        # every matching line, whatever other kinds are looked for
        mine = lambda t: True if t is m else False if t.op == 'cmp' and t.a[0] == '==' and t.a[1] is m and is_const(t.a[2], None) else \
            (False if pattern_of(t) and t is not m else True if t.op == 'cmp' and is_const(t.a[2], None) and pattern_of(t.a[1]) else None)
        c = specialise(conj(unraised(e, g)), mine)
        ctx.ob('records', c is const(True), where, f"a record becomes an object only if {show(c)[:100]}")
        ctx.ob('layout', how != 'search' or pat.startswith('^'), where, 'the record may begin anywhere')
        ctx.ob('layout', sorted(cs[0].lits) == sorted(kws) and cs[0].chars is None, f"{where} keyword", f"is {cs[0]}, not {kws}")
        if not ctx.ob('layout', len(cs) >= len(cols) + 1, where, f"has {len(cs) - 1} columns instead of {len(cols)}"):
            continue
        if kind in ('node', 'device'):
            ctx.ob('layout', rest, where, 'nothing may follow the columns')
        for i, (f, quoted, chars, conv) in enumerate(cols):
            k = cs[i + 1]
            w = f"{where} column {i + 1}{' (' + f + ')' if f else ''}"
            ctx.ob('layout', (k.quoted == 2) == quoted, w, 'is not quoted' if quoted else 'is quoted')
            have = (k.chars or frozenset()) if k.chars is not None or k.lits == [''] else frozenset(''.join(k.lits))
            ctx.ob('layout', chars <= have and k.many, w, f"does not accept {''.join(sorted(chars - have)) or 'longer values'}")
            ctx.ob('layout', '"' not in have if quoted else ' ' not in have, w, 'may run over the end of the column')
            if f is None:
                continue
            (sm, grp), cv = src.get(f, ((None, None), []))
            ctx.ob('fields', k.group is not None and grp in k.group, w, f"the field is read from {grp}, not from its column")
            okc = {'str': cv in ([], ['str']), 'int': cv in (['int'], ['int', 'float'], ['float']), 'float': cv == ['float'], 'type': cv == ['DeviceType']}[conv]
            ctx.ob('fields', okc, w, f"is converted with {cv}, not as {conv}")
        for f in fl:
            ctx.ob('fields', f in val, f"{where} {f}", 'is not set')
    mem = ctx.prog.classes.get(f"{XD}.DeviceType")
    ctx.need(mem is not None, 'DeviceType is gone')
    from .util import enum_members
    have = list(enum_members(ctx, f"{XD}.DeviceType").values())
    for t in TYPES:
        ctx.ob('types', have.count(t) == 1, f"{XD}.DeviceType {t}", 'is not a known type of device')
    run(ctx)


def fields_of(ctx, cls):
    c = ctx.prog.classes.get(cls)
    if c is None:
        cand = [x for n, x in ctx.prog.classes.items() if n.split('.')[-1] == cls.split('.')[-1]]
        c = cand[0] if cand else None
    import ast
    return [s.target.id for s in c.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)] if c is not None else []


def run(ctx):
    q = f"{XP}.parse_magic_pex_run"
    ext, res = f"{XP}.parse_magic_ext_file", f"{XP}.parse_magic_res_ext_file"
    e = ctx.analyse(q, opaque=[ext, res])
    d, = params(ctx, q)
    ret = [v for _, v, _ in results(e, lambda t: None)]
    ok = len(ret) == 1 and is_new(ret[0], 'MagicPEXRun')
    cells = ckw(ret[0]).get('cells', cargs(ret[0])[1] if len(cargs(ret[0])) > 1 else None) if ok else None
    ents = dict_entries(e, cells) if cells is not None else None
    if not ctx.ob('run', bool(ents) and len(ents) == 1 and is_new(ents[0][1], 'CellExtData'), q, 'the cells are not listed'):
        return
    k, v, g, lp = ents[0]
    ok = len(lp) == 1 and lp[0].iter is not None and not [x for x in lp[0].exits if x[0] != 'raise']
    if not ctx.ob('run', ok, q, 'not every cell is listed once'):
        return
    it = lp[0].iter
    main = cargs(it)[0] if is_call(it, '.items', '.keys') and cargs(it) else it
    K, V = T('key', main, lp[0].uid), T('val', main, lp[0].uid)
    keys, vals = (K, T('elem', main, lp[0].uid)), (V, T('item', main, K), T('item', main, T('elem', main, lp[0].uid)))
    dflt = lambda t: False if t is main or t.op == 'cmp' and t.a[0] == '==' and main in subterms(t) else None
    ctx.ob('run', k in keys and specialise(conj(unraised(e, g)), lambda t: True if t is main else None) is const(True), q, 'not every cell is listed')
    a = dict(zip(('ext_data', 'res_ext_data'), cargs(v)))
    a.update(ckw(v))
    ctx.ob('run', is_call(a.get('ext_data', const(0)), ext) and cargs(a['ext_data'])[0] in vals, f"{q} ext_data", 'is not parsed from the file of the cell')
    r = a.get('res_ext_data', const(0))
    resd = None
    for has in (True, False):
        def dec(t):
            if t.op == 'cmp' and t.a[0] == '==' and is_const(t.a[2], None) and lookup(t.a[1]):
                return not has
            if lookup(t):
                return has
            if t.op == 'cmp' and t.a[0] == 'in' and t.a[1] in keys:
                return has
            return None

        def lookup(t):
            if is_call(t, '.get') and len(cargs(t)) >= 2 and cargs(t)[1] in keys or t.op == 'item' and t.a[1] in keys:
                return cargs(t)[0] if t.op == 'call' else t.a[0]
            return None
        x = pick(r, dec)
        if has:
            ok = is_call(x, res) and lookup(cargs(x)[0]) is not None
            resd = lookup(cargs(x)[0]) if ok else None
            ctx.ob('run', ok, f"{q} res_ext_data", 'is not parsed from the resistance file of the cell')
        else:
            ctx.ob('run', is_const(x, None), f"{q} res_ext_data", 'is not None without a resistance file')
    # files to cells
    for name, D, isres in (('main', main, False), ('resistance', resd, True)):
        if D is None:
            continue
        es = dict_entries(e, D) or []
        w = f"{q} {name} files"
        ok = len(es) == 1 and len(es[0][3]) == 1 and not [x for x in es[0][3][0].exits if x[0] in ('break', 'return')]
        if not ctx.ob('run', ok, w, 'are not found by cell'):
            continue
        kk, vv, gg, ll = es[0]
        el = T('elem', ll[0].iter, ll[0].uid)
        src = ll[0].iter
        while is_call(src, 'sorted', 'list') and src.op == 'call':
            src = cargs(src)[0]
        ok = is_call(src, '.glob') and cargs(src)[0] is d and is_const(cargs(src)[1], '*.ext') and vv in (el, T('elem', src, ll[0].uid))
        ctx.ob('run', ok, w, 'are not the .ext files of the directory')
        gr = group_of(kk)
        ok = gr is not None and pattern_of(gr[0]) and pattern_of(gr[0])[1] in (T('attr', el, 'name'), T('attr', T('elem', src, ll[0].uid), 'name'))
        if not ctx.ob('run', ok, w, 'the cell is not taken from the name of the file'):
            continue
        m = gr[0]
        pat, subj, how = pattern_of(m)
        opt = suffix(pat, gr[1])
        if not ctx.ob('run', opt is not None, w, f"the pattern {pat!r} does not split <cell>[.res].ext"):
            continue
        for r_ in (True, False):
            def dec(t):
                b = t.a[1] if t.op == 'cmp' and t.a[0] == '==' and is_const(t.a[2], None) else t
                if b is m:
                    return b is t
                gq = group_of(b)
                if gq and gq[0] is m and gq[1] in opt:
                    return r_ if b is t else not r_
                if t.op == 'cmp' and group_of(t.a[1]) and group_of(t.a[1])[1] in opt and is_const(t.a[2], '.res'):
                    return r_
                return None
            c = specialise(conj(unraised(e, gg)), dec)
            ctx.ob('run', c is const(r_ == isres), f"{w} {'resistance' if r_ else 'main'}", f"a {'.res.ext' if r_ else '.ext'} file is taken as {name} file if {show(c)[:80]}")


def suffix(pat, cell):
    """names of the optional '.res' group in '<cell>(.res)?.ext'"""
    try:
        p = sre.parse(pat)
    except Exception:
        return None
    names = {v: k for k, v in p.state.groupdict.items()}
    ns = [n for n in p if n[0] is not sc.AT]
    if len(ns) < 3 or ns[0][0] is not sc.SUBPATTERN or cell not in (ns[0][1][0], names.get(ns[0][1][0])):
        return None
    sub = list(ns[0][1][-1])
    if not (len(sub) == 1 and sub[0][0] is sc.MIN_REPEAT and list(sub[0][1][2]) == [(sc.ANY, None)] and sub[0][1][0] <= 1 and sub[0][1][1] is sc.MAXREPEAT):
        return None
    o = ns[1]
    if not (o[0] in (sc.MAX_REPEAT,) and o[1][0] == 0 and o[1][1] == 1 and len(o[1][2]) == 1 and o[1][2][0][0] is sc.SUBPATTERN):
        return None
    g = o[1][2][0][1]
    lit = lambda xs: ''.join(chr(a) if k is sc.LITERAL else '?' for k, a in xs)
    return (g[0], names.get(g[0])) if lit(g[-1]) == '.res' and lit(ns[2:]) == '.ext' else None


# ------------------------------------------------------------------------------------------------ C40
LA = 'klayout_pex.magic.magic_log_analyzer'
KINDS = {   # source below the cell's data: (category, fields in the name, needs resistance data)
    'ext_data.ports': ('Ports', ('net', 'layer')),
    'ext_data.nodes': ('Nodes', ('net', 'layer')),
    'ext_data.devices': ('Devices', ('device_type', 'model')),
    'res_ext_data.rnodes': ('Resistor Nodes', ('name',)),
    'res_ext_data.resistors': ('Resistors', ('node1', 'node2', 'value_ohm')),
}


def arg(ev, i, name):
    return ev.kw.get(name, ev.args[i] if len(ev.args) > i else None)


@check('C40', 'value analysis from every collection of the parsed run to its report items; order of analysis and saving',
       'Every cell, every element of every collection, every coordinate; standalone tool and main program.')
def c40(ctx: Ctx):
    q = f"{LA}.MagicLogAnalyzer.analyze"
    e = ctx.analyse(q, init=True)
    init = ctx.prog.funcs[f"{LA}.MagicLogAnalyzer.__init__"]
    runp, rep, dbup = [P('init.' + x) for x in init.params if x != 'self'][:3]
    cells = attr_(runp, 'cells')
    dbus = {dbup, T('attr', P('self'), 'dbu')}
    ei = ctx.analyse(f"{LA}.MagicLogAnalyzer.__init__")
    st = [ev for ev in ei.events if ev.kind == 'store' and ev.callee == 'dbu']
    ctx.ob('units', dbup in {T('param', 'init.dbu')} and (not st or [ev.args[0] for ev in st] == [P('dbu')]), f"{LA}.MagicLogAnalyzer.__init__", 'dbu is not the one given')
    made = [ev for ev in e.events if ev.kind == 'call' and ev.callee in ('.create_items', '.create_item') and ev.recv is rep]
    cats = {ev.result: ev for ev in e.events if ev.kind == 'call' and ev.callee == '.create_category' and ev.recv is rep}
    rcells = {ev.result: ev for ev in e.events if ev.kind == 'call' and ev.callee == '.create_cell' and ev.recv is rep}
    used = []
    for path, (cname, fields) in KINDS.items():
        where = f"{q} {path.split('.')[1]}"
        hits = []
        for ev in made:
            if len(ev.loops) == 2 and all(l.iter is not None for l in ev.loops):
                a, b = ev.loops
                ci = cargs(a.iter)[0] if is_call(a.iter, '.items', '.values', '.keys') else a.iter
                it, el = b.iter, None
                if is_call(it, 'enumerate', 'list') and it.op == 'call':
                    it = cargs(it)[0]
                V = T('val', ci, a.uid) if is_call(a.iter, '.items') else T('elem', a.iter, a.uid)
                if ci is cells and it in (attr_(T('val', ci, a.uid), path), attr_(T('elem', a.iter, a.uid), path), attr_(T('item', cells, T('elem', a.iter, a.uid)), path)):
                    hits.append((ev, a, b, T('elem', it, b.uid), it))
        ok = len(hits) == 1 and not [x for l in hits[0][1:3] for x in l.exits if x[0] in ('break', 'return')]
        if not ctx.ob('complete', ok, where, 'not every element becomes an item'):
            continue
        ev, cl, il, el, src = hits[0]
        used.append(ev)
        resd = src.a[0]

        def dec(t):
            if path.startswith('res') and t.op == 'cmp' and t.a[0] == '==' and t.a[1] is resd and is_const(t.a[2], None):
                return False
            if t is resd or t is src:
                return True
            return None
        c = specialise(conj(unraised(e, ev.guards)), dec)
        ctx.ob('complete', c is const(True), where, f"an element becomes an item only if {show(c)[:120]}", ev.loc)
        if path.startswith('res'):
            none = lambda t: True if t.op == 'cmp' and t.a[0] == '==' and t.a[1] is resd and is_const(t.a[2], None) else False if t is resd else None
            c = specialise(conj(unraised(e, ev.guards)), none)
            ctx.ob('complete', c is const(False), where, 'a cell without resistance data stops the program', ev.loc)
        # cell and category
        cid, kid = arg(ev, 0, 'cell_id'), arg(ev, 1, 'category_id')
        rc = cargs(cid)[0] if cid is not None and is_call(cid, '.rdb_id') else None
        ok = rc in rcells and arg(rcells[rc], 0, 'name') in (T('key', cells, cl.uid), T('elem', cl.iter, cl.uid)) and rcells[rc].loops == (cl,)
        ctx.ob('place', ok, where, 'an item is not in the report cell of its cell', ev.loc)
        kc = cargs(kid)[0] if kid is not None and is_call(kid, '.rdb_id') else None
        own = cats.get(kc)
        par = cats.get(category_args(own)[0]) if own is not None else None
        ok = par is not None and category_args(par)[1] is not None and is_const(category_args(par)[1], cname)
        top = cats.get(category_args(par)[0]) if ok else None
        ctx.ob('place', ok and top is not None and category_args(top)[0] is None, where, f"an item is not below '{cname}'", ev.loc)
        if own is not None:
            ctx.ob('place', own.loops == (cl, il), where, 'items share a category', ev.loc)
            nm = category_args(own)[1]
            subs = list(subterms(nm)) if nm is not None else []
            for f in fields:
                ctx.ob('named', T('attr', el, f) in subs, f"{where} {f}", 'is not in the name of the item', own.loc)
        # shapes
        tr, sh = arg(ev, 2, 'trans'), arg(ev, 3, 'shapes')
        ok = tr is not None and is_new(tr) and tr.a[0].split('.')[-1] in ('CplxTrans', 'DCplxTrans') and (list(cargs(tr)) + list(ckw(tr).values()))[:1] and \
            (list(cargs(tr)) + list(ckw(tr).values()))[0] in dbus and len(cargs(tr)) + len(ckw(tr)) == 1
        ctx.ob('units', ok, where, f"the shapes are scaled with {show(tr)[:60] if tr is not None else '?'}", ev.loc)
        if not ctx.ob('shapes', sh is not None and is_new(sh, 'Shapes') and e.created.get(sh) == (cl, il), where, 'does not have its own shapes', ev.loc):
            continue
        ins = [x for x in e.by_recv.get(sh, []) if x.kind == 'call' and x.callee == '.insert' and x.idx < ev.idx]
        if path.endswith('resistors'):
            ends(ctx, e, ins, el, cl, il, resd, where, dbus, ev, dec)
        else:
            ok = len(ins) == 1 and ins[0].loops == (cl, il) and specialise(conj(unraised(e, ins[0].guards)), dec) is const(True)
            if ctx.ob('shapes', ok, where, 'does not have one shape', ev.loc):
                box(ctx, ins[0].args[0], el, path in ('ext_data.ports', 'ext_data.devices'), where, dbus, ins[0].loc)
    for ev in made:
        ctx.ob('complete', ev in used, f"{q} {ev.loc}", 'an item belongs to no element of the run', ev.loc)
    saved(ctx)


def attr_(t, path):
    for p in path.split('.'):
        t = T('attr', t, p)
    return t


def category_args(ev):
    """(parent, name)"""
    if 'parent' in ev.kw or 'name' in ev.kw:
        n = ev.kw.get('name', ev.args[-1] if ev.args else None)
        return ev.kw.get('parent', ev.args[0] if len(ev.args) > (0 if 'name' in ev.kw else 1) else None), n
    return (ev.args[0], ev.args[1]) if len(ev.args) == 2 else (None, ev.args[0] if ev.args else None)


def unround(t):
    while is_call(t, 'round', 'int') and len(cargs(t)) == 1 and t.op == 'call':
        t = cargs(t)[0]
    return t


def box(ctx, b, el, full, where, dbus, loc):
    if not ctx.ob('shapes', is_new(b, 'Box') and len(cargs(b)) == 4, where, f"is {show(b)[:80]}, not a box", loc):
        return
    d = dbus & {x for a in cargs(b) for x in subterms(a)}
    if not ctx.ob('units', len(d) == 1, where, 'the coordinates are not converted to database units', loc):
        return
    dbu = next(iter(d))
    names = ('x_bot', 'y_bot', 'x_top', 'y_top') if full else ('x_bot', 'y_bot', 'x_bot', 'y_bot')
    for i, (a, n) in enumerate(zip(cargs(b), names)):
        want = pmul(pmul(atom(T('attr', el, n)), pconst(1)), pmul(pinv(pconst(200)), pinv(atom(dbu))))
        have = pnorm(a, lambda t: unround(t))
        diff = padd(have, want, -1)
        ok = not diff or i > 1 and not full and set(diff) == {()} and diff[()] > 0
        ctx.ob('units', ok, f"{where} {'left bottom right top'.split()[i]}", f"is {show(a)[:100]}, not {n} / 200 / dbu", loc)


def ends(ctx, e, ins, el, cl, il, resd, where, dbus, ev, dec):
    """one marker for each resistor node at the two ends"""
    got = []
    for x in ins:
        ok = len(x.loops) == 3 and x.loops[:2] == (cl, il) and not [y for y in x.loops[2].exits if y[0] in ('break', 'return')] and \
            x.args and is_new(x.args[0], 'Box')
        if not ctx.ob('shapes', ok, where, 'an end is not marked at its resistor nodes', x.loc):
            return
        l = x.loops[2]
        xel = T('elem', l.iter, l.uid)
        box(ctx, x.args[0], xel, False, where, dbus, x.loc)
        its = list_items(e, l.iter)
        if its is None:
            its = [(T('elem', l.iter, l.uid), (), (l,))]
        base = specialise(conj(unraised(e, x.guards)), dec)
        for v, g, lp in ((i[0], i[1], i[2]) for i in its):
            if not (len(lp) == 1 and lp[0].iter is T('attr', resd, 'rnodes') and v is T('elem', lp[0].iter, lp[0].uid)):
                ctx.ob('shapes', False, where, 'an end is not marked at its resistor nodes', x.loc)
                return
            c = specialise(conj(list(unraised(e, g)) + [(base, True)]), dec)
            xs = c.a if c.op == 'or' else (c,)
            for y in xs:
                ends_ = [n for n in ('node1', 'node2') if y.op == 'cmp' and y.a[0] == '==' and set(y.a[1:]) == {T('attr', v, 'name'), T('attr', el, n)}]
                got.append(ends_[0] if ends_ else show(y)[:80])
    ctx.ob('shapes', sorted(got) == ['node1', 'node2'], where, f"the markers are those of {got}", ev.loc)


def saved(ctx):
    """the standalone tool and the program save what was analysed"""
    pa = f"{LA}._parse_args"
    e = ctx.analyse(pa)
    ns = [v for _, v, _ in results(e, lambda t: None)]
    if ctx.ob('saved', len(ns) == 1, pa, 'does not return the arguments'):
        a = ns[0]
        outd, ind = T('attr', a, 'output_rdb_path'), T('attr', a, 'magic_log_dir_path')
        st = [ev for ev in e.by_recv.get(a, []) if ev.kind == 'store' and ev.callee == 'output_rdb_path']
        for given in (True, False):
            dec = lambda t: given if t is outd else (not given) if t.op == 'cmp' and t.a[0] == '==' and t.a[1] is outd and is_const(t.a[2], None) else None
            vs = [pick(ev.args[0], dec) for ev in st if specialise(conj(unraised(e, ev.guards)), dec) is not const(False)]
            if given:
                ok = all(v is outd for v in vs)
            else:
                ok = len(vs) == 1 and ind in subterms(vs[0]) and any(x.op == 'const' and str(x.a[0]).endswith('report.rdb.gz') for x in subterms(vs[0]))
            ctx.ob('saved', ok, f"{pa} {'given' if given else 'default'}", f"the path of the report is {[show(v)[:80] for v in vs]}")
    for q, path in ((f"{LA}.main", None), ('klayout_pex.kpex_cli.KpexCLI.run_magic_extraction', None)):
        e = ctx.analyse(q, opaque=[pa, f"{LA}.MagicLogAnalyzer", f"{XP}.parse_magic_pex_run", f"{MR}.prepare_magic_script", f"{MR}.run_magic"])
        an = [ev for ev in e.events if ev.kind == 'call' and ev.callee.endswith('.analyze')]
        sv = [ev for ev in e.events if ev.kind == 'call' and ev.callee == '.save']
        if not ctx.ob('saved', len(an) == 1 and len(sv) == 1, q, 'the run is not analysed and saved once'):
            continue
        m = an[0].recv
        ok = m is not None and m.op in ('new', 'call')
        f = {}
        if ok:
            f = dict(zip([x for x in ctx.prog.funcs[f"{LA}.MagicLogAnalyzer.__init__"].params if x != 'self'], cargs(m)))
            f.update(ckw(m))
        ok = ok and f.get('report') is sv[0].recv
        ctx.ob('saved', ok, q, 'the report that is saved is not the one that was filled', sv[0].loc)
        ctx.ob('saved', an[0].idx < sv[0].idx and set(sv[0].guards) <= set(an[0].guards) and set(an[0].guards) <= set(sv[0].guards), q, 'the report is saved before it is complete', sv[0].loc)
        r = f.get('magic_pex_run')
        ctx.ob('saved', r is not None and is_call(r, f"{XP}.parse_magic_pex_run"), q, 'the analysed run is not the one that was parsed', an[0].loc)
        if q.endswith('main'):
            ns = [ev.result for ev in e.events if ev.kind == 'call' and ev.callee == pa]
            ok = len(ns) == 1 and sv[0].args and sv[0].args[0] is T('attr', ns[0], 'output_rdb_path') and T('attr', ns[0], 'magic_log_dir_path') in subterms(r)
            ctx.ob('saved', ok, q, 'does not use the paths of the arguments', sv[0].loc)
        else:
            run_ = [ev for ev in e.events if ev.kind == 'call' and ev.callee == f"{MR}.run_magic"]
            scr = [ev for ev in e.events if ev.kind == 'call' and ev.callee == f"{MR}.prepare_magic_script"]
            pr = [ev for ev in e.events if ev.kind == 'call' and ev.callee == f"{XP}.parse_magic_pex_run"]
            if ctx.ob('saved', len(run_) == 1 and len(scr) == 1 and len(pr) == 1, q, 'Magic is not run once'):
                ctx.ob('saved', scr[0].idx < run_[0].idx < pr[0].idx, q, 'the script, the run and the analysis are not in this order', run_[0].loc)
                ctx.ob('saved', run_[0].kw.get('script_path') is scr[0].kw.get('script_path') is not None, q, 'another script is run than the one that is written', run_[0].loc)
                ctx.ob('saved', scr[0].kw.get('run_dir_path') in subterms(pr[0].args[0] if pr[0].args else next(iter(pr[0].kw.values()))), q,
                       'the directory that is analysed is not the one that Magic extracts to', pr[0].loc)
