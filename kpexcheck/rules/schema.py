"""C22 code and message schema."""
import ast
import json
import os
import re
import shutil
import subprocess
import tempfile
from ..core import check, Ctx, REPO
from ..stubs import generate

PKG = 'klayout_pex'
STUB_METHODS = {'HasField', 'ClearField', 'WhichOneof', 'CopyFrom', 'MergeFrom', 'append', 'extend', 'insert', 'add', '__init__',
                '__setitem__', 'Name', 'Value'}
CONFIG = {"include": [PKG], "typeCheckingMode": "basic", "pythonVersion": "3.12", "venvPath": "/opt", "venv": "venv",
          "reportUnnecessaryComparison": "error", "reportUnnecessaryContains": "error"}


def expose_cases(path):
    """In the scratch copy, each match statement also compares its subject with the value of every case, on the same line."""
    with open(path, encoding='utf-8') as f:
        src = f.read()
    try:
        tree = ast.parse(src)
    except SyntaxError:
        return
    lines = src.split('\n')
    for n in sorted((n for n in ast.walk(tree) if isinstance(n, ast.Match)), key=lambda n: -n.lineno):
        s = n.subject
        vals = [ast.unparse(v.value) for c in n.cases for v in ast.walk(c.pattern) if isinstance(v, ast.MatchValue)
                and isinstance(v.value, ast.Attribute) and isinstance(c.pattern, (ast.MatchValue, ast.MatchOr))]
        if s.lineno == s.end_lineno and vals and not isinstance(s, (ast.Tuple, ast.Starred)):
            ln = lines[s.lineno - 1].encode()
            t = ln[s.col_offset:s.end_col_offset].decode()
            new = f"({t}, {', '.join(f'({t}) == ({v})' for v in vals)})[0]"
            lines[s.lineno - 1] = (ln[:s.col_offset] + new.encode() + ln[s.end_col_offset:]).decode()
    with open(path, 'w', encoding='utf-8') as f:
        f.write('\n'.join(lines))


def check_types(root, protos):
    """(diagnostics of the type checker, summary, classes of the declarations, declared read of messages)"""
    d = tempfile.mkdtemp(prefix='kpexcheck-schema-')
    try:
        shutil.copytree(os.path.join(root, PKG), os.path.join(d, PKG), ignore=shutil.ignore_patterns('__pycache__'))
        for b, _, fs in os.walk(os.path.join(d, PKG)):
            for f in fs:
                if f.endswith('.py'):
                    expose_cases(os.path.join(b, f))
        names = generate(protos, d)
        with open(os.path.join(d, 'pyrightconfig.json'), 'w') as f:
            json.dump(CONFIG, f)
        r = subprocess.run(['pyright', '--outputjson', '-p', d], capture_output=True, text=True, timeout=600, cwd=d)
        o = json.loads(r.stdout)
        for x in o['generalDiagnostics']:
            x['file'] = os.path.relpath(x['file'], d)
        return o['generalDiagnostics'], o['summary'], names
    finally:
        shutil.rmtree(d, ignore_errors=True)


def parts(ty):
    ps = {x.strip() for x in ty.split('|')}
    return ps - {'Unknown'} or ps


def is_message(names, protos, n):
    return names.get(n) in protos.messages


def is_enum(names, protos, n):
    return names.get(n) in protos.enums


def kind_of(ty, names, protos):
    """coarse kind of one printed type: message/enum class, repeated, text, number, or None if it is not known"""
    if is_message(names, protos, ty):
        return ('message', ty)
    if is_enum(names, protos, ty):
        return ('enum', ty)
    if ty.startswith(('PB_list_', 'PB_repeated')):
        return ('repeated', None)
    if ty in ('str', 'LiteralString') or re.match(r"Literal\[['\"]", ty):
        return ('text', None)
    if ty in ('int', 'float', 'bool') or re.match(r"Literal\[[-\d]", ty):
        return ('number', None)
    if ty.startswith(('List[', 'list[', 'Dict[', 'dict[', 'Tuple[', 'tuple[', 'Set[', 'set[')):
        return ('container', None)
    return None


def clash(offered, wanted, names, protos):
    """every alternative that is offered is of a kind that the field does not take"""
    w = {kind_of(x, names, protos) for x in parts(wanted)} - {None}
    if not w:
        return False
    for o in parts(offered):
        k = kind_of(o, names, protos)
        if k is None:
            return False
        for x in w:
            if k == x or k[0] == x[0] == 'container':
                return False
            if k[0] == 'number' and x[0] in ('number', 'enum'):
                return False
            if k[0] == 'enum' and x[0] == 'number':
                return False
            if k[0] == 'enum' == x[0] and k[1] != x[1]:
                continue
            if {k[0], x[0]} == {'repeated', 'container'}:
                return False
    return True


def callee_at(tree, line, col):
    """innermost call whose keyword starts at this position"""
    best = None
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            for k in n.keywords:
                if k.arg is not None and (k.lineno, k.col_offset) == (line, col):
                    best = n
    return best


def schema_violation(x, names, protos, trees, pb_names):
    """(what, name) if the diagnostic shows a use that the schema does not declare"""
    msg, rule = x['message'], x.get('rule', '')
    flat = msg.replace('\n', ' ')
    m = re.search(r'"([\w.]+)" is (?:not a known attribute of module|unknown import symbol)', msg)
    if m and rule == 'reportAttributeAccessIssue' and 'klayout_pex_protobuf' in msg:
        return 'undeclared-symbol', m.group(1)
    if 'could not be resolved' in msg and '"klayout_pex_protobuf' in msg and rule == 'reportMissingImports':
        return 'undeclared-module', re.search(r'"(.*?)"', msg).group(1)
    if m and 'unknown import symbol' in msg and rule == 'reportAttributeAccessIssue':
        src = trees[x['file']][1].splitlines()[x['range']['start']['line']]
        return ('undeclared-symbol', m.group(1)) if 'klayout_pex_protobuf' in src or '_pb2' in src else None
    m = re.search(r'Cannot (?:access|assign to|delete) attribute "(\w+)" for class "(?:type\[)?(\w+)(?:\[.*?\])?\]?\*?"', msg)
    if m and m.group(2).startswith('PB_'):
        if 'is unknown' in msg:
            return 'undeclared-field', f"{m.group(2)[3:]}.{m.group(1)}"
        if 'to "property"' in msg or 'setter' in msg or 'read-only' in msg:
            return 'assigned', f"{m.group(2)[3:]}.{m.group(1)}"
        t = re.search(r'Type "(.*?)" is not assignable to type "(.*?)"', flat)
        if t and clash(t.group(1), t.group(2), names, protos):
            return 'wrong-type', f"{m.group(2)[3:]}.{m.group(1)}"
        return None
    m = re.search(r'Type "(.*?)" is not assignable to attribute "(\w+)" of class "(PB_\w+)"', flat)
    if m:
        want = re.findall(r'is not assignable to "([^"]*)"', flat[m.end():])
        if 'property' in want:
            return 'assigned', f"{m.group(3)[3:]}.{m.group(2)}"
        if want and clash(m.group(1), ' | '.join(want), names, protos):
            return 'wrong-type', f"{m.group(3)[3:]}.{m.group(2)}"
        return None
    m = re.search(r'Argument of type "(.*?)" cannot be assigned to parameter "(\w+)" of type "(.*?)" in function "(\w+)"', flat)
    if m:
        off, par, want, fn = m.groups()
        if fn in STUB_METHODS and fn in ('HasField', 'ClearField', 'WhichOneof') and par in ('field_name', 'oneof_group'):
            return ('no-presence', off) if re.match(r"Literal\[", off) else None
        msgs = {p for p in parts(want) if is_message(names, protos, p)}
        offs = parts(off)
        if msgs and offs and all(is_message(names, protos, o) for o in offs) and not offs & msgs:
            return 'wrong-message', f"{fn}({par})"
        if fn in STUB_METHODS and 'PB_' in want + off and clash(off, want, names, protos):
            return 'wrong-type', f"{fn}({par})"
        if fn in ('__init__', 'add'):
            c = callee_at(trees[x['file']][0], x['range']['start']['line'] + 1, x['range']['start']['character'])
            if c is None:
                for n in ast.walk(trees[x['file']][0]):
                    if isinstance(n, ast.Call) and any((k.value.lineno, k.value.col_offset) ==
                                                       (x['range']['start']['line'] + 1, x['range']['start']['character']) for k in n.keywords):
                        c = n
            if c is not None and pb_call(c, pb_names) and clash(off, want, names, protos):
                return 'wrong-type', f"{fn}({par})"
        return None
    m = re.search(r'No parameter named "(\w+)"', msg)
    if m:
        c = callee_at(trees[x['file']][0], x['range']['start']['line'] + 1, x['range']['start']['character'])
        return ('undeclared-field', m.group(1)) if c is not None and pb_call(c, pb_names) else None
    if rule in ('reportUnnecessaryComparison', 'reportUnnecessaryContains'):
        ts = re.findall(r'"((?:PB_)\w+)"', msg)
        if len(set(ts)) == 2 and all(is_enum(names, protos, t) or is_message(names, protos, t) for t in ts):
            return 'unrelated-comparison', ' / '.join(t[3:] for t in ts)
        return None
    if rule in ('reportIndexIssue', 'reportGeneralTypeIssues', 'reportAttributeAccessIssue', 'reportCallIssue', 'reportOperatorIssue') and \
            re.search(r'"PB_\w+(\[.*?\])?"', msg) and re.search(r'is not iterable|__iter__|__getitem__|__setitem__|not callable|Operator|__enter__', msg):
        n = re.search(r'"(PB_\w+)', msg).group(1)
        return ('wrong-cardinality', n[3:]) if not is_enum(names, protos, n) else None
    return None


def pb_call(c, pb_names):
    f = c.func
    if isinstance(f, ast.Attribute) and f.attr == 'add':
        return True
    last = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
    root = f
    while isinstance(root, ast.Attribute):
        root = root.value
    return last in pb_names and (isinstance(f, ast.Name) or isinstance(root, ast.Name))


@check('C22', 'type check of the program against strict declarations of the messages, generated from the schema',
       'Decides, for every expression whose type is inferred to be a message, that its fields, enumeration values, presence tests, nested '
       'messages and constructor arguments are declared, that repeated and message fields are not assigned, and that enumerations are not '
       'mixed. Expressions of unknown type (unannotated parameters that no inference reaches) are not checked. The C++ generator is '
       'compiled against the same schema by the build.')
def c22(ctx: Ctx):
    """Every use of a message is declared in the schema."""
    P = ctx.prog
    protos = P.protos
    ctx.need(len(protos.messages) >= 20 and len(protos.enums) >= 3, 'the message schema is gone')
    diags, summary, names = check_types(REPO, protos)
    ctx.need(summary['filesAnalyzed'] >= 20, f"the type checker analysed {summary['filesAnalyzed']} files")
    trees = {}
    for m in P.modules.values():
        trees[m.rel] = (m.tree, m.src)
    for x in diags:
        if x['file'] not in trees:
            p = os.path.join(REPO, x['file'])
            if os.path.exists(p):
                with open(p, encoding='utf-8') as fh:
                    s = fh.read()
                try:
                    trees[x['file']] = (ast.parse(s), s)
                except SyntaxError:
                    trees[x['file']] = (ast.parse(''), s)
    pb_names = {q.rpartition('.')[2] for q in protos.messages}
    where = {}
    for f in P.funcs.values():
        where.setdefault(f.module.rel, []).append((f.node.lineno, f.node.end_lineno, f.qual))
    bad = {}
    for x in diags:
        if x['severity'] != 'error' or x['file'] not in trees:
            continue
        v = schema_violation(x, names, protos, trees, pb_names)
        if v is None:
            continue
        ln = x['range']['start']['line'] + 1
        inner = min((e - s, q) for s, e, q in where.get(x['file'], [(0, 10 ** 9, x['file'])]) + [(0, 10 ** 9, x['file'])] if s <= ln <= e)[1] \
            if True else None
        bad.setdefault(x['file'], []).append((v[0], f"{inner}:{v[1]}", x['message'].split('\n')[0], f"{x['file']}:{ln}"))
    # obligations: one per module and message that it uses
    for m in P.modules.values():
        uses = sorted({t for t in m.imports.values() if '_pb2' in t or 'klayout_pex_protobuf' in t})
        if uses and m.rel not in bad:
            for u in uses:
                ctx.ob('declared', True, f"{m.name} uses {u}")
    for rel, vs in bad.items():
        for rule, construct, msg, loc in vs:
            ctx.fail(rule, construct, msg, loc)
    for q in sorted(protos.messages):
        ctx.analysed.add(q)
    for m in P.modules.values():
        ctx.analysed.add(m.name)
    ctx.notes.append(f"{summary['filesAnalyzed']} files, {len(protos.messages)} messages, {len(protos.enums)} enumerations; "
                     f"{sum(1 for x in diags if x['severity'] == 'error')} diagnostics of the type checker, of which "
                     f"{sum(len(v) for v in bad.values())} are about the schema")


# ------------------------------------------------------------------------------------------------ C54
ARGS = re.compile(r'No parameter named|^Expected \d+ positional argument|^Arguments? missing for parameter|^Expected 0 positional')


def annotated_lines(tree):
    """positions inside annotations, which are not evaluated"""
    out = set()
    for n in ast.walk(tree):
        a = [getattr(n, 'annotation', None), getattr(n, 'returns', None)]
        for x in a:
            if isinstance(x, ast.AST):
                for y in ast.walk(x):
                    if hasattr(y, 'lineno'):
                        out.add((y.lineno, y.col_offset))
    return out


def loosely_set(tree):
    """attributes set through a parameter without annotation (not a method's first), or by setattr: the type checker attributes them to no class"""
    out = set()
    methods = {f for c in ast.walk(tree) if isinstance(c, ast.ClassDef) for f in c.body}
    for f in ast.walk(tree):
        if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            ps = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs if a.annotation is None]
            if f in methods and ps and not any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.decorator_list):
                ps = ps[1:]
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ps:
                    out.add(n.attr)
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == 'setattr' and len(f.args) == 3 and isinstance(f.args[1], ast.Constant):
            out.add(f.args[1].value)
    return out


def undefined_use(x, ctx, own, enums, tree, src):
    """(rule, name) if the diagnostic shows a name, attribute, import or parameter that is not there"""
    msg, rule = x['message'], x.get('rule', '')
    at = (x['range']['start']['line'] + 1, x['range']['start']['character'])
    if rule in ('reportUndefinedVariable', 'reportUnboundVariable'):
        lazy = any(isinstance(n, ast.ImportFrom) and n.module == '__future__' and any(a.name == 'annotations' for a in n.names) for n in tree.body)
        if lazy and at in annotated_lines(tree):
            return None
        m = re.search(r'"(\w+)" is (?:not defined|unbound)', msg)
        return ('names', m.group(1)) if m else None
    if rule == 'reportAttributeAccessIssue':
        m = re.search(r'"([\w.]+)" is (?:not a known attribute of module "([\w.]+)"|unknown import symbol)', msg)
        if m:
            mod = m.group(2)
            if mod is None:
                node = next((n for n in ast.walk(tree) if isinstance(n, ast.ImportFrom) and n.lineno <= at[0] <= n.end_lineno), None)
                mod = ('.' * node.level + (node.module or '')) if node is not None else ''
            return ('imports', m.group(1)) if mod.startswith((PKG + '.', '.')) or mod == PKG else None
        m = re.search(r'Cannot (?:access|delete) attribute "(\w+)" for class "(?:type\[)?(\w+)(?:\[.*?\])?\]?\*?"', msg)
        if m and 'is unknown' in msg and m.group(2) in own and m.group(2) not in enums and m.group(1) not in loosely_set(tree):
            return 'attributes', m.group(1)
        return None
    if rule == 'reportMissingImports':
        m = re.search(r'"(klayout_pex(?!_protobuf)[\w.]*|\.[\w.]*)"', msg)
        return ('imports', m.group(1)) if m else None
    if rule == 'reportCallIssue' and ARGS.search(msg):
        return 'arguments', re.sub(r'\s+', ' ', msg.split('\n')[0])
    if rule == 'reportArgumentType':
        m = re.match(r'Argument of type "([\w.]+)" cannot be assigned to parameter "(\w+)" of type "([\w.]+)" in function', msg)
        if m and (m.group(1) in own or m.group(3) in own) and (m.group(1) in own or m.group(1) in ('str', 'int', 'float', 'bool')) and \
                (m.group(3) in own or m.group(3) in ('str', 'int', 'float', 'bool')):
            return 'arguments', f"{m.group(2)}: {m.group(1)} for {m.group(3)}"
    return None


@check('C54', 'type checking: names, attributes, imports and parameters are resolved against their declarations',
       'Decides, for every expression whose type is inferred to be a class or function of klayout-pex, that the attribute exists and that the '
       'arguments match the parameters; every name and import of the package resolves. Dynamic accesses (getattr) and expressions of unknown type are not '
       'checked; neither are attributes of KLayout objects, whose declarations are incomplete.')
def c54(ctx: Ctx):
    """Every module of the package."""
    P = ctx.prog
    diags, summary, names = check_types(REPO, P.protos)
    ctx.need(summary['filesAnalyzed'] >= 20, f"the type checker analysed {summary['filesAnalyzed']} files")
    own = {c.qual.rpartition('.')[2] for c in P.classes.values()}
    enums = {c.qual.rpartition('.')[2] for c in P.classes.values() if P.enum_members(c.qual)}
    where = {}
    for f in P.funcs.values():
        where.setdefault(f.module.rel, []).append((f.node.lineno, f.node.end_lineno, f.qual))
    mods = {m.rel: m for m in P.modules.values()}
    bad = {}
    for x in diags:
        m = mods.get(x['file'])
        if m is None or x['severity'] != 'error':
            continue
        v = undefined_use(x, ctx, own, enums, m.tree, m.src)
        if v is None:
            continue
        ln = x['range']['start']['line'] + 1
        inner = min([(e - s, q) for s, e, q in where.get(m.rel, []) if s <= ln <= e] or [(0, m.name)])[1]
        bad.setdefault(m.rel, []).append((v[0], f"{inner}:{v[1]}", x['message'].split('\n')[0], f"{x['file']}:{ln}"))
    for m in P.modules.values():
        ctx.analysed.add(m.name)
        for r in ('names', 'attributes', 'imports', 'arguments'):
            if not any(v[0] == r for v in bad.get(m.rel, [])):
                ctx.ob(r, True, m.name)
    for vs in bad.values():
        for rule, construct, msg, loc in vs:
            ctx.fail(rule, construct, msg, loc)
    ctx.notes.append(f"{summary['filesAnalyzed']} files, {len(own)} classes, {len(P.funcs)} functions")
