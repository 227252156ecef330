"""Reader of the KLayout LVS decks: layer definitions, exported layer names, connections.

The Ruby subset of the decks is read as statements: layer expressions are parsed, everything else is skipped."""
from __future__ import annotations
import os
import re
from typing import *

from .model import AnalysisBroken

SOURCES = {'input', 'polygons', 'labels', 'get_polygons', 'get_labels', 'edges'}
KEYWORDS = {'if', 'unless', 'while', 'until', 'elsif', 'else', 'end', 'when', 'case', 'return', 'puts', 'def', 'class', 'module', 'begin', 'rescue',
            'and', 'or', 'not', 'do', 'then', 'true', 'false', 'nil', 'self', 'raise', 'super', 'next', 'break'}


class Stmt(NamedTuple):
    text: str
    file: str
    line: int


class Expr:
    """layer expression: op is 'layer' (name), 'gds' (pair), 'call' (name, receiver, arguments) or 'other'"""
    __slots__ = ('op', 'name', 'args', 'recv')

    def __init__(self, op, name=None, recv=None, args=()):
        self.op, self.name, self.recv, self.args = op, name, recv, list(args)


def uncomment(ln):
    out, q, i = '', None, 0
    while i < len(ln):
        c = ln[i]
        if q:
            out += c
            if c == '\\' and i + 1 < len(ln):
                out += ln[i + 1]
                i += 1
            elif c == q:
                q = None
        elif c in '"\'':
            q = c
            out += c
        elif c == '#' and (i == 0 or ln[i - 1] in ' \t;)(,]'):
            break
        else:
            out += c
        i += 1
    return out.rstrip()


def statements(path, root=None, seen=()) -> List[Stmt]:
    root = root or os.path.dirname(path)
    if path in seen:
        raise AnalysisBroken(f"{path} includes itself")
    with open(path, encoding='utf-8', errors='replace') as f:
        lines = f.read().splitlines()
    out: List[Stmt] = []
    buf, start, depth = '', 0, 0
    for no, ln in enumerate(lines, 1):
        m = re.match(r'\s*#\s*%include\s+(\S+)', ln)
        if m:
            cand = [os.path.join(os.path.dirname(path), m.group(1)), os.path.join(root, m.group(1))]
            q = next((c for c in cand if os.path.isfile(c)), None)
            if q is None:
                raise AnalysisBroken(f"{path}:{no} includes {m.group(1)}, which does not exist")
            out += statements(os.path.normpath(q), root, seen + (path,))
            continue
        s = uncomment(ln)
        if not s.strip() and not buf:
            continue
        if not buf:
            start = no
        buf = (buf + ' ' + s.strip()).strip()
        depth = sum(buf.count(c) for c in '([{') - sum(buf.count(c) for c in ')]}')
        if depth > 0 or re.search(r'[,&|+\\.]$', buf) or re.search(r'(?<![=<>!])=$', buf):
            buf = buf.rstrip('\\')
            if len(buf) < 40000:
                continue
        # a call chain may go on in the next line
        nxt = next((x.strip() for x in lines[no:no + 3] if x.strip() and not x.strip().startswith('#')), '')
        if nxt.startswith('.') and not nxt.startswith('..'):
            continue
        for part in split_top(buf, ';'):
            if part.strip():
                out.append(Stmt(part.strip(), path, start))
        buf = ''
    if buf.strip():
        out.append(Stmt(buf.strip(), path, start))
    return out


def split_top(s, sep):
    out, d, q, cur = [], 0, None, ''
    i = 0
    while i < len(s):
        c = s[i]
        if q:
            if c == q:
                q = None
        elif c in '"\'':
            q = c
        elif c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        elif d == 0 and s.startswith(sep, i):
            out.append(cur)
            cur = ''
            i += len(sep)
            continue
        cur += c
        i += 1
    out.append(cur)
    return out


TOKEN = re.compile(r'\s*(?:(\d+(?:\.\d+)?)|([A-Za-z_$@][\w]*[?!]?)|("(?:\\.|[^"])*"|\'(?:\\.|[^\'])*\')|(=>|::|[-+*/&|^.,(){}\[\]:<>=!?%]))')


class Parser:
    def __init__(self, s):
        self.toks = []
        i = 0
        while i < len(s):
            m = TOKEN.match(s, i)
            if not m or m.end() == i:
                if s[i:].strip():
                    self.toks.append(('?', s[i]))
                    i += 1
                    continue
                break
            i = m.end()
            for k, g in zip(('num', 'id', 'str', 'op'), m.groups()):
                if g is not None:
                    self.toks.append((k, g))
        self.i = 0

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else (None, None)

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def expr(self) -> Expr:
        a = self.unary()
        while self.peek()[0] == 'op' and self.peek()[1] in ('&', '|', '+', '-', '^', '*', '/'):
            op = self.next()[1]
            b = self.unary()
            a = Expr('call', {'&': 'and', '|': 'or', '+': 'join', '-': 'not', '^': 'xor'}.get(op, op), a, [b])
        return a

    def unary(self):
        if self.peek()[1] in ('-', '!'):
            self.next()
            return Expr('call', 'neg', self.unary())
        a = self.primary()
        while True:
            if self.peek() == ('op', '.') and self.peek(1)[0] == 'id':
                self.next()
                name = self.next()[1]
                args = self.args() if self.peek() == ('op', '(') else []
                a = Expr('call', name, a, args)
            elif self.peek() == ('op', '['):
                self.skip('[', ']')
                a = Expr('other')
            elif self.peek() == ('op', '::'):
                self.next()
                self.next()
            else:
                return a

    def skip(self, o, c):
        d = 0
        while self.i < len(self.toks):
            t = self.next()
            if t == ('op', o):
                d += 1
            elif t == ('op', c):
                d -= 1
                if d == 0:
                    return

    def args(self):
        self.next()
        out = []
        while self.peek()[0] is not None and self.peek() != ('op', ')'):
            if self.peek()[0] == 'op' and self.peek()[1] == ':' and self.peek(1)[0] == 'id':
                self.next()
                self.next()
                if self.peek() == ('op', '=>'):
                    self.next()
                    self.expr()
                out.append(Expr('other'))
            elif self.peek()[0] == 'id' and self.peek(1) == ('op', ':') and self.peek(2) != ('op', ':'):
                self.next()
                self.next()
                self.expr()
                out.append(Expr('other'))
            else:
                j = self.i
                out.append(self.expr())
                if self.i == j:
                    self.next()
            if self.peek() == ('op', ','):
                self.next()
            elif self.peek() != ('op', ')'):
                j = self.i
                self.expr()
                if self.i == j:
                    self.next()
        self.next()
        return out

    def primary(self):
        k, v = self.peek()
        if k == 'op' and v == '(':
            self.next()
            a = self.expr()
            if self.peek() == ('op', ')'):
                self.next()
            return a
        if k == 'id':
            self.next()
            if self.peek() == ('op', '('):
                return Expr('call', v, None, self.args())
            return Expr('layer', v)
        if k == 'num':
            self.next()
            return Expr('num', v)
        if k == 'str':
            self.next()
            return Expr('str', v[1:-1])
        return Expr('other')


COMBINING = {'and', 'or', 'join', 'merged', 'sized', 'raw', 'flatten', 'interacting', 'inside', 'outside', 'covering', 'holes', 'hulls', 'extents', 'dup'}


class Deck:
    def __init__(self, path):
        self.path = path
        self.stmts = statements(path)
        self.defs: Dict[str, List[Tuple[Expr, Stmt]]] = {}
        self.exported: Dict[str, Stmt] = {}
        self.connects: List[Tuple[str, str, Stmt]] = []
        self.arrays: Dict[str, Dict[str, Stmt]] = {}
        self.depth: Dict[int, int] = {}
        self.read()

    def words(self, s):
        out = []
        for m in re.finditer(r'%w(\(|\[|\{|<)(.*?)(\)|\]|\}|>)', s, re.S):
            out += m.group(2).split()
        if not out:
            m = re.fullmatch(r'\[(.*)\]', s.strip(), re.S)
            if m:
                out = re.findall(r'["\']([^"\']*)["\']', m.group(1)) + re.findall(r'(?<![\w"\'])[:](\w+)', m.group(1))
        return out

    def iterated(self, s):
        """words of '<array>.each ...'"""
        m = re.match(r'^(.*?)\.each(?:_with_index)?\b', s, re.S)
        if not m:
            return None
        src = m.group(1).strip()
        w = {}
        if re.fullmatch(r'\w+', src):
            return dict(self.arrays.get(src, {})) if src in self.arrays else None
        for part in split_top(src.strip('()'), '+') if not src.startswith('%w') else [src]:
            part = part.strip()
            if part in self.arrays:
                w.update(self.arrays[part])
            else:
                for x in self.words(part):
                    w[x] = None
        return w

    def read(self):
        loop: List[Optional[Dict[str, Stmt]]] = []       # blocks that are open
        for st in self.stmts:
            s = st.text
            # class and def bodies hold no layer definitions of the deck
            inside = any(b == 'body' for b in loop)
            opened = None
            if re.match(r'^(class|module)\b', s) or re.match(r'^def\b', s):
                opened = 'body'
            it = self.iterated(s) if not inside else None
            if it is not None:
                it = {k: v or st for k, v in it.items()}
            m = re.search(r'(?:\bdo|\{)\s*\|\s*(\w+)[^|]*\|', s)
            if it is not None and m:
                opened = ('each', it, m.group(1))
                tail = s[m.end():]
                if tail.strip():
                    self.block_stmt(tail, opened, st)
            elif re.search(r'\bdo\b(\s*\|[^|]*\|)?\s*$', s) and opened is None:
                opened = 'block'
            elif re.match(r'^(if|unless|while|until|case|begin|for)\b', s) or re.search(r'(?<![=<>!])=\s*(case|if|begin|unless)\b', s):
                opened = 'block'
            one_line = re.search(r'(\bend|\})\s*$', s) and opened is not None and not re.match(r'^\s*end\b', s)
            if opened is not None and not (opened == 'body' and one_line):
                if one_line:
                    pass
                else:
                    loop.append(opened)
                    self.assign(s, st, inside)
                    continue
            if re.match(r'^end\b', s):
                if loop:
                    loop.pop()
                continue
            if re.match(r'^\}', s):
                if loop and isinstance(loop[-1], tuple):
                    loop.pop()
                continue
            if inside:
                continue
            for b in loop:
                if isinstance(b, tuple):
                    self.block_stmt(s, b, st)
            self.assign(s, st, inside)

    def block_stmt(self, s, blk, st):
        _, names, var = blk
        if re.search(r'\bname\s*\(?\s*eval\s*\(?\s*' + re.escape(var) + r'\b[^,]*,\s*' + re.escape(var) + r'\b', s):
            for n, at in names.items():
                self.exported.setdefault(n, at)

    def assign(self, s, st, inside):
        if inside:
            return
        s = re.split(r'\s+(?:if|unless)\s+(?=[^"\']*$)', s)[0] if not re.match(r'^(if|unless)\b', s) else s
        m = re.match(r'^(\w+)\s*(\+?=|<<|\.concat\(|\.push\()(?!=)\s*(.*)$', s, re.S)
        if m:
            name, op, rhs = m.groups()
            if op in ('+=', '<<', '.concat(', '.push('):
                ws = self.words(rhs.rstrip(')') + (')' if '%w(' in rhs else '')) or re.findall(r'^["\'](\w+)["\']', rhs)
                for part in split_top(rhs, '+'):
                    if part.strip() in self.arrays:
                        ws += list(self.arrays[part.strip()])
                if name in self.arrays:
                    for w in ws:
                        self.arrays[name][w] = st
                return
            if rhs.strip() == '[]' or rhs.startswith('%w') or re.match(r'^\[\s*["\':]', rhs):
                self.arrays[name] = {w: st for w in self.words(rhs)}
                return
            if re.match(r'^(case|if|begin|lambda|proc|->)\b', rhs):
                self.defs.setdefault(name, []).append((Expr('other'), st))
                return
            try:
                self.defs.setdefault(name, []).append((Parser(rhs).expr(), st))
            except RecursionError:
                self.defs.setdefault(name, []).append((Expr('other'), st))
            return
        m = re.match(r'^connect\s*\(?\s*(.*?)\)?\s*$', s, re.S)
        if m and re.match(r'^connect\b(?!_)', s):
            ps = [p.strip() for p in split_top(m.group(1), ',')]
            if len(ps) == 2 and all(re.fullmatch(r'\w+', p) for p in ps):
                self.connects.append((ps[0], ps[1], st))
            return
        m = re.match(r'^name\s*\(\s*(\w+)\s*,\s*["\'](\w+)["\']\s*\)', s)
        if m:
            self.exported.setdefault(m.group(2), st)
            if m.group(1) != m.group(2):
                self.defs.setdefault(m.group(2), []).append((Expr('layer', m.group(1)), st))

    # ------------------------------------------------------------
    def gds(self, e: Expr):
        if e.op == 'call' and e.recv is None and e.name and len(e.args) >= 2 and all(a.op == 'num' for a in e.args[:2]) and \
                (e.name in SOURCES or re.search(r'polygon|label|text|layer|input', e.name)):
            return int(e.args[0].name), int(e.args[1].name)
        if e.op == 'call' and e.recv is None and e.args and e.args[0].op == 'call' and e.args[0].name == '/' and \
                e.args[0].recv is not None and e.args[0].recv.op == 'num' and e.args[0].args[0].op == 'num':
            return int(e.args[0].recv.name), int(e.args[0].args[0].name)
        return None

    def roots(self, name, seen=()) -> Set[tuple]:
        """drawn layers that the shapes of a layer belong to: the receivers of its derivation"""
        if name in seen:
            return set()
        out = set()
        for e, _ in self.defs.get(name, []):
            out |= self.root(e, seen + (name,))
        return out

    def root(self, e: Expr, seen=()):
        g = self.gds(e)
        if g:
            return {g}
        if e.op == 'layer':
            return self.roots(e.name, seen)
        if e.op == 'call' and e.recv is not None:
            r = self.root(e.recv, seen)
            if e.name in ('or', 'join', 'xor'):
                for a in e.args:
                    r = r | self.root(a, seen)
            return r
        return set()

    def all_roots(self, name, seen=()):
        """drawn layers that a layer is the intersection or union of"""
        if name in seen:
            return set()
        out = set()
        for e, _ in self.defs.get(name, []):
            out |= self.all_root(e, seen + (name,))
        return out

    def all_root(self, e, seen=()):
        g = self.gds(e)
        if g:
            return {g}
        if e.op == 'layer':
            return self.all_roots(e.name, seen)
        out = set()
        if e.op == 'call':
            if e.recv is not None:
                out |= self.all_root(e.recv, seen)
            if e.name in ('and', 'or', 'join', 'xor'):
                for a in e.args:
                    out |= self.all_root(a, seen)
        return out

    def graph(self):
        g: Dict[str, Set[str]] = {}
        for a, b, _ in self.connects:
            g.setdefault(a, set()).add(b)
            g.setdefault(b, set()).add(a)
        return g
