"""Queries over terms and events."""
from __future__ import annotations
from fractions import Fraction
from typing import *
from .vfa import *
from .vfa import T, Event, Engine


# ------------------------------------------------------------------ structural helpers
def contains(t, pred) -> bool:
    return any(pred(x) for x in subterms(t))


def mentions(t, *subs) -> bool:
    return any(x in subs for x in subterms(t))


def is_param(t, name=None):
    return t.op == 'param' and (name is None or t.a[0] == name)


def is_call(t, *names):
    """call/new term of a function whose dotted name ends with one of the names ('.x': method x)"""
    if t.op not in ('call', 'new') or not isinstance(t.a[0], str):
        return False
    return any(t.a[0] == n or t.a[0].endswith('.' + n.lstrip('.')) for n in names)


def is_new(t, cls=None):
    return t.op == 'new' and (cls is None or (isinstance(t.a[0], str) and (t.a[0] == cls or t.a[0].endswith('.' + cls))))


def is_attr(t, name):
    return t.op == 'attr' and t.a[1] == name


def is_ref(t, suffix):
    return t.op == 'ref' and (t.a[0] == suffix or t.a[0].endswith('.' + suffix))


def cargs(t):
    return t.a[1]


def ckw(t):
    r = KW(t.a[2])
    ps = param_names(CURRENT[0], t.a[0]) if CURRENT[0] is not None and isinstance(t.a[0], str) else None
    if ps:
        f = CURRENT[0].funcs.get(t.a[0])
        a = t.a[1][1:] if t.op == 'call' and f is not None and (
            f.kind == 'method' or f.kind == 'classmethod' and t.a[1] and t.a[1][0].op == 'ref') else t.a[1]
        r.pos = dict(zip(ps, a))
    return r


def strip(t, memo=None):
    """forget the site numbers: structural comparison of values of different loops/sites"""
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(strip(x, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in memo:
        return memo[t]
    if t.op in ('elem', 'index', 'key', 'val'):
        r = T(t.op, strip(t.a[0], memo), 0)
    elif t.op == 'new':
        r = T('new', t.a[0], strip(t.a[1], memo), tuple((k, strip(v, memo)) for k, v in t.a[2]), 0)
    elif t.op == 'call':
        r = T('call', strip(t.a[0], memo), strip(t.a[1], memo), tuple((k, strip(v, memo)) for k, v in t.a[2]))
    elif t.op == 'lit':
        r = T('lit', t.a[0], strip(t.a[1], memo), 0)
    elif t.op == 'exists':
        r = T('exists', strip(t.a[0], memo), 0, strip(t.a[2], memo))
    elif t.op in ('const', 'param', 'ref'):
        r = t
    else:
        r = T(t.op, *[strip(x, memo) for x in t.a])
    memo[t] = r
    return r


def subst(t, m, memo=None):
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op == 'const':
        return t
    r = T(t.op, *[subst(x, m, memo) for x in t.a])
    if r.op == 'item' and r.a[0].op == 'tuple' and r.a[1].op == 'const' and isinstance(r.a[1].a[0], int) and \
            -len(r.a[0].a) <= r.a[1].a[0] < len(r.a[0].a):
        r = r.a[0].a[r.a[1].a[0]]
    memo[t] = r
    return r


def same(a, b):
    return strip(a) is strip(b)


def leaves(t):
    """value alternatives of gated terms"""
    if t.op == 'ite':
        yield from leaves(t.a[1])
        yield from leaves(t.a[2])
    else:
        yield t


def gated_leaves(t, cond=()):
    """[(conditions, value)]"""
    if t.op == 'ite':
        la = literals(t.a[0], True) or []
        lb = literals(t.a[0], False) or []
        yield from gated_leaves(t.a[1], cond + tuple(la))
        yield from gated_leaves(t.a[2], cond + tuple(lb))
    else:
        yield cond, t


# ------------------------------------------------------------------ arithmetic normal form
# polynomial: dict monomial -> Fraction; monomial: tuple of (atom, exponent) sorted
def _mmul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
        if d[k] == 0:
            del d[k]
    return tuple(sorted(d.items(), key=lambda x: repr(x[0]) if not isinstance(x[0], T) else show(x[0])))


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) + s * c
        if r[m] == 0:
            del r[m]
    return r


def pmul(p, q):
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mmul(m, n)
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0:
                del r[k]
    return r


def pkey(p):
    return tuple(sorted(((tuple((a if not isinstance(a, T) else a, e) for a, e in m), c) for m, c in p.items()),
                        key=lambda x: repr(x)))


def pinv(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -e) for a, e in m): 1 / c}
    return {((('poly', pkey(p)), -1),): Fraction(1)}


def num(v):
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        return Fraction(repr(v))
    return None


def pnorm(t: T, rewrite=None, memo=None) -> dict:
    """rational normal form of an arithmetic term.  rewrite(term) may return a term/poly to use instead."""
    if rewrite is not None:
        r = rewrite(t)
        if isinstance(r, dict):
            return r
        if r is not None and r is not t:
            t = r
    if t.op == 'const':
        n = num(t.a[0])
        if n is not None:
            return {(): n} if n else {}
    if t.op == 'bin':
        op, a, b = t.a
        if op in '+-':
            return padd(pnorm(a, rewrite), pnorm(b, rewrite), 1 if op == '+' else -1)
        if op == '*':
            return pmul(pnorm(a, rewrite), pnorm(b, rewrite))
        if op == '/':
            return pmul(pnorm(a, rewrite), pinv(pnorm(b, rewrite)))
        if op == '**' and b.op == 'const' and isinstance(b.a[0], (int, float)) and float(b.a[0]).is_integer() \
                and abs(b.a[0]) <= 6:
            e = int(b.a[0])
            p = pnorm(a, rewrite)
            r = {(): Fraction(1)}
            for _ in range(abs(e)):
                r = pmul(r, p)
            return r if e >= 0 else pinv(r)
    if t.op == 'un' and t.a[0] == '-':
        return pmul({(): Fraction(-1)}, pnorm(t.a[1], rewrite))
    if t.op == 'un' and t.a[0] == '+':
        return pnorm(t.a[1], rewrite)
    if is_call(t, 'float') and len(cargs(t)) == 1:
        return pnorm(cargs(t)[0], rewrite)
    if is_call(t, 'math.pow') and len(cargs(t)) == 2:
        return pnorm(T('bin', '**', *cargs(t)), rewrite)
    return {((t, 1),): Fraction(1)}


def atom(x):
    return {((x, 1),): Fraction(1)}


def pconst(v):
    f = Fraction(repr(v)) if isinstance(v, float) else Fraction(v)
    return {(): f} if f else {}


def pshow(p):
    def sa(a):
        if isinstance(a, tuple) and a and a[0] == 'poly':
            return '(' + ' + '.join(f"{c}·" + '·'.join(f"{sa(x)}^{e}" for x, e in m) for m, c in a[1]) + ')'
        return show(a) if isinstance(a, T) else str(a)
    return ' + '.join(f"{float(c):g}" + ''.join(f"·{sa(a)}" + (f"^{e}" if e != 1 else '') for a, e in m)
                      for m, c in p.items()) or '0'


def arith_equal(t: T, expected: dict, rewrite=None) -> bool:
    return pnorm(t, rewrite) == expected


# ------------------------------------------------------------------ events
def calls(eng: Engine, name=None, recv=None, kind='call', pred=None) -> List[Event]:
    out = []
    for e in eng.events:
        if e.kind != kind:
            continue
        if name is not None:
            names = (name,) if isinstance(name, str) else name
            if not any(e.callee == n or e.callee.endswith('.' + n.lstrip('.')) for n in names):
                continue
        if recv is not None and not recv(e.recv):
            continue
        if pred is not None and not pred(e):
            continue
        out.append(e)
    return out


def loops_prefix(a, b):
    return len(a) <= len(b) and all(x is y for x, y in zip(a, b))


def dominates(a: Event, b: Event) -> bool:
    """on every path to b, a was executed before (in the same iteration of the loops that they share)"""
    return a.idx < b.idx and loops_prefix(a.loops, b.loops) and set(a.guards) <= set(b.guards)


def literal_facts(guards) -> set:
    return set(guards)


def implies(guards, cond_lits) -> bool:
    return all(l in guards for l in cond_lits)


def list_items(eng: Engine, t: T, at: Optional[Event] = None):
    """ordered contents of a list value: [(value, guards, loops)] (None if it is not a known list).
    Covers displays, concatenation, append/extend/+= and comprehensions."""
    before = at.idx if at is not None else 10 ** 9
    if is_call(t, 'list', 'tuple') and t.op == 'call' and len(cargs(t)) == 1:
        return list_items(eng, cargs(t)[0], at)
    if t.op == 'tuple':
        return _disp(eng, t.a, (), (), at)
    if t.op == 'lit' and t.a[0] in ('list', 'set', 'tuple'):
        out = _disp(eng, t.a[1], (), (), at)
        return _mods(eng, t, out, before, at)
    if t.op == 'bin' and t.a[0] == '+':
        a, b = list_items(eng, t.a[1], at), list_items(eng, t.a[2], at)
        if a is None and b is None:
            return None
        return (a if a is not None else [(T('star', t.a[1]), (), ())]) + \
               (b if b is not None else [(T('star', t.a[2]), (), ())])
    if t.op == 'comp':
        c = eng.comps[t.a[1]]
        own = [l for l in c['loops'] if l.elem is not None and l.iter is not None and _display(l.iter) is not None]
        if len(c['loops']) == 1 and own and t not in eng.mutated:
            # a comprehension over a display: one item per element
            return [(subst(c['elt'], {own[0].elem: x}), tuple((subst(g, {own[0].elem: x}), p) for g, p in c['guards']), ())
                    for x in _display(own[0].iter)]
        return _mods(eng, t, [(c['elt'], tuple(c['guards']), tuple(c['loops']))], before, at)
    if t.op == 'genf':
        return [(v, tuple(g), tuple(l)) for l, g, v in eng.comps[t.a[0]]['yields']]
    if t.op == 'ite':
        a, b = list_items(eng, t.a[1], at), list_items(eng, t.a[2], at)
        if a is None or b is None:
            return None
        # common prefix stays unguarded
        k = 0
        while k < len(a) and k < len(b) and a[k] == b[k]:
            k += 1
        la, lb = tuple(literals(t.a[0], True) or ()), tuple(literals(t.a[0], False) or ())
        return a[:k] + [(v, la + g, lp) for v, g, lp in a[k:]] + [(v, lb + g, lp) for v, g, lp in b[k:]]
    return None


def _display(t):
    """elements of a tuple or list display"""
    if t.op == 'tuple':
        elts = t.a
    elif t.op == 'lit' and t.a[0] in ('list', 'tuple'):
        elts = t.a[1]
    else:
        return None
    return elts if 0 < len(elts) <= 16 and not any(x.op == 'star' for x in elts) else None


def _mods(eng, t, out, before, at):
    """the items with what is appended afterwards"""
    for e in eng.by_recv.get(t, []):
        if e.idx >= before or e.kind != 'call':
            continue
        if e.callee in ('.append', '.add'):
            out.append((e.args[0], e.guards, e.loops))
        elif e.callee in ('.extend', '.update'):
            sub = list_items(eng, e.args[0], at)
            if sub is None:
                out.append((T('star', e.args[0]), e.guards, e.loops))
            else:
                out.extend((v, tuple(e.guards) + tuple(l for l in g if l not in e.guards),
                            tuple(e.loops) + tuple(l for l in lp if l not in e.loops)) for v, g, lp in sub)
        elif e.callee == '.insert':
            if is_const(e.args[0], 0):
                out.insert(0, (e.args[1], e.guards, e.loops))
            else:
                out.append((e.args[1], e.guards, e.loops))
    return out


def _disp(eng, elts, g, lp, at):
    out = []
    for x in elts:
        if x.op == 'star':
            sub = list_items(eng, x.a[0], at)
            if sub is None:
                out.append((x, g, lp))
            else:
                out.extend(sub)
        elif x.op == 'ite' and False:
            pass
        else:
            out.append((x, g, lp))
    return out


def dict_entries(eng: Engine, t: T):
    """[(key, value, guards, loops)] of a dict built by display, comprehension, dict(pairs) or item stores"""
    if t.op == 'lit' and t.a[0] == 'dict':
        out = [(k, v, (), ()) for k, v in t.a[1]]
        for e in eng.by_recv.get(t, []):
            if e.kind == 'setitem':
                out.append((e.args[0], e.args[1], e.guards, e.loops))
            elif e.kind == 'call' and e.callee == '.setdefault' and len(e.args) == 2:
                out.append((e.args[0], e.args[1], e.guards, e.loops))
            elif e.kind == 'call' and e.callee == '.update' and e.args:
                sub = dict_entries(eng, e.args[0])
                if sub is None:
                    return None
                out.extend((k, v, tuple(e.guards) + tuple(g), tuple(e.loops) + tuple(l)) for k, v, g, l in sub)
        return out
    if t.op == 'comp' and t.a[0] == 'dict':
        c = eng.comps[t.a[1]]
        return [(c['key'], c['elt'], tuple(c['guards']), tuple(c['loops']))] + \
            [(e.args[0], e.args[1], e.guards, e.loops) for e in eng.by_recv.get(t, []) if e.kind == 'setitem']
    if t.op in ('call', 'new') and is_call(t, 'dict') and len(cargs(t)) == 1:
        items = list_items(eng, cargs(t)[0])
        if items is None:
            return dict_entries(eng, cargs(t)[0])
        out = []
        for v, g, l in items:
            if v.op == 'tuple' and len(v.a) == 2:
                out.append((v.a[0], v.a[1], g, l))
            else:
                return None
        return out
    if is_new(t, 'defaultdict') or is_call(t, 'defaultdict'):
        return [(e.args[0], e.args[1], e.guards, e.loops) for e in eng.by_recv.get(t, []) if e.kind == 'setitem']
    return None


def field(eng: Engine, obj: T, name: str):
    """value of a field of a value object, at the end of the analysis or from its constructor"""
    v = None
    if eng.final is not None and (obj, name) in eng.final.heap:
        return eng.final.heap[(obj, name)]
    if obj.op == 'new':
        if name in ckw(obj):
            return ckw(obj)[name]
        c = eng.prog.classes.get(obj.a[0])
        if c is not None and c.is_dataclass and name in c.ann_order:
            i = c.ann_order.index(name)
            if i < len(cargs(obj)):
                return cargs(obj)[i]
    st = [e for e in eng.events if e.kind == 'store' and e.recv is obj and e.callee == name]
    if st:
        return st[-1].args[0]
    return None


def path_root(t: T):
    """follow os.path wrappers that keep the file (abspath, realpath, ...)"""
    while is_call(t, 'os.path.abspath', 'os.path.realpath', 'os.path.expanduser', 'str', 'pathlib.Path', 'os.fspath',
                  'os.path.normpath') and cargs(t):
        t = cargs(t)[0]
    if t.op == 'fstr' and len(t.a) == 1:
        return path_root(t.a[0])
    return t


# ------------------------------------------------------------------ call binding
def signature(prog, qual):
    """(parameter names without self/cls, defaults) of a function or class of the repository"""
    f = prog.funcs.get(qual)
    if f is None:
        c = prog.classes.get(qual)
        if c is None:
            return None
        init = None
        for k in [qual] + [b for b in getattr(c, 'bases', []) if isinstance(b, str)]:
            init = prog.funcs.get(f"{k}.__init__")
            if init:
                break
        if init is None:
            return list(c.ann_order) if c.is_dataclass else None
        return init.params[1:]
    if f.kind in ('method', 'classmethod', 'property'):
        return f.params[1:]
    return f.params


def bind(prog, ev: Event) -> Dict[str, T]:
    """arguments of a call by parameter name"""
    sig = signature(prog, ev.callee) or []
    out = {}
    args = list(ev.args)
    for n, v in zip(sig, args):
        out[n] = v
    for k, v in ev.kw.items():
        out[k] = v
    return out


def flat_join(t: T):
    """components of an os.path.join / Path '/' chain, outermost directory first"""
    t = path_root(t)
    if is_call(t, 'os.path.join') and cargs(t):
        return flat_join(cargs(t)[0]) + [x for y in cargs(t)[1:] for x in flat_join(y)]
    if is_call(t, '.joinpath') and cargs(t):
        return flat_join(cargs(t)[0]) + [x for y in cargs(t)[1:] for x in flat_join(y)]
    if t.op == 'bin' and t.a[0] == '/':
        return flat_join(t.a[1]) + flat_join(t.a[2])
    if t.op == 'fstr':
        # f"{dir}/rest"
        if len(t.a) >= 2 and t.a[1].op == 'const' and str(t.a[1].a[0]).startswith('/') and t.a[0].op != 'const':
            rest = str(t.a[1].a[0])[1:]
            tail = mk_str([const(rest)] + list(t.a[2:])) if rest or len(t.a) > 2 else None
            return flat_join(t.a[0]) + ([tail] if tail is not None else [])
    return [t]
