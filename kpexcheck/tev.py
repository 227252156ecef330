"""Evaluation of extracted index expressions: enumerates the iterations that a loop nest (range/enumerate/zip over sequences of a
given small length) makes, and the index, condition and arithmetic terms in it.  Index expressions are affine, so a few sizes decide
coverage; entries of sequences stay symbols and values are polynomials over them."""
from __future__ import annotations
from fractions import Fraction
from typing import *
from .vfa import T
from .q import is_call, cargs, ckw, padd, pmul, pinv, pconst


class Unsupported(Exception):
    pass


class Seq:
    """a sequence of given dimensions whose entries are symbols (name, index...)"""
    def __init__(self, name, dims, path=()):
        self.name, self.dims, self.path = name, tuple(dims), tuple(path)

    def __len__(self):
        return self.dims[0]

    def at(self, k):
        n = self.dims[0]
        if isinstance(k, dict):
            k = as_int(k)
        if not isinstance(k, int) or not -n <= k < n:
            raise Unsupported(f"index {k} of {self.name}")
        k %= n
        if len(self.dims) == 1:
            return {(((self.name,) + self.path + (k,), 1),): Fraction(1)}
        return Seq(self.name, self.dims[1:], self.path + (k,))

    def __eq__(self, o):
        return isinstance(o, Seq) and (self.name, self.dims, self.path) == (o.name, o.dims, o.path)

    def __hash__(self):
        return hash((self.name, self.dims, self.path))


def as_int(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, dict):
        if not v:
            return 0
        if list(v) == [()] and v[()].denominator == 1:
            return int(v[()])
    return None


def poly(v):
    if isinstance(v, dict):
        return v
    if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
        return pconst(v) if not isinstance(v, Fraction) else ({(): v} if v else {})
    raise Unsupported(f"not a number: {v!r}")


def symbol(v):
    """name of the sequence if the value is a single entry of one"""
    if isinstance(v, dict) and len(v) == 1:
        (m, c), = v.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple):
            return m[0][0][0]
    return None


class Tev:
    def __init__(self, base: Callable[[T, 'Tev'], object], eng=None):
        """base(term, self) gives the value of a leaf (a Seq, an int, a poly) or None"""
        self.base = base
        self.eng = eng
        self.active: Dict[int, int] = {}      # loop uid -> iteration
        self.outer: Dict[int, dict] = {}      # loop uid -> bindings outside the loop
        self.env: Dict[T, object] = {}
        self.distinct: Set[str] = set()        # sequences whose entries are different from each other

    def ev(self, t: T):
        if t in self.env:
            return self.env[t]
        r = self.base(t, self)
        if r is not None:
            return r
        op = t.op
        if op == 'mu' and self.eng is not None and t in self.eng.mu_info:
            return self.carried(t)
        if op == 'const':
            return t.a[0]
        if op == 'tuple':
            return tuple(self.ev(x) for x in t.a)
        if op == 'bin':
            a, b = self.ev(t.a[1]), self.ev(t.a[2])
            o = t.a[0]
            if o in ('%', '//'):
                x, y = as_int(a), as_int(b)
                if x is None or y is None:
                    raise Unsupported('division of symbols')
                return x % y if o == '%' else x // y
            p, q = poly(a), poly(b)
            if o == '+':
                return padd(p, q)
            if o == '-':
                return padd(p, q, -1)
            if o == '*':
                return pmul(p, q)
            if o == '/':
                return pmul(p, pinv(q))
            raise Unsupported(o)
        if op == 'un' and t.a[0] == '-':
            return pmul({(): Fraction(-1)}, poly(self.ev(t.a[1])))
        if op == 'ite':
            return self.ev(t.a[1]) if self.truth(t.a[0]) else self.ev(t.a[2])
        if op in ('cmp', 'not', 'and', 'or'):
            return self.truth(t)
        if op == 'item':
            b = self.ev(t.a[0])
            k = self.ev(t.a[1])
            if isinstance(b, Seq):
                return b.at(k)
            k = as_int(k)
            if isinstance(b, (tuple, list)) and k is not None and -len(b) <= k < len(b):
                return b[k]
            raise Unsupported('item')
        if op == 'slice':
            b = self.ev(t.a[0])
            s = slice(*[None if x.op == 'const' and x.a[0] is None else as_int(self.ev(x)) for x in t.a[1:4]])
            return [b.at(i) if isinstance(b, Seq) else b[i] for i in range(*s.indices(len(b)))]
        if is_call(t, 'len'):
            return len(self.ev(cargs(t)[0]))
        if is_call(t, 'float', 'int', 'list', 'tuple', 'iter') and len(cargs(t)) == 1:
            return self.ev(cargs(t)[0])
        if is_call(t, 'abs', 'min', 'max', 'sum') and cargs(t):
            v = [as_int(self.ev(x)) for x in cargs(t)]
            if None not in v:
                return dict(abs=lambda x: abs(x[0]), min=min, max=max, sum=sum)[t.a[0]](v)
        if is_call(t, 'sum') and len(cargs(t)) == 1:
            r = {}
            for x in self.seq(cargs(t)[0]):
                r = padd(r, poly(x))
            return r
        if is_call(t, 'range', 'reversed', 'enumerate', 'zip'):
            return self.seq(t)
        raise Unsupported(f"{op} {str(t)[:60]}")

    def truth(self, t: T) -> bool:
        if t.op == 'not':
            return not self.truth(t.a[0])
        if t.op in ('and', 'or'):
            stop = t.op == 'or'
            unk = None
            for x in t.a:
                try:
                    if self.truth(x) == stop:
                        return stop
                except Unsupported as u:
                    unk = u
            if unk is not None:
                raise unk
            return not stop
        if t.op == 'cmp' and t.a[0] in ('<', '==', '<=', '>', '>=', '!='):
            a, b = self.ev(t.a[1]), self.ev(t.a[2])
            x, y = as_int(a), as_int(b)
            if x is None or y is None:
                if t.a[0] in ('==', '!=') and symbol(a) in self.distinct and symbol(b) in self.distinct:
                    return (a == b) == (t.a[0] == '==')
                if t.a[0] in ('==', '!=') and isinstance(a, (Seq, str, tuple)) and isinstance(b, (Seq, str, tuple)):
                    return (a == b) == (t.a[0] == '==')
                raise Unsupported(f"comparison {str(t)[:60]}")
            return {'<': x < y, '==': x == y, '<=': x <= y, '>': x > y, '>=': x >= y, '!=': x != y}[t.a[0]]
        v = self.ev(t)
        if isinstance(v, dict):
            i = as_int(v)
            if i is None:
                raise Unsupported('truth of a symbol')
            return bool(i)
        return bool(v)

    def seq(self, it: T) -> list:
        if it in self.env:
            v = self.env[it]
            return list(v) if not isinstance(v, Seq) else [v.at(i) for i in range(len(v))]
        if it.op == 'call' and isinstance(it.a[0], str):
            fn, a = it.a[0], cargs(it)
            if fn == 'range':
                v = [as_int(self.ev(x)) for x in a]
                if None in v:
                    raise Unsupported('range')
                return list(range(*v))
            if fn == 'enumerate':
                st = as_int(self.ev(a[1])) if len(a) > 1 else as_int(self.ev(ckw(it)['start'])) if 'start' in ckw(it) else 0
                return [(i + st, x) for i, x in enumerate(self.seq(a[0]))]
            if fn == 'zip':
                return list(zip(*[self.seq(x) for x in a]))
            if fn == 'reversed':
                return list(reversed(self.seq(a[0])))
            if fn in ('list', 'tuple', 'iter') and len(a) == 1:
                return self.seq(a[0])
        v = self.ev(it)
        if isinstance(v, Seq):
            return [v.at(i) for i in range(len(v))]
        if isinstance(v, (list, tuple)):
            return list(v)
        raise Unsupported(f"loop over {str(it)[:60]}")

    def carried(self, t: T):
        """loop-carried variable: before the current iteration, or after the loop"""
        lp = self.eng.loop_by_uid[t.a[0]]
        if lp.iter is None or any(x[0] == 'break' for x in lp.exits):
            raise Unsupported('carried value of a loop with another exit')
        init, upd = self.eng.mu_info[t]
        saved, act = self.env, dict(self.active)
        outer = self.outer.get(lp.uid, saved) if lp.uid in self.active else saved
        try:
            self.env = dict(outer)
            upto = self.active.pop(lp.uid, None)
            cur = self.ev(init) if init.op != 'undef' else None
            items = self.seq(lp.iter)
            for k, v in enumerate(items if upto is None else items[:upto]):
                self.env = dict(outer)
                self.active[lp.uid] = k
                self.outer[lp.uid] = outer
                self.index_terms(lp.iter, lp.uid, k)
                if lp.elem is not None:
                    self.bind(lp.elem, v)
                self.env[t] = cur
                cur = self.ev(upd)
            return cur
        finally:
            self.env, self.active = saved, act

    def bind(self, pat: T, v):
        if pat.op == 'tuple' and isinstance(v, tuple):
            for p, x in zip(pat.a, v):
                self.bind(p, x)
        elif pat.op == 'bin' and pat.a[0] == '+' and pat.a[1].op == 'index':
            pass            # enumerate(x, start): bound through its index
        else:
            self.env[pat] = v

    def instances(self, loops, guards):
        """runs through the iterations; yields None with self.env bound"""
        def rec(k):
            if k == len(loops):
                if all(self.truth(t) == p for t, p in guards):
                    yield None
                return
            lp = loops[k]
            if lp.iter is None:
                raise Unsupported('while loop')
            saved = dict(self.env)
            for i, v in enumerate(self.seq(lp.iter)):
                self.env = dict(saved)
                self.active[lp.uid] = i
                self.outer[lp.uid] = saved
                self.index_terms(lp.iter, lp.uid, i)
                if lp.elem is not None:
                    self.bind(lp.elem, v)
                yield from rec(k + 1)
            self.env = saved
            self.active.pop(lp.uid, None)
        yield from rec(0)

    def index_terms(self, it: T, uid, i):
        self.env[T('index', it, uid)] = i
        if it.op == 'call' and isinstance(it.a[0], str):
            if it.a[0] in ('enumerate', 'zip', 'list', 'tuple', 'iter'):
                for x in cargs(it):
                    self.index_terms(x, uid, i)
                    try:
                        v = self.seq(x)
                        if i < len(v):
                            self.env[T('elem', x, uid)] = v[i]
                    except Unsupported:
                        pass
            elif it.a[0] == 'range' and len(cargs(it)) <= 2:
                n = cargs(it)[-1]
                if is_call(n, 'len'):
                    x = cargs(n)[0]
                    try:
                        k = self.seq(it)[i]
                        self.env[T('index', x, uid)] = k
                        v = self.seq(x)
                        if 0 <= k < len(v):
                            self.env[T('elem', x, uid)] = v[k]
                    except Unsupported:
                        pass
