"""Implication between branch conditions: decision diagrams over the atomic conditions, plus the few facts that relate
atoms (x == 1 excludes x == 2, None is falsy, < is a strict total order)."""
from __future__ import annotations
from typing import *
from .vfa import T, TRUE, FALSE, NONE, truthy, mk_and, mk_not, mk_cmp, lit_term, is_const, subterms


class Bdd:
    limit = 200000

    def __init__(self):
        self.order: Dict[T, int] = {}
        self.nodes: Dict[Tuple, int] = {}
        self.tab: List[Tuple] = [(10 ** 9, 0, 0), (10 ** 9, 1, 1)]
        self.memo: Dict[Tuple, int] = {}
        self.tmemo: Dict[T, int] = {}

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        n = self.nodes.get(k)
        if n is None:
            n = len(self.tab)
            self.tab.append(k)
            self.nodes[k] = n
            if n > self.limit:
                raise MemoryError('condition too large')
        return n

    def ite(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a == b:
            return a
        if a == 1 and b == 0:
            return c
        k = (c, a, b)
        r = self.memo.get(k)
        if r is None:
            v = min(self.tab[x][0] for x in k)
            co = lambda x, h: (self.tab[x][1 + h] if self.tab[x][0] == v else x)
            r = self.mk(v, self.ite(co(c, 0), co(a, 0), co(b, 0)), self.ite(co(c, 1), co(a, 1), co(b, 1)))
            self.memo[k] = r
        return r

    def var(self, t):
        if t not in self.order:
            self.order[t] = len(self.order)
        return self.mk(self.order[t], 0, 1)

    def of(self, t: T) -> int:
        r = self.tmemo.get(t)
        if r is None:
            r = self._of(truthy(t))
            self.tmemo[t] = r
        return r

    def _of(self, t):
        if t.op == 'const':
            return 1 if t.a[0] else 0
        if t.op == 'not':
            return self.ite(self.of(t.a[0]), 0, 1)
        if t.op == 'and':
            r = 1
            for x in t.a:
                r = self.ite(r, self.of(x), 0)
            return r
        if t.op == 'or':
            r = 0
            for x in t.a:
                r = self.ite(r, 1, self.of(x))
            return r
        if t.op == 'ite':
            return self.ite(self.of(t.a[0]), self.of(t.a[1]), self.of(t.a[2]))
        if t.op == 'cmp' and t.a[0] == '==' and t.a[1].op == 'ite':
            return self.of(T('ite', t.a[1].a[0], mk_cmp('==', t.a[1].a[1], t.a[2]), mk_cmp('==', t.a[1].a[2], t.a[2])))
        if t.op == 'cmp' and t.a[0] == '==' and t.a[2].op == 'ite':
            return self.of(T('ite', t.a[2].a[0], mk_cmp('==', t.a[1], t.a[2].a[1]), mk_cmp('==', t.a[1], t.a[2].a[2])))
        return self.var(t)

    def facts(self) -> int:
        """what holds between the atoms in use"""
        r = 1
        done = -1
        while done != len(self.order):
            done = len(self.order)
            atoms = list(self.order)
            eqs = [t for t in atoms if t.op == 'cmp' and t.a[0] == '==']
            r = 1

            def both_not(x, y):
                nonlocal r
                r = self.ite(self.ite(self.var(x), self.var(y), 0), 0, r)
            for i, x in enumerate(eqs):
                for y in eqs[i + 1:]:
                    if x.a[1] is y.a[1] and x.a[2] is not y.a[2] and x.a[2].op in ('const', 'ref') and \
                            y.a[2].op in ('const', 'ref') and \
                            mk_cmp('==', x.a[2], y.a[2]) is FALSE:
                        both_not(x, y)
                s, k = x.a[1], x.a[2]
                if s in self.order and k.op == 'const':
                    v = self.var(s)
                    if not k.a[0]:
                        r = self.ite(self.ite(self.var(x), v, 0), 0, r)
                    else:
                        r = self.ite(self.ite(self.var(x), self.ite(v, 0, 1), 0), 0, r)
                if s in self.order and k.op == 'ref':
                    r = self.ite(self.ite(self.var(x), self.ite(self.var(s), 0, 1), 0), 0, r)
                if s.op == 'call' and s.a[0] == 'len' and k.op == 'const' and isinstance(k.a[0], int) and k.a[0] > 0 \
                        and s.a[1][0] in self.order:
                    r = self.ite(self.ite(self.var(x), self.ite(self.var(s.a[1][0]), 0, 1), 0), 0, r)
            for x in atoms:
                if x.op == 'cmp' and x.a[0] == '<':
                    sw = T('cmp', '<', x.a[2], x.a[1])
                    if sw in self.order:
                        both_not(x, sw)
                    e = mk_cmp('==', x.a[1], x.a[2])
                    if e in self.order:
                        both_not(x, e)
        return r


def _terms(xs):
    out = []
    for x in xs:
        if isinstance(x, tuple):
            out.append(lit_term(x))
        else:
            out.append(x)
    return out


def sat(conds: Iterable) -> bool:
    """can the conditions (terms or literals) hold together?"""
    b = Bdd()
    r = 1
    for t in _terms(conds):
        r = b.ite(r, b.of(t), 0)
        if r == 0:
            return False
    f = b.facts()
    return b.ite(r, f, 0) != 0


def entails(conds: Iterable, t) -> bool:
    goal = _terms([t])[0]
    return not sat(list(_terms(conds)) + [mk_not(truthy(goal)) if goal.op != 'ite' else T('not', goal)])


def conj(lits) -> T:
    return mk_and(_terms(lits))


def equiv(a, b, under=()) -> bool:
    """the two conditions (terms, or lists of literals) are the same whenever `under` holds"""
    ta = conj(a) if isinstance(a, (list, tuple, set, frozenset)) else a
    tb = conj(b) if isinstance(b, (list, tuple, set, frozenset)) else b
    u = list(_terms(under))
    return entails(u + [ta], tb) and entails(u + [tb], ta)


def feasible(v, conds) -> list:
    """the distinct values a conditional value can take under these conditions"""
    from .q import gated_leaves
    out = {}
    for c, l in gated_leaves(v):
        if l not in out and sat(list(conds) + list(c)):
            out[l] = None
    return list(out)


def specialise(t, atom):
    """the condition with some atoms decided: atom(t) -> True / False / None"""
    from .vfa import mk_and, mk_or, mk_not as neg, const, T
    if isinstance(t, (list, tuple)) and not isinstance(t, T):
        t = conj(t)
    v = atom(t)
    if v is not None:
        return const(v)
    if t.op == 'not':
        x = specialise(t.a[0], atom)
        return const(not x.a[0]) if x.op == 'const' else neg(x)
    if t.op in ('and', 'or'):
        return (mk_and if t.op == 'and' else mk_or)([specialise(x, atom) for x in t.a])
    if t.op == 'ite':
        c = specialise(t.a[0], atom)
        if c.op == 'const':
            return specialise(t.a[1] if c.a[0] else t.a[2], atom)
        from .vfa import mk_ite
        return mk_ite(c, specialise(t.a[1], atom), specialise(t.a[2], atom))
    if t.op == 'cmp' and any(x.op == 'ite' for x in t.a[1:] if isinstance(x, T)):
        from .vfa import mk_cmp
        xs = [pick(x, atom) for x in t.a[1:]]
        if xs != list(t.a[1:]):
            n = mk_cmp(t.a[0], *xs)
            if n.op == 'cmp' and n.a[0] in ('==', 'is') and n.a[2].op == 'const' and n.a[2].a[0] is None and \
                    n.a[1].op in ('tuple', 'lit', 'new', 'fstr'):
                return const(False)
            return specialise(n, atom)
    return t


def pick(x, atom):
    """a conditional value with some conditions decided"""
    while x.op == 'ite':
        c = specialise(x.a[0], atom)
        if c.op != 'const':
            break
        x = x.a[1] if c.a[0] else x.a[2]
    return x


def enum_atom(is_subject, value):
    """atom function for specialise: the subject has the enum value with this name"""
    from .q import is_call
    def name(x):
        return str(x.a[0]).split('.')[-1] if x.op == 'ref' else None

    def f(t):
        if t.op == 'cmp' and t.a[0] in ('==', 'is'):
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if is_subject(a) and name(b):
                    return name(b) == value
        if t.op == 'cmp' and t.a[0] == 'in' and is_subject(t.a[1]):
            xs = t.a[2]
            items = xs.a if xs.op == 'tuple' else xs.a[1] if xs.op == 'lit' else \
                xs.a[1][0].a if xs.op == 'call' and is_call(xs, 'frozenset', 'set', 'tuple') and xs.a[1] and xs.a[1][0].op == 'tuple' else None
            if items is not None and all(name(x) for x in items):
                return value in [name(x) for x in items]
        return None
    return f
