"""development aid: list the events of one function"""
import sys
import argparse
from .model import Program
from . import vfa
from .vfa import *


def main():
    a = argparse.ArgumentParser()
    a.add_argument('qual')
    a.add_argument('-o', default='')
    a.add_argument('-r', default='/repo')
    a.add_argument('-i', action='store_true')
    a.add_argument('-k', default=None, help='kinds')
    a.add_argument('-w', type=int, default=600)
    a.add_argument('-x', default='', help='callees to hide')
    a = a.parse_args()
    p = Program(a.r)
    ops = [o for o in a.o.split(',') if o]
    e = Engine(p, opaque=lambda x: x.startswith('klayout_pex.log') or any(x.endswith(o) for o in ops))
    e.run(a.qual, init=a.i)
    hide = tuple(x for x in a.x.split(',') if x)
    for ev in e.events:
        if ev.callee.startswith('klayout_pex.log') or (a.k and ev.kind not in a.k) or (hide and ev.callee.endswith(hide)):
            continue
        s = repr(ev).split('\n')
        print('\n'.join(x[:a.w] for x in s))
        if ev.kind == 'call' and ev.result is not None and ev.result.op in ('call', 'new') and ev.result not in vfa.ALIAS:
            n = show(ev.result)
            if len(n) > 24:
                vfa.ALIAS[ev.result] = f"${ev.idx}"
    print('RESULT', str(e.result)[:a.w])
    for k, v in e.mu_info.items():
        print(k, '=', str(v)[:a.w])
    for k, v in e.comps.items():
        print('comp', k, str({a: b for a, b in v.items() if a not in ('node',)})[:a.w])
    if e.final:
        print('FINAL', ' ∧ '.join(('' if p else '¬') + show(t) for t, p in e.final.guards))
    print(e.warn)


main()
