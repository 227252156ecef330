"""Check runner: obligations, violations, known findings, evidence."""
from __future__ import annotations
import json
import os
import sys
import time
import traceback
from typing import *

from .model import Program, AnalysisBroken
from .vfa import Engine, T, show

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KPEX_REPO', '/repo')
CHECKS: Dict[str, dict] = {}


def check(pid, technique, level_note):
    def deco(fn):
        CHECKS[pid] = dict(fn=fn, technique=technique, level_note=level_note)
        return fn
    return deco


DEFAULT_OPAQUE_PREFIX = ('klayout_pex.log',)


PROGRAMS: Dict[str, Program] = {}     # parsed once per run; the checks only read it


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self._prog = None
        self.obligations: List[dict] = []
        self.violations: List[dict] = []
        self.analysed: Set[str] = set()
        self.paths = 0
        self.events = 0
        self.notes: List[str] = []
        self.rules: Dict[str, str] = {}

    @property
    def prog(self) -> Program:
        if self._prog is None:
            if REPO not in PROGRAMS:
                PROGRAMS[REPO] = Program(REPO)
            self._prog = PROGRAMS[REPO]
        return self._prog

    # ------------------------------------------------------------- analysis
    def analyse(self, qual, opaque=(), init=False, args=None, types=None, max_depth=10, log=False) -> Engine:
        pre = () if log else tuple(DEFAULT_OPAQUE_PREFIX)
        ops = tuple(opaque)

        def isop(q):
            return bool(pre) and q.startswith(pre) or any(q == o or q.startswith(o + '.') for o in ops)
        e = Engine(self.prog, opaque=isop, max_depth=max_depth)
        for k, v in (types or {}).items():
            e.types[k] = v
        e.run(qual, args=args, init=init)
        self.note_engine(e)
        return e

    def note_engine(self, e: Engine):
        self.analysed |= e.inlined
        self.events += len(e.events)
        if e.warn:
            self.notes.extend(sorted(set(e.warn)))

    # ------------------------------------------------------------- verdicts
    def ob(self, rule: str, ok, construct: str, msg: str = '', loc: str = ''):
        """one obligation: the rule instance, its construct, and the verdict"""
        self.obligations.append(dict(rule=rule, construct=construct, ok=bool(ok)))
        if not ok:
            self.violations.append(dict(rule=rule, construct=construct, message=msg, loc=loc,
                                        key=f"{rule}@{construct}"))
        return bool(ok)

    def fail(self, rule, construct, msg, loc=''):
        return self.ob(rule, False, construct, msg, loc)

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid and k.get('status') == 'open']


def run(pid, tier) -> int:
    t0 = time.time()
    c = CHECKS.get(pid)
    if c is None:
        print(f"no check for {pid}")
        return 2
    ctx = Ctx(pid, tier)
    ev = os.environ.get('KPEX_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    try:
        c['fn'](ctx)
        if not ctx.obligations:
            raise AnalysisBroken('no rule instance was found')
    except AnalysisBroken as e:
        # the construct that carries the guarantee is gone or cannot be read: the property is not shown
        ctx.fail('construct', pid, str(e))
    except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.fail('derivation', pid, f"the rule cannot be derived from this source ({type(e).__name__}: {e}; {os.path.basename(tb.filename)}:{tb.lineno})")
    known = known_findings(pid)
    new, listed = [], []
    for v in ctx.violations:
        k = next((k for k in known if k['key'] == v['key'] and k.get('message', '') in v['message']), None)
        (listed if k else new).append((v, k))
    seen = set()
    for v, k in listed:
        if v['key'] not in seen:
            seen.add(v['key'])
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    rules = {}
    for o in ctx.obligations:
        r = rules.setdefault(o['rule'], [0, 0])
        r[0] += 1
        r[1] += o['ok']
    doc = (c['fn'].__doc__ or '').strip()
    data = dict(
        property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
        coverage=dict(
            explanation=f"Static analysis ({c['technique']}). {doc}",
            obligations=len(ctx.obligations), discharged=sum(o['ok'] for o in ctx.obligations),
            rules={r: dict(instances=n, held=h) for r, (n, h) in sorted(rules.items())},
            samples=[f"{o['rule']} @ {o['construct']}" for o in ctx.obligations[:40]],
            functions_analysed=sorted(ctx.analysed), functions=len(ctx.analysed), events=ctx.events,
            notes=sorted(set(ctx.notes))[:20],
            known_findings=sorted(seen)),
        assumptions=[c['level_note']], wall_s=round(time.time() - t0, 3), violations=len(new))
    with open(os.path.join(ev, f"{pid}.json"), 'w') as f:
        json.dump(data, f, indent=1, ensure_ascii=False)
    rp = os.path.join(ev, f"{pid}.violations.json")
    if new:
        with open(rp, 'w') as f:
            json.dump([v for v, _ in new], f, indent=1, ensure_ascii=False)
        for v, _ in new:
            print(f"{v['loc'] or v['construct']}: [{v['rule']}] {v['construct']}: {v['message']}")
        print(f"VIOLATION property={pid} replay=evidence/{pid}.violations.json")
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print(f"OK property={pid}: {len(ctx.obligations)} obligations, {len(ctx.analysed)} functions, "
          f"{ctx.events} events, {time.time() - t0:.2f}s")
    return 0


def main(argv):
    import importlib
    import pkgutil
    from . import rules
    for m in pkgutil.iter_modules(rules.__path__):
        importlib.import_module(f"kpexcheck.rules.{m.name}")
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in argv:
        tier, argv = 'thorough', [x for x in argv if x != '--thorough']
    sys.setrecursionlimit(6000)
    if argv == ['--selftest']:
        prog = Program(REPO)
        print(f"{len(CHECKS)} checks, {len(prog.funcs)} functions parsed from {REPO}")
        return 0
    ids = argv or sorted(CHECKS)
    if ids == ['all']:
        ids = sorted(CHECKS)
    rc = 0
    for i in ids:
        try:
            r = run(i, tier)
        except Exception:
            traceback.print_exc()
            print(f"ANALYSIS-BROKEN property={i}")
            r = 3
        rc = max(rc, r)
    return rc
