#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + sections generated from the registry."""
import json, os, re, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
sys.path.insert(0, ROOT)
man = json.load(open('MANIFEST.json'))
props = {p['id']: p for p in map(json.loads, open('properties.jsonl'))}
known = json.load(open('known_findings.json'))['findings']
caught = json.load(open('tools/caught.json')) if os.path.exists('tools/caught.json') else {}
where = {}
for f in sorted(os.listdir('kpexcheck/rules')):
    if f.endswith('.py'):
        for m in re.finditer(r"@check\(\s*['\"](C\d+)['\"]", open(f'kpexcheck/rules/{f}').read()):
            where[m.group(1)] = f
rules, what = {}, {}
for f in sorted(os.listdir('evidence')):        # of the last `check.py all`
    if re.fullmatch(r'C\d+\.json', f):
        e = json.load(open('evidence/' + f))['coverage']
        rules[f[:-5]] = ', '.join(f"{k} ({v['instances']})" for k, v in e.get('rules', {}).items())
        what[f[:-5]] = re.sub(r'^Static analysis \([^)]*\)\. ?', '', e.get('explanation', ''))
o = [open('tools/design_head.md').read().rstrip() + '\n\n## 6. Property by property\n']
for c in sorted(man['checks'], key=lambda c: c['property']):
    p = props[c['property']]
    o.append(f"### {p['id']} — {p['title']}\n")
    o.append(f"{p['statement'].strip()}\n")
    q = p['quantifier']
    o.append(f"* *Quantified over:* {q['text'] if isinstance(q, dict) and 'text' in q else q}")
    o.append(f"* *Decided by:* {c['technique']} (`kpexcheck/rules/{where.get(p['id'], '?')}`)")
    if what.get(p['id']):
        o.append(f"* *What is enumerated:* {what[p['id']]}")
    if p['id'] in rules:
        o.append(f"* *Rules (obligations on the current tree):* {rules[p['id']]}")
    o.append(f"* *Scope and trust:* {c['level_note']}")
    o.append(f"* *Out of reach of tests:* {p['why_tests_cant'].strip()}")
    s = sorted(k for k, v in caught.items() if p['id'] in v)
    if s:
        o.append(f"* *Planted bugs reported:* {', '.join(s)}")
    o.append('')
o.append('## 7. Defects: repaired and recorded\n')
for k in known:
    o.append(f"* {'**known finding** ' + k['property'] + ': ' if k['status'] != 'fixed' else ''}{k['what']}")
o.append('\n## 8. Not applicable\n')
for n in man['not_applicable']:
    o.append(f"* **{n['property']} — {props[n['property']]['title']}:** {n['reason']}")
o.append('\n## 9. Planted bugs and the checks that report them\n')
o.append('| bug | property | needs | reported by |\n|---|---|---|---|')
for s in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{s}/meta.json'))
    o.append(f"| {s} | {m['property']} | {m['needs'].replace('|', '/')} | {', '.join(caught.get(s, ['?'])) or '—'} |")
open('DESIGN.md', 'w').write('\n'.join(o) + '\n')
