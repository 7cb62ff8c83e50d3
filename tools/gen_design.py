#!/usr/bin/env python3
"""Fills DESIGN.md from tools/DESIGN.in.md, properties.jsonl, levels.json, the rules in the harness,
known_findings.json and seeded/*/meta.json (+ tools/catches.json: what caught them)."""
import json, re, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(R)
props = [json.loads(l) for l in open('properties.jsonl') if l.strip()]
lev = json.load(open('tools/levels.json'))
src = open('harness/src/props/mod.rs').read()
consts = {m[0]: m[1].replace('\\"', '"') for m in re.findall(r'const (\w+_RULE): &str = "((?:[^"\\]|\\.)*)"', src)}
plans = {}
body = src[src.index('pub fn plans'):]
for m in re.finditer(r'q\("(C\d\d)", ([\w:]+), \((\d+), (\d+)\), \((\d+), (\d+)\)\)', body):
    line = body[body.rfind('\n', 0, m.start()) + 1:m.end()]
    rule = re.search(r'rule: (\w+)', line)
    need = re.search(r'need: &\[(.*?)\]', line)
    plans[m[1]] = (rule[1] if rule else 'QUERY_RULE', need[1] if need else '("queries_distributed", 50)', m[2], m[3:7] if False else (m[3], m[4], m[5], m[6]))
k = json.load(open('known_findings.json'))
out = []
shown = {}
for p in props:
    i = p['id']
    out.append(f"### {i} {p.get('title','')}\n\n{p['statement']}\n")
    l = lev.get(i)
    if not l or i not in plans:
        out.append("Not claimed.\n"); continue
    rule, need, fn, (qc, qs, tc, ts) = plans[i]
    out.append(f"*Deciding method.* {l['technique']}.\n")
    if rule in shown: out.append(f"*Workload.* As for {shown[rule]}.\n")
    else:
        shown[rule] = i
        out.append(f"*Workload.* {consts.get(rule, '')}\n")
    if l.get('note'): out.append(f"*Reach and limits.* {l['note']}\n")
    needs = ', '.join(f"{a} ≥ {b}" for a, b in re.findall(r'\("(\w+)", (\d+)\)', need))
    out.append(f"*Budget.* quick: {qc} cases or {qs} s; thorough: {tc} cases or {ts} s. A quick run that observed less than {needs} prints a NOTE that it is weak evidence. Code: `harness/src/props/{fn.split('::')[0]}.rs`.\n")
    f = [x for x in k['findings'] if x['property'] == i]
    for x in f: out.append(f"*Known finding* `{x['signature']}`: {x['what']}.\n")
    n = [x for x in k['fixed'] if f'property={i} ' in x]
    if n: out.append("*Repaired:* " + '; '.join(re.sub(r'^fixed: property=C\d\d ', '', x) for x in n) + ".\n")
cat = json.load(open('tools/catches.json')) if os.path.exists('tools/catches.json') else {}
seed = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d)); i = d.split('/')[1]
    seed.append(f"| {i}: {m['what_it_breaks']} | {m['property']} | {m['needs']} | {cat.get(i, '?')} |")
t = open('tools/DESIGN.in.md').read().replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDED@@', '\n'.join(seed))
open('DESIGN.md', 'w').write(t)
print(len(plans), 'plans', len(seed) - 2, 'seeds')
