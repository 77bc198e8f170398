#!/usr/bin/env python3
"""Writes DESIGN.md: the prose in tools/design/, the spaces and counts of the last quick runs
(evidence/*.json), and the results of trying the planted bugs (tools/design/seeds.txt)."""
import json, os, re, collections
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = f'{here}/tools/design'
props = [json.loads(l) for l in open(f'{here}/properties.jsonl')]
notes = {}
cur = None
for l in open(f'{D}/properties.md'):
    m = re.match(r'^## (C\d\d)', l)
    if m: cur = m.group(1); notes[cur] = ''
    elif cur: notes[cur] += l
out = [open(f'{D}/head.md').read().rstrip(), '', '## The properties one by one', '',
       'States, traces and seconds are those of a quick run on the unchanged tree (8 cores); the bounds in the', 'list of spaces are the quick ones. The thorough tier runs the same spaces with the larger bounds given in', '`mc/src/spaces.rs`.', '']
def num(n): return f'{n:,}'.replace(',', ' ')
abouts = {}
for p in props:
    i = p['id']
    e = json.load(open(f'{here}/evidence/{i}.json'))
    c = e['coverage']
    out += [f'### {i} {p["title"]}', '', notes[i].strip(), '',
            f'Quick: {num(c["states"])} states, {num(c["transitions"])} transitions, {num(c["traces_validated_against_impl"])} traces run on the implementation, {c["distinct_outcomes"]} distinct outcomes. Spaces:', '']
    for s in c['spaces']:
        key = (s['name'], s['about'])
        if key in abouts: out.append(f'* `{s["name"]}` as under {abouts[key]} ({num(s["traces"])} traces)')
        else: abouts[key] = i; out.append(f'* `{s["name"]}`: {s["about"]} ({num(s["traces"])} traces)')
    out.append('')
out += [open(f'{D}/tail.md').read().rstrip(), '']
res = collections.OrderedDict()
for l in open(f'{D}/seeds.txt'):
    w = l.split()
    if len(w) >= 3 and not l.startswith('#'): res[w[0]] = w[1:]
out += ['### Planted bugs and what catches them', '', 'Each line: the planted bug, what it needs to show, the check of its property at its present strength, and', 'the round in which it was planted; (first missed) marks those the check as it stood then did not see, see', 'above for what was added.', '', '| bug | needs | check | round |', '|---|---|---|---|']
missed = set(open(f'{D}/first_missed.txt').read().split())
n = collections.Counter()
for b in sorted(os.listdir(f'{here}/seeded')):
    m = json.load(open(f'{here}/seeded/{b}/meta.json'))
    r = res.get(b, [m['property'], 'not-tried'])
    rnd = next((k for k in range(1, 9) if os.path.exists(f'{here}/tools/seeds/round{k}.py') and re.search(r"['\"]" + re.escape(b) + r"['\"]", open(f'{here}/tools/seeds/round{k}.py').read())), '?')
    n[r[1]] += 1
    out.append(f'| {b} | {m["needs"].replace("|", "/")} | {m["property"]} {r[1]}{" (first missed)" if b in missed else ""} | {rnd} |')
out += ['', 'In total: ' + ', '.join(f'{v} {k}' for k, v in n.items()) + '.', '']
open(f'{here}/DESIGN.md', 'w').write('\n'.join(out))
