#!/usr/bin/env python3
"""Maintenance tool (not used by any check): lists the deviating relations of the shipped rules as
findings, with one failing input each, from the rejected events of C01/C02 run with an empty list.
usage: mkfindings.py TYPE REJECTED.ndjson  -> JSON entries on stdout"""
import json, re, sys
ty, path = sys.argv[1], sys.argv[2]
data = json.load(open('/verif/spec/data/cldr37_%ss.json' % ty))['supplemental']['plurals-type-' + ty]
def rels(text):
    return [r for o in text.split('@')[0].strip().split(' or ') for r in o.split(' and ')]
def parse(r):
    m = re.match(r'(\w)(?: % (\d+))? (=|!=) (.*)$', r.strip())
    return m.group(1), int(m.group(2) or 0), m.group(3), [tuple(int(x) for x in y.split('..')) for y in m.group(4).replace(' ', '').split(',')]
def holds(o, m, op, items, i, fr):
    x = i % m if m else i
    pos = not fr and any(it[0] <= x <= it[-1] for it in items)
    return pos == (op == '=')
def dev(o, m, op, items, i, fr):
    if m:
        pos = any((it[0] <= i <= it[1]) if len(it) == 2 else i % m == it[0] for it in items)
        return pos == (op == '=')
    return not fr and holds(o, m, op, items, i, fr)
def expected(loc, x):
    i, _, f = x.partition('.')
    t = f.rstrip('0')
    val = dict(n=int(i), i=int(i), v=len(f), w=len(t), f=int(f or 0), t=int(t or 0))
    for c, text in data[loc].items():
        if c.endswith('other'):
            continue
        for o in text.split('@')[0].strip().split(' or '):
            if all(holds(*(p := parse(r)), val[p[0]], p[0] == 'n' and bool(t)) for r in o.split(' and ')):
                return c.split('-')[2]
    return 'other'
bad = [json.loads(x) for x in open(path)]
out, seen = [], set()
for e in sorted(bad, key=lambda e: (len(e['x']), e['x'])):
    loc = e['loc']
    i, _, f = e['x'].partition('.')
    i, fr = int(i), bool(f.strip('0'))
    for c, text in sorted(data[loc].items()):
        c = c.split('-')[2]
        if c == 'other':
            continue
        for r in rels(text):
            o, m, op, items = parse(r)
            if o != 'n' or not (m or (op == '!=' and any(len(t) == 2 for t in items))):
                continue
            if holds(o, m, op, items, i, fr) != dev(o, m, op, items, i, fr) and (loc, c, r) not in seen:
                seen.add((loc, c, r))
                out.append(dict(property={'cardinal': 'C01', 'ordinal': 'C02'}[ty], type=ty, locale=loc, category=c,
                                relation=r.replace(' ', '').replace('%', ' % ').replace('!=', ' != ') if '!=' in r else r.replace(' ', '').replace('%', ' % ').replace('=', ' = '),
                                deviation='the fraction of n is ignored' + (' and the range is compared with n, not n % m' if any(len(t) == 2 for t in items) else '') if m else 'false for every n with a fraction',
                                input=e['x'], expected=expected(loc, e['x']), actual=e['r']))
json.dump(sorted(out, key=lambda f: (f['locale'], f['category'], f['relation'])), sys.stdout, indent=1)
