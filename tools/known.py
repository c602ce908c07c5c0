#!/usr/bin/env python3
"""Writes known/<finding>.txt from dumps (VC_DUMP=... bin/check ID) of reviewed violations.
Run by hand only, after looking at what it would add. usage: tools/known.py <prop>:<dump.json> ..."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# finding -> (properties, matcher(case, detail))
M = {
    'flatten-extends-schema': lambda c, d: c.endswith('|schema extends') or (c.endswith('|schema') and 'extend is not a function' in d and 'flatten' in c),
    'flatten-default': lambda c, d: 'flatten, default' in c and '|sound ' in c,
    'flatten-in-typescript': lambda c, d: 'flatten' in c and '|ts-' in c and (re.search(r'Map<|flatten, default|flatten\)\] pub a: Option', c)),
    'empty-object-type': lambda c, d: '|ts-accepts' in c and re.search(r'TypeScript type (\{\s*\}|.*\{\s*\})', d) and 'skip' in c,
    'positional-default': lambda c, d: re.search(r'\((.*, )?#\[serde\(default', c) and re.search(r'\|(sound|complete) ', c) and ('undefined' in c or 'complete' in c or '|sound {}' in c or re.search(r'\|sound \{ty: "Aa"(, extra: \w+|, Bb: \w+)?\}', c) or '|sound {extra' in c),
    'optional-content': lambda c, d: re.search(r'Aa\(Option|Result<.*Option', c) and '|sound ' in c and 'sent as' in d,
    'adjacent-skipped-content': lambda c, d: 'content = ' in c and re.search(r'Aa\(#\[serde\(skip', c) and '|sound ' in c,
    'plain-maps-and-sets': lambda c, d: c.endswith('|server plain map or set'),
    'lone-surrogates': lambda c, d: re.search(r'\|sound "\\u(d83d|de00)"$', c) and re.search(r'\|(String|smol_str::SmolStr)\|', c),
    'prototype-names': lambda c, d: re.search(r'rename = "(constructor|toString)", default', c) and '|omit ' in c,
    'type-named-array': lambda c, d: c.endswith('|ts-decl') and "Type 'Array' is not generic" in d,
    'shared-namespace-name': lambda c, d: c.startswith('shared|'),
    'member-named-like-namespace': lambda c, d: re.match(r'member\|\w+\|(own|other)\|', c),
    'type-and-method': lambda c, d: c.startswith('member|type|method|'),
    'type-named-like-global': lambda c, d: re.match(r'member\|type\|(Map|Set|Array|Promise|Store)\|', c),
    'integers-beyond-64-bits': lambda c, d: c.startswith('integers|') and '18446744073709552000' in c,
    'shadowed-names': lambda c, d: c.startswith('shadow|'),
    'type-of-itself': lambda c, d: c.startswith('wrap|newtype|OptBox|self|'),
}
out, left = {k: set() for k in M}, []
for a in sys.argv[1:]:
    prop, f = a.split(':')
    for v in json.load(open(f)):
        k = [n for n, m in M.items() if m(v['case'], v['detail'])]
        if k:
            out[k[0]].add(f"{prop}\t{v['case']}")
        else:
            left.append((prop, v['case'], v['detail']))
for k, s in out.items():
    print(k, len(s))
    if s:
        open(os.path.join(V, 'known', k + '.txt'), 'w').write('\n'.join(sorted(s)) + '\n')
print('unexplained', len(left))
for x in left[:12]:
    print(x[0], x[1][:200], '\n    ', x[2][:260])
