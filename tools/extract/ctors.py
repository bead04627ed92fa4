#!/usr/bin/env python3
"""Extracts which argument of each record constructor goes into which field (as a field index path),
and which records have a default, into schema/ctors.json. One-off; the output was reviewed."""
import re, glob, json, os
here = os.path.dirname(os.path.abspath(__file__))
s = json.load(open(os.path.join(here, '../../schema/schema.json')))
recs = {r['name']: r for r in s['records']}
ALIAS = {'site_identifier': 'site_id', 'application_identifier': 'application_id'}
ctors, defaults = {}, []
for f in sorted(glob.glob('/repo/src/**/*.rs', recursive=True)):
    t = open(f).read()
    for ty in recs:
        if re.search(r'impl Default for ' + ty + r' ', t) or re.search(
                r'#\[derive\(([^)]*\bDefault\b[^)]*)\)\]\s*(?:///[^\n]*\n\s*)*pub struct ' + ty + r' ', t):
            defaults.append(ty)
        for b in re.findall(r'impl ' + ty + r' \{(.*?)\n\}\n', t, re.S):
            m = re.search(r'pub (?:const )?fn new\((.*?)\)\s*->\s*Self\s*\{(.*?)\n    \}', b, re.S)
            if not m:
                continue
            params = [p for p, _ in re.findall(r'(\w+):\s*([^,]+)', m.group(1))]
            body = ' '.join(m.group(2).split())
            idx = {f['name']: i for i, f in enumerate(recs[ty]['fields'])}
            paths = []
            for p in params:
                mm = re.search(r'(\w+): ' + p + r'\b', body)
                if p in idx and not (mm and mm.group(1) != p):
                    paths.append([idx[p]])
                elif mm:
                    paths.append([idx[mm.group(1)]])
                else:
                    sub = {'site_id': 0, 'application_id': 1}[ALIAS.get(p, p)]
                    paths.append([idx['simulation_address'], sub])
            ctors[ty] = paths
json.dump({'ctors': dict(sorted(ctors.items())), 'defaults': sorted(set(defaults))},
          open(os.path.join(here, '../../schema/ctors.json'), 'w'), indent=1)
