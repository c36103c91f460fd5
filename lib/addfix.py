#!/usr/bin/env python3
"""addfix.py PROPERTY: records every fix: commit of /repo that is not recorded yet as the repair of a violation of PROPERTY."""
import json, subprocess, sys, os
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(F))
have = ' '.join(x.get('entry', '') for x in k)
for line in reversed(subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s', '--grep', '^fix: ']).decode().splitlines()):
    h, s = line.split(' ', 1)
    if h in have:
        continue
    k.append({'id': 'F%d' % (max(int(x['id'][1:]) for x in k) + 1), 'property': sys.argv[1], 'status': 'fixed',
              'entry': 'fixed: property=%s %s lacking: %s' % (sys.argv[1], h, s[5:]) if len(sys.argv) < 3 else 'fixed: property=%s %s %s' % (sys.argv[1], h, sys.argv[2])})
    print(k[-1]['entry'])
open(F, 'w').write('[\n' + ',\n'.join(' ' + json.dumps(x, ensure_ascii=False) for x in k) + '\n]\n')
