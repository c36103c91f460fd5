#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py (only properties whose check module exists are claimed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from lib.props import PROPS, NOT_APPLICABLE

def main():
    checks = []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            d = {'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
                 'quantifier': {'over': p.get('over', ['inputs']), 'text': ' '.join(p['quant'].split())},
                 'why_tests_cant': ' '.join(p['why'].split()),
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                             'observe_at': p.get('observe', []), 'hook_needed': None}}
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
            if p['id'] in NOT_APPLICABLE:
                continue
            assert os.path.exists(os.path.join(HERE, 'checks', p['id'] + '.py')), p['id']
            checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'],
                           'thorough_cmd': './check.sh %s thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['technique'], 'level': p.get('level', 'exploration'),
                           'level_note': ' '.join(p['note'].split())})
    m = {'version': 1, 'setup_cmd': 'python3 lib/build.py all', 'checks': checks,
         'not_applicable': [{'property': k, 'reason': v} for k, v in NOT_APPLICABLE.items()],
         'notes': 'No hooks are needed in /repo: the drivers under drivers/ link the sources of /repo, built with AddressSanitizer and '
                  'libstdc++ assertions by lib/build.py; known_findings.json lists repaired and recorded defects.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


def design():
    """the per-property section of DESIGN.md, between its markers"""
    import re
    p = os.path.join(HERE, 'DESIGN.md')
    t = open(p).read()
    out = []
    for q in PROPS:
        out.append('### %s %s\n' % (q['id'], q['title']))
        if q['id'] in NOT_APPLICABLE:
            out.append('Not decided by this family: %s\n' % NOT_APPLICABLE[q['id']])
            continue
        src = open(os.path.join(HERE, 'checks', q['id'] + '.py')).read()
        import ast
        rule = [ast.literal_eval(n.value) for n in ast.parse(src).body if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == 'RULE']
        out.append('- Deciding method: %s.' % q['technique'])
        out.append('- Cases and oracle: %s.' % rule[0])
        out.append('- Why tests cannot: %s' % ' '.join(q['why'].split()))
        out.append('- Bounds and trust: %s' % ' '.join(q['note'].split()))
        n = sum(int(x) for x in re.findall(r'quick=(\d+)', src))
        out.append('- Quick tier: %d cases (plus the listed explicit ones).\n' % n)
    a, z = t.index('<!-- properties -->'), t.index('<!-- end -->')
    open(p, 'w').write(t[:a] + '<!-- properties -->\n' + '\n'.join(out) + '\n' + t[z:])


def bugs():
    """the table of planted bugs in DESIGN.md, from seeded/*/meta.json and lib/bugs.json (what the checks report)"""
    p = os.path.join(HERE, 'DESIGN.md')
    t = open(p).read()
    notes = json.load(open(os.path.join(HERE, 'lib', 'bugs.json')))
    rows = ['| bug | property | what it breaks, and when | reported by |', '|---|---|---|---|']
    for s in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', s, 'meta.json')))
        rows.append('| %s | %s | %s (%s) | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), notes.get(s, m['property'] + ' quick')))
    a, z = t.index('<!-- bugs -->'), t.index('<!-- end bugs -->')
    open(p, 'w').write(t[:a] + '<!-- bugs -->\n' + '\n'.join(rows) + '\n' + t[z:])


main()
design()
bugs()
