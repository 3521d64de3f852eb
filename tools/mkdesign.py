#!/usr/bin/env python3
"""Rewrite the generated part of DESIGN.md (findings, repairs, planted bugs)."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated by tools/mkdesign.py -->\n'


def main():
    p = os.path.join(ROOT, 'DESIGN.md')
    s = open(p).read().split(MARK)[0].rstrip('\n') + '\n\n' + MARK
    known, fixed = [], []
    for l in open(os.path.join(ROOT, 'known_findings.jsonl')):
        l = l.strip()
        if l.startswith('{'):
            d = json.loads(l)
            if d.get('status') == 'known':
                known.append('* **%s** `%s`: %s' % (d['property'], d['key'], d.get('what', '')))
        elif l.startswith('fixed:'):
            a = l[6:].split(None, 2)
            fixed.append('* **%s** %s: %s' % (a[0].split('=')[1], a[1], a[2]))
    s += ('\n## Known findings (genuine defects that are not repaired)\n\nMost of them are pinned by existing tests, '
          'which must pass unedited.\n\n' + '\n'.join(known) + '\n\n## Repairs in /repo (found by the checks)\n\n' + '\n'.join(fixed) + '\n')
    s += '\n## Planted bugs\n\nEach is caught by the check of its own property (`tools/seed.py check` applies one, runs tests, demo and check).\n\n| bug | property | manifests with | effect |\n|---|---|---|---|\n'
    for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        d = json.load(open(f))
        s += '| %s | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), d['property'], d['needs'].replace('|', '\\|').replace('\n', ' '), d['what_it_breaks'].replace('|', '\\|').replace('\n', ' '))
    open(p, 'w').write(s)


main()
