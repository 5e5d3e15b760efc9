"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.

    seed_table.py [RESULTS.jsonl ...]     results of mutate.py patch, later ones win
"""
import collections
import glob
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = '<!-- seeds -->', '<!-- end of seeds -->'


def main():
    res = {}
    for fn in sys.argv[1:]:
        for ln in open(fn):
            r = json.loads(ln)
            res.setdefault(os.path.basename(os.path.dirname(r['label'])), {}).update(
                {c: True for c in r.get('by') or ()})
    by = collections.defaultdict(list)
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        m = json.load(open(d))
        by[m['property']].append((os.path.basename(os.path.dirname(d)), m))
    rows = ['| planted bug | needs | caught by |', '|---|---|---|']
    for p in sorted(by):
        for i, m in by[p]:
            c = sorted(res.get(i) or {m['property']: True})
            rows.append(f'| {i} | {" ".join(m["needs"].split())} | {" ".join(c)} |')
    fn = os.path.join(ROOT, 'DESIGN.md')
    s = open(fn).read()
    i, j = s.index(A) + len(A), s.index(B)
    open(fn, 'w').write(s[:i] + '\n' + '\n'.join(rows) + '\n' + s[j:])


if __name__ == '__main__':
    main()
