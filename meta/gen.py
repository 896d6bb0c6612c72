#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(),
         technique=None, level='exploration', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CHECKS.append(dict(property=id, quick_cmd='python3 check.py ' + id,
                           thorough_cmd='VERIF_TIER=thorough python3 check.py ' + id,
                           evidence_file='evidence/%s.json' % id,
                           technique=technique, level=level, level_note=note))


CHECKS = []
exec(open(os.path.join(V, 'meta', 'table.py')).read())
assert all(len(p['title']) <= 80 for p in P), [p['id'] for p in P if len(p['title']) > 80]
P.sort(key=lambda p: p['id'])
CHECKS.sort(key=lambda p: p['property'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1,
                   setup_cmd='make -s -j8 all',
                   hooks=dict(guard='none', enable='No hooks in /repo: the checks interpose at link '
                              'time (--wrap, the compiler\'s memory access instrumentation).',
                              source_commits=[]),
                   checks=CHECKS, not_applicable=NA,
                   notes='check.py --replay FILE reproduces a violation.'), f, indent=1)
    f.write('\n')
