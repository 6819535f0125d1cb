"""Runs every task on the current tree and writes /verif/expected.json (what is proved, open, out of reach)."""
import concurrent.futures as cf
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
from vf import worker, task
worker.load()
F = os.path.join(HERE, 'expected.json')
exp = json.load(open(F))
names = sys.argv[1:] or list(task.TASKS)
if not sys.argv[1:]:
    exp = {}
with cf.ThreadPoolExecutor(6) as ex:
    for r in ex.map(lambda n: check.prove(n, 300), sorted(names, key=lambda n: -exp.get(n, {}).get('wall', 0))):
        st = {}
        for o in r['obs']:
            st.setdefault(o['name'], set()).add(o['status'])
        exp[r['task']] = {'proved': sorted(n for n in st if st[n] == {'proved'}),
                          'open': sorted(n for n in st if st[n] != {'proved'}),
                          'unsupported': sorted(set(r['unsupported']))[:5], 'reachable': bool(r['reachable']),
                          'obligations': len(r['obs']), 'wall': round(r['wall'])}
        e = exp[r['task']]
        print(r['task'], len(r['obs']), 'open', e['open'], 'unsupported', e['unsupported'], 'reach', e['reachable'], e['wall'])
json.dump(dict(sorted(exp.items())), open(F, 'w'), indent=1)
