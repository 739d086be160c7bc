"""writes specs/locals.json: names and types of the locals of the annotated functions (run on the tree the annotations were written for)"""
import sys, os, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
with open(ROOT + '/specs/locals.json', 'w') as h: h.write('{}')
from vcg import driver, loops
P, cons, objs, problems = driver.load(os.environ.get('VREPO', '/repo'))
out = {}
for c, f in objs:
    if getattr(c, 'loops', None) and any(l.func == f.qual.split('::')[-1] for l in c.loops): out[f.qual.split('::')[-1]] = loops.locals_of(P, f)
with open(ROOT + '/specs/locals.json', 'w') as h: json.dump(out, h, indent=1, sort_keys=True); h.write('\n')
