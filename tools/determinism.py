#!/usr/bin/env python3
"""determinism.py [PROPS [FIRST LAST]]: every seed is run three times - in differently loaded worker pools, in fresh
processes, under a different environment, and from its written-out plan - and the event hashes are compared."""
import collections, json, os, sys, tempfile
from build import build
from pool import Pool, Worker
props = sys.argv[1].split(',') if len(sys.argv) > 1 else ['B%02d' % i for i in range(1, 22)]
a, b = (int(sys.argv[2]), int(sys.argv[3])) if len(sys.argv) > 3 else (5000, 5024)
exe, node = build()
reqs = ['gen %s %d quick' % (p, s) for p in props for s in range(a, b)]
res = collections.defaultdict(list)


def rec(q, r):
    res[q].append((r.get('hash'), r.get('sched'), r.get('simtime'), json.dumps(r.get('stats')), json.dumps(r.get('faults')), json.dumps(r.get('viol')), r.get('infra')))


for n, order, env in ((8, reqs, {}), (3, reqs[::-1], {'X' * 40: 'y' * 3000})):
    p = Pool(exe, node, n)
    for w in p.ws:
        w.env = env
        w.close()
        w.start()
    p.map(iter(order), rec)
    p.close()
with tempfile.TemporaryDirectory() as d:
    w = Worker(exe, node, 0)
    plans = []
    for q in reqs[::3]:
        f = '%s/%d' % (d, len(plans))
        w.p.stdin.write('show' + q[3:] + '\n')
        w.p.stdin.flush()
        open(f, 'w').write(json.loads(w.p.stdout.readline()))
        plans.append((q, f))
    w.close()
    back = {f: q for q, f in plans}
    p = Pool(exe, node, 8)
    p.map(('plan ' + f for _, f in plans), lambda l, r: rec(back[l.split()[1]], r))
    p.close()
bad = 0
for q in reqs:
    if len(set(res[q])) != 1 or res[q][0][6]:
        bad += 1
        if bad < 20:
            print('DIFFERS', q)
            for x in sorted(set(res[q]), key=str):
                print('   ', x)
print('%d seeds, %d executions, %d differ' % (len(reqs), sum(map(len, res.values())), bad))
sys.exit(bad > 0)
