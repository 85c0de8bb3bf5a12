#!/usr/bin/env python3
"""dev.py PROP FIRST LAST [tier]: runs seeds and prints what went wrong (for development)."""
import collections, json, sys, time
from build import build
from pool import Pool
prop, a, b = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
tier = sys.argv[4] if len(sys.argv) > 4 else 'quick'
exe, node = build()
p = Pool(exe, node, 8)
viol, stats, faults, infra = collections.defaultdict(list), collections.Counter(), collections.Counter(), []
n, t0, sim, crash = 0, time.time(), 0, {}
slow = []


def cb(req, r):
    global n, sim
    n += 1
    seed = req.split()[2]
    if 'infra' in r:
        infra.append((seed, r['infra'][:3000]))
        return
    sim += r['simtime']
    by = {}
    for x in r['viol']:
        by.setdefault(x[1], []).append(x[0])
    for t, ps in by.items():
        key = ''.join('#' if c.isdigit() else c for c in t)[:110]
        viol[key].append((seed, ','.join(ps) + ': ' + t))
    if r['crash']:
        crash[seed] = r['crash']
    stats.update(r['stats'])
    faults.update(r['faults'])


p.map(('gen %s %d %s' % (prop, s, tier) for s in range(a, b)), cb)
p.close()
dt = time.time() - t0
print('%d runs %.1fs (%.1f/s) sim %.0fs' % (n, dt, n / dt, sim))
print('stats', dict(stats))
print('faults', dict(faults))
for k, v in sorted(viol.items(), key=lambda x: -len(x[1])):
    print(len(v), 'x', v[0][1][:300], ' seeds', [x[0] for x in v[:4]])
for i in infra[:4]:
    print('INFRA', i[0], i[1])
print(len(infra), 'infra')
json.dump(crash, open('/tmp/t/crash.json', 'w'))
