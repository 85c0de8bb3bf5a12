#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]            decides one property by seeded simulation
   check.py PROPERTY --replay FILE [TRACEFILE]  runs a recorded plan again

Exit 0: held on everything explored.  Exit 1: a violation, reported as
'VIOLATION property=<id> replay=<file>'.  Exit 2: the check itself could not work."""
import collections, json, os, re, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from build import build
from pool import Pool, Worker
from symbolize import symbolize

# property: (runs of the quick check, evidence that a run exercised the property, what that means)
RULES = {
    'B01': (2600, ('cmd_ok', 'cmd_fail'), 'a pledge command ran to its end against an honest, hostile or re-routed peer'),
    'B02': (1600, ('rvr_accept', 'rvr_reject', 'rvr_unclear'), 'the MASA decided on a registrar request'),
    'B03': (1300, ('pvr_accept', 'pvr_reject', 'pvr_unclear'), 'the registrar decided on a pledge request'),
    'B04': (1000, ('pvr_accept', 'rvr_accept', 'enrol_valid', 'cmd_ok'), 'at least one exchange was answered while others were in progress'),
    'B05': (1900, ('pvr_accept', 'pvr_reject', 'cmd_fail', 'rvr_reject'), 'a voucher exchange ended in success or failure under an injected failure'),
    'B06': (1400, ('pvr_reject', 'rvr_reject', 'enrol_invalid', 'pvr_unclear', 'rvr_unclear', 'recovered', 'cmd_fail'), 'a server or command received hostile input and was judged afterwards'),
    'B07': (900, ('recovered',), 'faults were injected and fresh pledges were run afterwards'),
    'B08': (1700, ('enrol_valid', 'enrol_invalid', 'cmd_ok', 'cmd_fail'), 'an enrolment was requested'),
    'B09': (1900, ('cmd_ok', 'cmd_fail'), 'a pledge ran the sign command'),
    'B10': (1500, ('enrol_valid', 'enrol_invalid'), 'enrolments were attempted and the audit log was compared with them'),
    'B11': (250, ('leak_rounds',), 'the same requests were repeated and resources compared between rounds'),
    'B12': (1000, ('cmd_ok', 'cmd_fail', 'recovered', 'pvr_accept', 'rvr_accept', 'enrol_valid'), 'operations ran while certificate, key or configuration files could not be read'),
    'B13': (1900, ('cmd_ok', 'cmd_fail'), 'a command that writes output files ended'),
    'B14': (4200, ('lib_failures',), 'at least one allocation was made to fail inside a library call'),
    'B15': (1100, ('log_lines', 'finished'), 'several threads logged'),
    'B16': (700, ('enrol_valid',), 'certificates were issued'),
    'B17': (1200, ('finished',), 'documents or audit lines with timestamps were produced'),
    'B18': (2200, ('tls_auth_ok', 'tls_auth_bad'), 'a TLS client was admitted or refused'),
    'B19': (1900, ('finished',), 'requests were judged with clocks moved across certificate limits'),
    'B20': (5000, ('finished',), 'a server was started in a possibly unusable configuration'),
    'B21': (800, ('finished',), 'the same conversation ran twice under different packetisation'),
}
REAL = ['all of src/brski (brski command, registrar, MASA and pledge code, HTTP/TLS glue with the vendored httplib)', 'all of src/voucher and src/utils',
        'minIni (system library)', 'OpenSSL (system library: TLS, CMS, X.509)', 'libstdc++ and libc apart from the replaced calls']
STUB = ['kernel sockets and TCP (simulated network)', 'file system (in-memory, with crash semantics)', 'POSIX threads, mutexes, condition variables (deterministic scheduler)',
        'clocks, sleeping, time zones', 'random numbers behind OpenSSL', 'process start, exit and crash', 'name resolution', 'test clients and hostile peers (written for the simulator)']
QUICK_WALL, THOROUGH_WALL, MIN_WALL = 330, 700, 75
SAFE_SET = re.compile(r'^s (clk\.|tz\.|ncpu |auditpre |verbose )')
DROP_ATTR = ('holdms', 'dripms', 'dripn', 'gap', 'end', 'times', 'after', 'dur', 'timeout')


def keyof(prop, text):
    return prop + ' ' + re.sub(r'[0-9a-f]{6,}|\d+', '#', text)[:90]


def wanted(prop, r):
    """violations of a result that concern this property"""
    return [(p, t) for p, t in r.get('viol', []) if p in (prop, 'CRASH')]


def known(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            m = re.match(r'finding: property=(\S+) match=/(.*?)/ (.*)', l)
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    except OSError:
        pass
    return out


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.exe, self.node = build()
        self.known = known(prop)
        self.cpus = min(os.cpu_count() or 1, 16)

    def unlisted(self, r):
        return [x for x in wanted(self.prop, r) if not any(k.search(x[1]) for k, _ in self.known)]

    def plan_of(self, seed):
        w = Worker(self.exe, self.node, 0)
        w.p.stdin.write('show %s %d %s\n' % (self.prop, seed, self.tier))
        w.p.stdin.flush()
        t = json.loads(w.p.stdout.readline())
        w.close()
        return t

    def run_plan(self, text, trace='', worker=None, name='plan'):
        d = os.path.join(HERE, 'build', 'tmp')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '%d-%s' % (os.getpid(), name))
        open(f, 'w').write(text)
        w = worker or Worker(self.exe, self.node, 0)
        r = w.ask('plan %s %s' % (f, trace))
        if not worker:
            w.close()
        os.unlink(f)
        return r

    # ---------------------------------------------------------------- minimising
    def minimise(self, text, key, pool):
        end = time.time() + MIN_WALL
        tried = 0

        def fails(cands):
            """index of the first candidate that still fails the same way"""
            nonlocal tried
            hit = []
            d = os.path.join(HERE, 'build', 'tmp')
            os.makedirs(d, exist_ok=True)
            fs = []
            for i, c in enumerate(cands):
                f = os.path.join(d, '%d-c%d' % (os.getpid(), i))
                open(f, 'w').write('\n'.join(c) + '\n')
                fs.append('plan ' + f)

            def cb(q, r):
                nonlocal tried
                tried += 1
                if any(keyof(*x) == key for x in wanted(self.prop, r)):
                    hit.append(fs.index(q))
            pool.map(iter(fs), cb, lambda: bool(hit) or time.time() > end)
            for f in fs:
                os.unlink(f[5:])
            return min(hit) if hit else None
        cur = [l for l in text.split('\n') if l]

        def sweep(sel, change):
            nonlocal cur
            idx = [i for i, l in enumerate(cur) if sel(l)]
            n = max(1, len(idx) // 2)
            while idx and time.time() < end:
                groups = [idx[i:i + n] for i in range(0, len(idx), n)]
                cands = [[x for x in (change(l) if i in g else l for i, l in enumerate(cur)) if x is not None] for g in map(set, groups)]
                cands = [c if c != cur else None for c in cands]
                live = [c for c in cands if c]
                k = fails(live) if live else None
                if k is not None:
                    cur = live[k]
                    idx = [i for i, l in enumerate(cur) if sel(l) and change(l) != l]
                    n = max(1, min(n, len(idx)))
                elif n == 1:
                    break
                else:
                    n = max(1, n // 2)
        sweep(lambda l: l[:2] in ('f ', 'o '), lambda l: None)
        sweep(lambda l: l[:2] == 'k ', lambda l: None)
        sweep(lambda l: SAFE_SET.match(l), lambda l: None)
        for a in DROP_ATTR:
            sweep(lambda l: l[:2] in ('o ', 'f ') and ' %s=' % a in l, lambda l: re.sub(' %s=\\S+' % a, '', l))
        sweep(lambda l: l[:2] in ('f ', 'o '), lambda l: None)
        return '\n'.join(cur) + '\n', tried

    # ---------------------------------------------------------------- main
    def explore(self):
        t0 = time.time()
        total = RULES[self.prop][0] if self.tier == 'quick' else 10 ** 9
        wall = QUICK_WALL if self.tier == 'quick' else THOROUGH_WALL
        base = (self.seed - 1) * 10 ** 7 + (0 if self.tier == 'quick' else 5 * 10 ** 6)
        print('seed %d: runs %d.. of %s, %s tier' % (self.seed, base, self.prop, self.tier), flush=True)
        pool = Pool(self.exe, self.node, self.cpus)
        t1 = time.time()
        st = self.st = dict(runs=0, sim=0.0, nontrivial=set(), sched=set(), faults=collections.Counter(), stats=collections.Counter(),
                            switches=0, preempts=0, events=0, conns=0, procs=0, threads=0, ops=0, infra=[], samples=[], bbs=0)
        found, seen_known = [], collections.Counter()

        def cb(q, r):
            seed = int(q.split()[2])
            if 'infra' in r:
                st['infra'].append((seed, str(r['infra'])[:2000]))
                return
            st['runs'] += 1
            st['sim'] += r['simtime']
            st['sched'].add(r['sched'])
            for k in ('switches', 'preempts', 'events', 'conns', 'procs', 'threads', 'ops', 'bbs'):
                st[k] += r[k]
            st['faults'].update(r['faults'])
            st['stats'].update(r['stats'])
            if any(r['stats'].get(k) for k in RULES[self.prop][1]):
                st['nontrivial'].add(r['hash'])
                if len(st['samples']) < 3:
                    st['samples'].append(seed)
            for x in wanted(self.prop, r):
                for k, what in self.known:
                    if k.search(x[1]):
                        seen_known[what] += 1
            u = self.unlisted(r)
            if u:
                found.append((seed, u, r))
        seeds = (('gen %s %d %s' % (self.prop, base + i, self.tier)) for i in range(total))
        pool.map(seeds, cb, lambda: bool(found) or time.time() - t1 > wall or len(st['infra']) > 30)
        st['wall_run'] = time.time() - t1
        st['build_s'] = t1 - t0
        # basic blocks of the program reached
        cov = set()
        d = os.path.join(HERE, 'build', 'tmp')
        os.makedirs(d, exist_ok=True)
        for i, w in enumerate(pool.ws):
            f = os.path.join(d, '%d-cov%d' % (os.getpid(), i))
            w.ask('cov ' + f)
            if os.path.exists(f):
                cov.update(open(f).read().split())
                os.unlink(f)
        st['bb_reached'] = len(cov)
        for k, what in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        code = 0
        confirmed = None
        for seed, u, r in sorted(found, key=lambda x: x[0]):
            c = self.confirm(seed, u, r, pool)
            if c:
                confirmed = c
                break
        st['violation'] = confirmed
        pool.close()
        if confirmed:
            code = 1
        elif found:
            print('ERROR: %d violation(s) did not reproduce: %s' % (len(found), found[0][1][:2]))
            code = 2
        elif len(st['infra']) > 3 or st['runs'] == 0:
            print('ERROR: simulator problems:', st['infra'][:2])
            code = 2
        self.evidence(time.time() - t0, code)
        if code == 0:
            print('%s held in %d simulated runs (%d distinct schedules, %.0f s simulated, %.0f s wall)' % (self.prop, st['runs'], len(st['sched']), st['sim'], time.time() - t0))
        return code

    def confirm(self, seed, u, r, pool):
        key = keyof(*u[0])
        text = self.plan_of(seed)
        a = self.run_plan(text)
        b = self.run_plan(text)
        same = [x for x in (a, b) if any(keyof(*y) == key for y in wanted(self.prop, x))]
        if len(same) < 2:
            print('seed %d: %s did not reproduce from its plan' % (seed, u[0]))
            return None
        exact = a.get('hash') == b.get('hash') == r.get('hash')
        print('seed %d: %s: %s' % (seed, u[0][0], u[0][1]), flush=True)
        small, tried = self.minimise(text, key, pool)
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, '%s-%d.plan' % (self.prop, seed))
        fin = self.run_plan(small)
        if not any(keyof(*y) == key for y in wanted(self.prop, fin)):
            small, fin = text, self.run_plan(text)
        open(f, 'w').write(small)
        tr = f[:-5] + '.trace'
        self.run_plan(small, tr)
        n = lambda t: sum(l[:2] in ('o ', 'f ') for l in t.split('\n'))
        print('minimised from %d to %d operations and faults in %d runs; trace in %s; %s' % (n(text), n(small), tried, tr, 'replays exactly' if exact else 'replays the violation'))
        print(small)
        for p, t in wanted(self.prop, fin)[:5]:
            print('%s: %s' % (p, t))
        if fin.get('crash'):
            print(symbolize(fin['crash'][:5000], self.node))
        print('VIOLATION property=%s replay=%s' % (self.prop, f), flush=True)
        return dict(seed=seed, what=u[0][1], replay=f, exact=exact, minimise_runs=tried)

    def evidence(self, wall, code):
        st = self.st
        samples = []
        for s in st['samples']:
            samples.append({'seed': s, 'plan': self.plan_of(s).split('\n')})
        h = st['wall_run'] / 3600 or 1
        ev = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration',
            'coverage': {
                'evaluations': st['runs'], 'distinct_nontrivial': len(st['nontrivial']),
                'rule': 'Every run is generated from its own seed (topology, identities, operations, faults, schedule and network parameters) and judged by the oracles of the property. '
                        'Distinct: different hash over all simulated events. Non-trivial: ' + RULES[self.prop][2] + '.',
                'samples': samples, 'runs_per_hour': round(st['runs'] / h), 'simulated_seconds': round(st['sim'], 1),
                'distinct_schedules': len(st['sched']), 'context_switches': st['switches'], 'preemptions_inside_program_code': st['preempts'],
                'network_events': st['events'], 'connections': st['conns'], 'processes': st['procs'], 'threads': st['threads'], 'operations': st['ops'],
                'faults_injected': dict(sorted(st['faults'].items())), 'observations': dict(sorted(st['stats'].items())),
                'program_basic_blocks_executed': st['bbs'], 'distinct_program_basic_blocks_reached': st['bb_reached'],
                'real_components': REAL, 'stub_components': STUB, 'harness_errors': len(st['infra']),
            },
            'assumptions': ['sampling, not enumeration', 'suspension points: simulated operations and basic-block boundaries of the program, none inside OpenSSL locks',
                            'OpenSSL, libstdc++ and minIni are trusted'],
            'wall_s': round(wall, 1), 'violations': 1 if code == 1 else 0,
        }
        if st.get('violation'):
            ev['coverage']['violation'] = st['violation']
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        f = os.path.join(HERE, 'evidence', self.prop + '.json')
        open(f + '.tmp', 'w').write(json.dumps(ev, indent=1) + '\n')
        os.rename(f + '.tmp', f)


def main():
    a = sys.argv[1:]
    if not a or a[0] not in RULES:
        print(__doc__)
        return 2
    prop = a[0]
    if len(a) > 2 and a[1] == '--replay':
        c = Check(prop, 'quick')
        r = c.run_plan(open(a[2]).read(), os.path.abspath(a[3]) if len(a) > 3 else '')
        if 'infra' in r:
            print('ERROR:', r['infra'])
            return 2
        print('hash %s, %.3f s simulated' % (r['hash'], r['simtime']))
        for p, t in r['viol']:
            print('%s: %s' % (p, t))
        if r['crash']:
            print(symbolize(r['crash'], c.node))
        if c.unlisted(r):
            print('VIOLATION property=%s replay=%s' % (prop, a[2]))
            return 1
        return 0
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return Check(prop, tier).explore()


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit as e:
        print(e.code)
        code = 2
    sys.exit(code)
