#!/usr/bin/env python3
"""Builds the simulator and the program under test (from /repo's working tree) into /verif/build/<key>."""
import fcntl, glob, hashlib, json, os, shlex, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BRSKI_REPO', '/repo')
OUT = os.environ.get('BRSKI_SIM_BUILD', os.path.join(HERE, 'build'))
NINST = 24
NODE_FLAGS = ('-fPIC -Og -g1 -w -Wno-error -fsanitize=address -fsanitize-coverage=trace-pc '
              '-fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0').split()
SIM_FLAGS = '-std=c++17 -O1 -g1 -w -fno-threadsafe-statics -fno-omit-frame-pointer'.split()
WRAP = ','.join('--wrap=' + f for f in 'malloc calloc realloc free strdup strndup'.split())


def tree_files(d, exts=None):
    r = []
    for p, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in ('.git', 'build', 'out', 'node_modules'))
        for f in sorted(fs):
            if exts is None or os.path.splitext(f)[1] in exts:
                r.append(os.path.join(p, f))
    return r


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        try:
            h.update(open(f, 'rb').read())
        except OSError:
            pass
    return h.hexdigest()[:16]


def run(a, **kw):
    r = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stdout.write(r.stdout.decode(errors='replace')[-4000:])
        raise SystemExit('build failed: ' + ' '.join(a)[:300])
    return r.stdout.decode(errors='replace')


def build_sim(pool):
    src = sorted(glob.glob(HERE + '/sim/*.cpp'))
    key = digest(sorted(glob.glob(HERE + '/sim/*')), ' '.join(SIM_FLAGS))
    d = os.path.join(OUT, 'sim-' + key)
    exe = d + '/worker'
    if os.path.exists(exe):
        return [], lambda: exe
    os.makedirs(d, exist_ok=True)

    def comp(s):
        o = d + '/' + os.path.basename(s)[:-4] + '.o'
        run(['g++'] + SIM_FLAGS + ['-c', s, '-o', o])
        return o
    src.sort(key=lambda s: -os.path.getsize(s))
    futs = [pool.submit(comp, s) for s in src]

    def link():
        objs = [f.result() for f in futs]
        run(['g++', '-fsanitize=address', '-rdynamic', '-o', exe + '.tmp'] + objs + ['-lssl', '-lcrypto', '-ldl', '-lpthread'])
        os.rename(exe + '.tmp', exe)
        for o in objs:
            os.unlink(o)
        return exe
    return futs, link


def build_node(pool):
    files = [f for f in tree_files(REPO) if f.split(REPO + '/', 1)[1].split('/')[0] not in ('tests', 'docs', '_build', 'debian')]
    key = digest([f for f in files if os.path.isfile(f)] + sorted(glob.glob(HERE + '/sim/node/*.c')), ' '.join(NODE_FLAGS) + WRAP + str(NINST))
    d = os.path.join(OUT, 'node-' + key)
    if os.path.exists(d + '/done'):
        return d
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = {k: v for k, v in os.environ.items() if not k.startswith('GITHUB')}
    b = d + '/cm'
    run(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=None', '-DBUILD_TESTING=OFF',
         '-DCMAKE_C_COMPILER=/usr/bin/gcc', '-DCMAKE_CXX_COMPILER=/usr/bin/g++', '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON',
         '-DUSE_VOUCHER_OPENSSL=ON', '-DUSE_VOUCHER_WOLFSSL=OFF', '-DBUILD_OPENSSL3_LIB=OFF', '-DUSE_CPPHTTPLIB_LIB=ON',
         '-DFETCHCONTENT_SOURCE_DIR_CPP-HTTPLIB=/opt/vp/brski-cmake/httplib', '-DBUILD_LIB_MININI=OFF',
         '-DMinIni_DIR=/opt/vp/brski-cmake/minini', '-DBUILD_JSMN=OFF', '-DFETCHCONTENT_FULLY_DISCONNECTED=ON',
         '-DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS'], env=env)
    cc = json.load(open(b + '/compile_commands.json'))
    cc.sort(key=lambda c: -os.path.getsize(c['file']) - (10 ** 9 if 'http' in c['file'] or 'server' in c['file'] else 0))

    def comp(c):
        a = shlex.split(c['command']) + NODE_FLAGS
        if c['file'].endswith('.cpp'):
            a.append('-fno-gnu-unique')
        run(a, cwd=c['directory'])
        return os.path.join(c['directory'], a[a.index('-o') + 1])
    lib = sorted(glob.glob(HERE + '/sim/node/*.c'))

    def complib(f):
        o = d + '/' + os.path.basename(f)[:-2] + '.o'
        run(['gcc', '-I' + REPO + '/src/voucher', '-c', f, '-o', o] + NODE_FLAGS)
        return o
    objs = list(pool.map(comp, cc)) + list(map(complib, lib))
    run(['g++', '-shared', '-fsanitize=address', '-Wl,-Bsymbolic,' + WRAP, '-o', d + '/node.so'] + objs +
        ['-lminIni', '-lssl', '-lcrypto'])
    shutil.rmtree(b)
    for i in range(NINST):
        shutil.copyfile(d + '/node.so', d + '/node-%02d.so' % i)
    open(d + '/done', 'w').write('ok')
    return d


def build():
    os.makedirs(OUT, exist_ok=True)
    with open(OUT + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(10) as pool, ThreadPoolExecutor(8) as pool2:
            futs, fin = build_sim(pool2)
            node = build_node(pool)
            exe = fin()
        # keep the newest few builds only
        for pre, cur in (('node-', node), ('sim-', os.path.dirname(exe))):
            ds = sorted(glob.glob(OUT + '/' + pre + '*'), key=os.path.getmtime)
            for x in ds[:-3]:
                if x != cur:
                    shutil.rmtree(x, ignore_errors=True)
        os.utime(node)
        os.utime(os.path.dirname(exe))
    return exe, node


if __name__ == '__main__':
    t = time.time()
    e, n = build()
    print(e, n, '%.1fs' % (time.time() - t))
