"""Drives the built brski program (cwd is the repository) over loopback, inside a scratch directory."""
import atexit, base64, http.client, json, os, shutil, signal, socket, ssl, subprocess, sys, tempfile, threading, time
BRSKI = os.path.join(os.getcwd(), '_build/src/brski/brski')
D = tempfile.mkdtemp(prefix='demo-')
procs = []


def _bye():
    for p in procs:
        try:
            p.kill()
            p.wait(5)
        except Exception:
            pass
    shutil.rmtree(D, ignore_errors=True)


atexit.register(_bye)


def sh(*a, **kw):
    return subprocess.run(a, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw).stdout


class Id:
    def __init__(self, name):
        self.name, self.crt, self.key = name, '%s/%s.crt' % (D, name), '%s/%s.key' % (D, name)

    @property
    def der(self):
        return base64.b64decode(''.join(l for l in open(self.crt) if '-----' not in l))


_n = [1000]


def make(name, issuer=None, serial='', ca=False, days=3000):
    i = Id(name)
    _n[0] += 1
    subj = '/C=IE/CN=%s' % name + ('/serialNumber=' + serial if serial else '')
    sh('openssl', 'ecparam', '-name', 'prime256v1', '-genkey', '-noout', '-out', i.key + '.p1')
    sh('openssl', 'pkcs8', '-topk8', '-nocrypt', '-in', i.key + '.p1', '-out', i.key)
    ext = D + '/ext'
    open(ext, 'w').write('basicConstraints=critical,CA:%s\nsubjectKeyIdentifier=hash\n' % ('TRUE' if ca else 'FALSE'))
    sh('openssl', 'req', '-new', '-key', i.key, '-subj', subj, '-out', i.crt + '.csr')
    a = ['openssl', 'x509', '-req', '-in', i.crt + '.csr', '-days', str(days), '-extfile', ext, '-out', i.crt, '-set_serial', str(_n[0])]
    a += ['-CA', issuer.crt, '-CAkey', issuer.key] if issuer else ['-signkey', i.key]
    sh(*a)
    i.serial = serial
    return i


def port():
    s = socket.socket()
    s.bind(('127.0.0.1', 0))
    p = s.getsockname()[1]
    s.close()
    return p


class World:
    """A pledge, a registrar and a MASA with their own PKI."""

    def __init__(self, pledges=1):
        self.mfr = make('mfrca', ca=True)
        self.masaca = make('masaca', ca=True)
        self.dom = make('domca', ca=True)
        self.regcmsca = make('regcmsca', ca=True)
        self.idev = [make('idev%d' % i, self.mfr, 'SN-%d' % (1000 + i)) for i in range(pledges)]
        self.masacms = make('masacms', self.masaca)
        self.masatls = make('masatls', self.masaca)
        self.regtls = make('regtls', self.dom)
        self.regcms = make('regcms', self.regcmsca)
        self.rport, self.mport = port(), port()
        self.masa_extra = self.reg_extra = ''

    def conf(self, name, pl=None, nonce='AQIDBAUGBwg=', over={}, created=None):
        pl = pl or self.idev[0]
        q = lambda k, v: '%s = "%s"\n' % (k, v)
        s = {'pledge': [('serialNumber', pl.serial), ('idevidKeyPath', pl.key), ('idevidCertPath', pl.crt), ('idevidCACertPath', self.mfr.crt),
                        ('cmsSignKeyPath', pl.key), ('cmsSignCertPath', pl.crt), ('cmsVerifyStorePath', self.masaca.crt)],
             'registrar': [('bindAddress', '127.0.0.1'), ('port', self.rport), ('tlsKeyPath', self.regtls.key), ('tlsCertPath', self.regtls.crt),
                           ('tlsCAKeyPath', self.dom.key), ('tlsCACertPath', self.dom.crt), ('cmsSignKeyPath', self.regcms.key), ('cmsSignCertPath', self.regcms.crt),
                           ('cmsVerifyStorePath', self.mfr.crt)],
             'masa': [('bindAddress', '127.0.0.1'), ('port', self.mport), ('expiresOn', '2030-12-30T00:00:00Z'), ('ldevidCACertPath', self.dom.crt),
                      ('tlsKeyPath', self.masatls.key), ('tlsCertPath', self.masatls.crt), ('tlsCACertPath', self.masaca.crt),
                      ('cmsSignKeyPath', self.masacms.key), ('cmsSignCertPath', self.masacms.crt), ('cmsVerifyStorePath', self.regcmsca.crt)]}
        if nonce:
            s['pledge'].append(('nonce', nonce))
        if created:
            s['pledge'].append(('createdOn', created))
        f = '%s/%s.ini' % (D, name)
        o = ''
        for sec, kv in s.items():
            o += '[%s]\n' % sec
            for k, v in kv:
                v = over.get((sec, k), v)
                if v is None:
                    continue
                for x in (v if isinstance(v, list) else [v]):
                    o += '%s = %s\n' % (k, x) if k == 'port' else q(k, x)
            for (sc, k), v in over.items():
                if sc == sec and k not in dict(kv):
                    for x in (v if isinstance(v, list) else [v]):
                        o += q(k, x)
            o += '\n'
        open(f, 'w').write(o)
        return f

    def start(self, what, conf=None, env={}, args=(), pre=None):
        conf = conf or self.conf(what)
        p = subprocess.Popen([BRSKI, '-c', conf, *args, what], stdout=subprocess.PIPE, stderr=open('%s/%s.err' % (D, what), 'w'), cwd=D, env={**os.environ, **env}, preexec_fn=pre)
        procs.append(p)
        pt = self.rport if what == 'registrar' else self.mport
        for _ in range(200):
            if p.poll() is not None:
                break
            try:
                socket.create_connection(('127.0.0.1', pt), 1).close()
                return p
            except OSError:
                time.sleep(0.05)
        return p

    def run(self, cmd, conf=None, *args, env={}, timeout=60, inp=None):
        conf = conf or self.conf('pledge')
        return subprocess.run([BRSKI, '-c', conf, *args, cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=D, env={**os.environ, **env}, timeout=timeout, input=inp)


def post(pt, path, body, who=None, method='POST', timeout=30):
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    c.check_hostname, c.verify_mode = False, ssl.CERT_NONE
    if who:
        c.load_cert_chain(who.crt, who.key)
    h = http.client.HTTPSConnection('127.0.0.1', pt, context=c, timeout=timeout)
    h.request(method, path, body, {'Content-Type': 'application/voucher-cms+json'})
    r = h.getresponse()
    b = r.read()
    h.close()
    return r.status, b, r.getheaders()


RV, SE = '/.well-known/brski/requestvoucher', '/.well-known/est/simpleenroll'


def cms(content, who, certs=()):
    """DER CMS signed data over the given bytes"""
    f = '%s/c%d' % (D, time.monotonic_ns())
    open(f, 'wb').write(content)
    a = ['openssl', 'cms', '-sign', '-nodetach', '-binary', '-outform', 'DER', '-in', f, '-signer', who.crt, '-inkey', who.key, '-out', f + '.der']
    for c in certs:
        a += ['-certfile', c.crt]
    sh(*a)
    return open(f + '.der', 'rb').read()


def uncms(der):
    f = '%s/u%d' % (D, time.monotonic_ns())
    open(f, 'wb').write(der)
    return sh('openssl', 'cms', '-verify', '-noverify', '-inform', 'DER', '-in', f)


def b64(b):
    return base64.b64encode(b).decode()


def pvr(w, pl, **kw):
    """pledge voucher request; keyword arguments replace or (None) drop members"""
    j = {'created-on': '2026-01-01T00:00:00Z', 'nonce': 'AQIDBAUGBwg=', 'serial-number': pl.serial, 'assertion': 'proximity', 'proximity-registrar-cert': b64(w.regtls.der)}
    signer = kw.pop('signer', pl)
    for k, v in kw.items():
        j[k.replace('_', '-')] = v
    return cms(json.dumps({'ietf-voucher:voucher': {k: v for k, v in j.items() if v is not None}}, separators=(',', ':')).encode(), signer)


def rvr(w, prior, serial, **kw):
    j = {'created-on': '2026-01-01T00:00:00Z', 'nonce': 'AQIDBAUGBwg=', 'serial-number': serial, 'idevid-issuer': 'AAEC', 'prior-signed-voucher-request': b64(prior)}
    signer = kw.pop('signer', w.regcms)
    for k, v in kw.items():
        j[k.replace('_', '-')] = v
    return cms(json.dumps({'ietf-voucher:voucher': {k: v for k, v in j.items() if v is not None}}, separators=(',', ':')).encode(), signer)


def voucher(w, pl, **kw):
    j = {'created-on': '2026-01-01T00:00:00Z', 'expires-on': '2030-12-30T00:00:00Z', 'nonce': 'AQIDBAUGBwg=', 'serial-number': pl.serial, 'assertion': 'proximity', 'pinned-domain-cert': b64(w.dom.der), 'domain-cert-revocation-checks': False}
    signer = kw.pop('signer', w.masacms)
    for k, v in kw.items():
        j[k.replace('_', '-')] = v
    return cms(json.dumps({'ietf-voucher:voucher': {k: v for k, v in j.items() if v is not None}}, separators=(',', ':')).encode(), signer)


def content(body):
    return json.loads(uncms(base64.b64decode(body)))['ietf-voucher:voucher']


class Fake:
    """TLS server that answers requests through a function (path, body) -> (status, body) or None to drop"""

    def __init__(self, pt, ident, fn, raw=False):
        self.fn, self.raw, self.seen = fn, raw, []
        c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        c.load_cert_chain(ident.crt, ident.key)
        self.c = c
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(('127.0.0.1', pt))
        self.s.listen(50)
        threading.Thread(target=self.loop, daemon=True).start()

    def loop(self):
        while True:
            try:
                k, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.one, args=(k,), daemon=True).start()

    def one(self, k):
        try:
            k = self.c.wrap_socket(k, server_side=True)
            b = b''
            while True:
                while b'\r\n\r\n' not in b:
                    d = k.recv(65536)
                    if not d:
                        return
                    b += d
                h, b = b.split(b'\r\n\r\n', 1)
                n = 0
                for l in h.decode().split('\r\n'):
                    if l.lower().startswith('content-length:'):
                        n = int(l.split(':')[1])
                while len(b) < n:
                    b += k.recv(65536)
                body, b = b[:n], b[n:]
                path = h.split()[1].decode()
                self.seen.append((path, body))
                r = self.fn(path, body)
                if r is None:
                    return
                if self.raw:
                    k.sendall(r)
                    return
                st, t = r
                if isinstance(t, str):
                    t = t.encode()
                k.sendall(b'HTTP/1.1 %d X\r\nContent-Type: text/plain\r\nContent-Length: %d\r\n\r\n' % (st, len(t)) + t)
        except OSError:
            pass
        finally:
            try:
                k.close()
            except OSError:
                pass


def check(ok, what):
    print(('ok: ' if ok else 'BROKEN: ') + what)
    if not ok:
        sys.exit(1)


def shim(src):
    """environment that preloads the given C code (replaces libc calls in the program under test)"""
    f = '%s/shim%d' % (D, time.monotonic_ns())
    open(f + '.c', 'w').write(src)
    sh('gcc', '-shared', '-fPIC', '-O1', '-D_GNU_SOURCE', '-o', f + '.so', f + '.c', '-ldl')
    return {'LD_PRELOAD': f + '.so'}


# sends the audit log to a file in the scratch directory
AUDIT = D + '/audit.log'
AUDIT_SRC = r'''
#include <dlfcn.h>
#include <stdio.h>
#include <string.h>
#include <fcntl.h>
#include <stdarg.h>
static const char *m(const char *p){ return strcmp(p,"/var/log/brski-registrar.log") ? p : "%s"; }
FILE *fopen(const char *p,const char *o){ static FILE*(*f)(const char*,const char*); if(!f) f=dlsym(RTLD_NEXT,"fopen"); return f(m(p),o); }
FILE *fopen64(const char *p,const char *o){ return fopen(p,o); }
int truncate(const char *p,long n){ static int(*f)(const char*,long); if(!f) f=dlsym(RTLD_NEXT,"truncate"); return f(m(p),n); }
''' % AUDIT


def req(w, name='ldevid-x', issuer=None, **kw):
    """certificate a client wants signed (as the sign command makes it)"""
    return make(name, issuer, **kw)


def refused(pt, path, body, who=None, timeout=30):
    """True when the exchange gets no HTTP reply at all"""
    try:
        post(pt, path, body, who, timeout=timeout)
    except (OSError, http.client.HTTPException):
        return True
    return False
