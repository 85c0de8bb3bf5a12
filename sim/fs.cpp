// Simulated disks, stdio streams, standard input/output, allocation accounting and TLS plaintext taps.
#include "core.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <new>
#include <openssl/ssl.h>
#include <openssl/x509.h>
#include <openssl/rand.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

namespace sim {
struct OpenFile {
  std::shared_ptr<Vnode> v;
  Host *h = nullptr;
  std::string path;
  size_t pos = 0;
  bool rd = false, wr = false, app = false;
  Proc *p = nullptr;
  int fd = -1;
  FILE *f = nullptr;
  std::string view; // content seen by a reader (may be corrupted by a fault)
  bool useview = false;
};
int alloc_fd(Proc *p);

void fs_put(Host *h, const std::string &path, const std::string &data) {
  auto v = std::make_shared<Vnode>();
  v->data = data;
  h->fs[path] = v;
}
bool fs_get(Host *h, const std::string &path, std::string *data) {
  auto i = h->fs.find(path);
  if (i == h->fs.end()) return false;
  if (data) *data = i->second->data;
  return true;
}
void fs_del(Host *h, const std::string &path) { h->fs.erase(path); }

static FileFault *match(OpenFile *of, char op, bool fatal = true) {
  for (auto &f : S->ffaults) {
    if (f.op != op || !of->h || of->h->name != f.host || of->path.find(f.path) == std::string::npos) continue;
    int k = f.seen++;
    if (k < f.nth) continue;
    if (f.count >= 0 && f.fired >= f.count) continue;
    f.fired++;
    fired("disk_" + f.kind);
    S->fhits.push_back({++S->seq, S->now, cur ? cur->id : -1, of->p ? of->p->id : -1, op, of->path, fatal});
    mix(0xd15c + op);
    tr("disk fault %s on %s", f.kind.c_str(), of->path.c_str());
    return &f;
  }
  return nullptr;
}
static std::string norm(const char *p) {
  std::string s = p;
  if (s.empty() || s[0] != '/') s = "/cwd/" + s;
  return s;
}
static std::shared_ptr<OpenFile> do_open(const char *path, bool rd, bool wr, bool app, bool creat, bool trunc, bool excl) {
  Proc *p = cproc();
  if (!p->host) { errno = ENOENT; return nullptr; }
  if (p->host->slow_disk && !cur->nopreempt) sleep_for(S->rf.below(p->host->slow_disk));
  else opcost();
  InSim g;
  auto of = std::make_shared<OpenFile>();
  of->h = p->host; of->path = norm(path); of->rd = rd; of->wr = wr; of->app = app; of->p = p;
  mixs(of->path.c_str());
  for (size_t a = 0, b; a < of->path.size(); a = b + 1) { // NAME_MAX, PATH_MAX
    b = of->path.find('/', a); if (b == std::string::npos) b = of->path.size();
    if (b - a > 255 || of->path.size() > 4095) { errno = ENAMETOOLONG; return nullptr; }
  }
  if (FileFault *f = match(of.get(), 'o')) { errno = f->err; return nullptr; }
  auto i = p->host->fs.find(of->path);
  if (i == p->host->fs.end()) {
    if (!creat) { errno = ENOENT; return nullptr; }
    size_t sl = of->path.rfind('/');
    std::string dir = of->path.substr(0, sl);
    bool ok = false; // the directory must exist (contain something or be declared)
    for (auto &e : p->host->fs) if (e.first == dir ? e.second->dir : e.first.compare(0, dir.size() + 1, dir + "/") == 0) { ok = true; break; }
    if (!ok) { errno = ENOENT; return nullptr; }
    of->v = std::make_shared<Vnode>();
    p->host->fs[of->path] = of->v;
  } else {
    if (creat && excl) { errno = EEXIST; return nullptr; }
    if (i->second->dir) {
      if (wr) { errno = EISDIR; return nullptr; }
    }
    if ((rd && !i->second->readable) || (wr && !i->second->writable)) { errno = EACCES; return nullptr; }
    of->v = i->second;
    if (trunc && wr) {
      if (p->host->disk_free >= 0) p->host->disk_free += of->v->data.size();
      of->v->data.clear();
    }
  }
  if (rd && !wr) {
    if (FileFault *f = of->path.find(".ini") != std::string::npos ? nullptr : match(of.get(), 'k', false)) { // corrupted content
      of->view = of->v->data; of->useview = true;
      if (!of->view.empty()) {
        size_t at = (size_t)f->arg % of->view.size();
        // damage that the encoding shows: a silently altered but well-formed key or certificate is not the program's to notice
        of->view[at] = of->view[at] == '\n' ? '\n' : '\x01';
      }
    } else if (FileFault *f = match(of.get(), 's', false)) { // truncated content (torn earlier write)
      of->view = of->v->data.substr(0, f->arg ? (size_t)f->arg % (of->v->data.size() + 1) : 0);
      S->fhits.back().fatal = of->view.find("-----END") == std::string::npos && of->path.find(".ini") == std::string::npos;
      of->useview = true;
    } else if (FileFault *f = match(of.get(), 'x', of->path.find(".ini") == std::string::npos)) { // replaced content
      of->view.assign((size_t)(f->arg % 5000), (char)('!' + f->arg % 90)); of->useview = true;
    }
  }
  tr("open %s", of->path.c_str());
  return of;
}
static ssize_t of_read(OpenFile *of, char *b, size_t n) {
  if (!of->rd) { errno = EBADF; return -1; }
  if (of->v->dir) { errno = EISDIR; return -1; }
  if (FileFault *f = match(of, 'r', of->pos == 0)) { if (f->count >= 0) S->fhits.back().fatal = false; /* a retry may succeed */ errno = f->err; return -1; }
  const std::string &d = of->useview ? of->view : of->v->data;
  size_t av = of->pos < d.size() ? d.size() - of->pos : 0;
  size_t k = std::min(av, n);
  memcpy(b, d.data() + of->pos, k);
  of->pos += k;
  return (ssize_t)k;
}
static ssize_t of_write(OpenFile *of, const char *b, size_t n) {
  if (!of->wr) { errno = EBADF; return -1; }
  size_t k = n;
  if (FileFault *f = match(of, 'w')) {
    if (f->arg > 0 && (size_t)f->arg < n) k = (size_t)f->arg; // partial write, then the error
    else { errno = f->err; return -1; }
  }
  if (of->h && of->h->disk_free >= 0) {
    if (of->h->disk_free == 0) { fired("disk_full"); errno = ENOSPC; return -1; }
    k = std::min<size_t>(k, (size_t)of->h->disk_free);
    of->h->disk_free -= k;
  }
  auto &d = of->v->data;
  if (of->app) of->pos = d.size();
  if (of->pos > d.size()) d.resize(of->pos, '\0');
  d.replace(of->pos, std::min(k, d.size() - of->pos), b, k);
  of->pos += k;
  of->v->wlog.push_back({++S->seq, S->now, d.size(), cur ? cur->id : -1});
  mix(0xf00 + k);
  return (ssize_t)k;
}
// stdio cookies
static ssize_t ck_read(void *c, char *b, size_t n) { InSim g; return of_read((OpenFile *)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
  InSim g;
  // the C library repeats a short write until an error is reported
  size_t k = 0;
  while (k < n) { ssize_t r = of_write((OpenFile *)c, b + k, n - k); if (r <= 0) break; k += (size_t)r; }
  return (ssize_t)k;
}
static int ck_seek(void *c, off64_t *o, int w) {
  InSim g;
  auto *of = (OpenFile *)c;
  int64_t size = (int64_t)(of->useview ? of->view.size() : of->v->data.size());
  int64_t base = w == SEEK_SET ? 0 : w == SEEK_CUR ? (int64_t)of->pos : size;
  if (base + *o < 0) { errno = EINVAL; return -1; }
  of->pos = (size_t)(base + *o);
  *o = (off64_t)of->pos;
  return 0;
}
static std::map<OpenFile *, std::shared_ptr<OpenFile>> *keep;
static int ck_close(void *c) {
  InSim g;
  auto *of = (OpenFile *)c;
  int rc = 0;
  if (of->wr) if (FileFault *f = match(of, 'c')) { errno = f->err; rc = -1; }
  Proc *p = of->p;
  p->fds.erase(of->fd);
  auto &v = p->files;
  v.erase(std::remove(v.begin(), v.end(), of->f), v.end());
  tr("close %s", of->path.c_str());
  keep->erase(of);
  return rc;
}
static FILE *sim_fopen(const char *path, const char *mode) {
  if (!path) { errno = EFAULT; return nullptr; } // as glibc does
  bool plus = strchr(mode, '+');
  bool rd = mode[0] == 'r' || plus, wr = mode[0] != 'r' || plus, app = mode[0] == 'a';
  int fd;
  Proc *p = cproc();
  fd = alloc_fd(p);
  if (fd < 0) { errno = EMFILE; return nullptr; }
  auto of = do_open(path, rd, wr, app, mode[0] != 'r', mode[0] == 'w', strchr(mode, 'x'));
  if (!of) return nullptr;
  InSim g;
  fd = alloc_fd(p);
  if (fd < 0) { errno = EMFILE; return nullptr; }
  cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
  if (!keep) keep = new std::map<OpenFile *, std::shared_ptr<OpenFile>>();
  (*keep)[of.get()] = of;
  FILE *f = fopencookie(of.get(), mode, io);
  of->f = f; of->fd = fd;
  Fd e; e.file = of;
  p->fds[fd] = e;
  p->files.push_back(f);
  return f;
}
bool file_fd(int fd) { auto &m = cproc()->fds; auto i = m.find(fd); return i != m.end() && i->second.file; }
static size_t out_write(int which, const char *b, size_t n) {
  Proc *p = cproc();
  if (which == 1 && p->out_left >= 0) {
    if (p->out_left < (int64_t)n) { fired("stdout_full"); p->out_err = true; }
    n = (size_t)std::min<int64_t>((int64_t)n, p->out_left);
    p->out_left -= (int64_t)n;
  }
  if (which == 1) p->out.append(b, n);
  else { p->err.append(b, n); p->errw.push_back({S->now, cur->id, std::string(b, n), p->host ? p->host->clock_off : 0, p->host ? p->host->tz_off : 0}); }
  mix(0x0e + which + n);
  return n;
}
ssize_t file_read(int fd, void *b, size_t n) {
  Proc *p = cproc();
  auto i = p->fds.find(fd);
  if (i == p->fds.end()) { errno = EBADF; return -1; }
  if (i->second.std == 0) {
    InSim g;
    size_t k = std::min(n, p->in.size() - p->inpos);
    memcpy(b, p->in.data() + p->inpos, k);
    p->inpos += k;
    return (ssize_t)k;
  }
  if (i->second.file) { auto f = i->second.file; opcost(); InSim g; return of_read(f.get(), (char *)b, n); }
  errno = EBADF;
  return -1;
}
ssize_t file_write(int fd, const void *b, size_t n) {
  Proc *p = cproc();
  auto i = p->fds.find(fd);
  if (i == p->fds.end()) { errno = EBADF; return -1; }
  if (i->second.std > 0) { InSim g; size_t k = out_write(i->second.std, (const char *)b, n); if (!k && n) { errno = ENOSPC; return -1; } return (ssize_t)k; }
  if (i->second.file) { auto f = i->second.file; opcost(); InSim g; return of_write(f.get(), (const char *)b, n); }
  errno = EBADF;
  return -1;
}
int file_close(int fd) {
  Proc *p = cproc();
  auto i = p->fds.find(fd);
  if (i == p->fds.end()) { errno = EBADF; return -1; }
  int rc = 0;
  auto f = i->second.file;
  if (f && f->wr) if (FileFault *ff = match(f.get(), 'c')) { errno = ff->err; rc = -1; }
  p->fds.erase(i);
  return rc;
}
static ssize_t so_write(void *c, const char *b, size_t n) {
  if (!cur) { return syscall(1, 2, b, n); }
  InSim g;
  size_t k = out_write((int)(intptr_t)c, b, n);
  if (k < n) { errno = ENOSPC; return (ssize_t)k; }
  // the stream is locked by the C library here: the write gives up the processor right after the call
  if ((intptr_t)c == 2 && S->rs.chance(S->k.yieldpm / 1000.0)) soon();
  return (ssize_t)n;
}
static ssize_t si_read(void *, char *b, size_t n) {
  if (!cur) return 0;
  return file_read(0, b, n);
}
void init_stdio() {
  cookie_io_functions_t o = {nullptr, so_write, nullptr, nullptr};
  cookie_io_functions_t in = {si_read, nullptr, nullptr, nullptr};
  stdout = fopencookie((void *)1, "w", o); setvbuf(stdout, nullptr, _IONBF, 0);
  stderr = fopencookie((void *)2, "w", o); setvbuf(stderr, nullptr, _IONBF, 0);
  stdin = fopencookie(nullptr, "r", in); setvbuf(stdin, nullptr, _IONBF, 0);
}
} // namespace sim
using namespace sim;
#define SIMULATED (cur && !cur->insim)
#define NODE (cur && !cur->insim && cur->proc->node)
#define EXPORT extern "C" __attribute__((visibility("default")))
#define RN(ret, name, ...) static auto real = (ret(*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)

static void release_boot() { // option parsing is over once the first file is opened
  Thread *t = cur;
  if (t == t->proc->main && t->nopreempt == 1) t->nopreempt = 0;
}
EXPORT FILE *fopen(const char *p, const char *m) {
  RN(FILE *, fopen, const char *, const char *);
  if (!NODE) return real(p, m);
  release_boot();
  return sim_fopen(p, m);
}
EXPORT FILE *fopen64(const char *p, const char *m) {
  RN(FILE *, fopen64, const char *, const char *);
  if (!NODE) return real(p, m);
  release_boot();
  return sim_fopen(p, m);
}
EXPORT FILE *fdopen(int fd, const char *m) __THROW {
  RN(FILE *, fdopen, int, const char *);
  if (!NODE) return real(fd, m);
  errno = EBADF;
  return nullptr;
}
EXPORT int fileno(FILE *f) __THROW {
  RN(int, fileno, FILE *);
  if (!NODE) return real(f);
  if (f == stdin) return 0;
  if (f == stdout) return 1;
  if (f == stderr) return 2;
  for (auto &e : cproc()->fds) if (e.second.file && e.second.file->f == f) return e.first;
  errno = EBADF;
  return -1;
}
EXPORT int ferror(FILE *f) __THROW {
  RN(int, ferror, FILE *);
  if (NODE && f == stdout) return cproc()->out_err;
  return real(f);
}
EXPORT void clearerr(FILE *f) __THROW {
  RN(void, clearerr, FILE *);
  if (NODE && f == stdout) cproc()->out_err = false;
  real(f);
}
static int sopen(const char *p, int fl) {
  release_boot();
  if (alloc_fd(cproc()) < 0) { errno = EMFILE; return -1; }
  int acc = fl & O_ACCMODE;
  auto of = do_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_APPEND, fl & O_CREAT, fl & O_TRUNC, fl & O_EXCL);
  if (!of) return -1;
  InSim g;
  int fd = alloc_fd(cproc());
  of->fd = fd;
  Fd e; e.file = of;
  cproc()->fds[fd] = e;
  return fd;
}
EXPORT int open(const char *p, int fl, ...) {
  RN(int, open, const char *, int, ...);
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (!NODE) return real(p, fl, mode);
  return sopen(p, fl);
}
EXPORT int open64(const char *p, int fl, ...) {
  RN(int, open64, const char *, int, ...);
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (!NODE) return real(p, fl, mode);
  return sopen(p, fl);
}
EXPORT int openat(int d, const char *p, int fl, ...) {
  RN(int, openat, int, const char *, int, ...);
  va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
  if (!NODE) return real(d, p, fl, mode);
  return sopen(p, fl);
}
static int fillstat(Vnode *v, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_mode = v->dir ? S_IFDIR | 0755 : S_IFREG | 0644;
  st->st_size = (off_t)v->data.size();
  st->st_nlink = 1;
  return 0;
}
EXPORT int stat(const char *p, struct stat *st) __THROW {
  RN(int, stat, const char *, struct stat *);
  if (!NODE) return real(p, st);
  InSim g;
  auto i = cproc()->host->fs.find(norm(p));
  if (i == cproc()->host->fs.end()) { errno = ENOENT; return -1; }
  return fillstat(i->second.get(), st);
}
EXPORT int lstat(const char *p, struct stat *st) __THROW {
  RN(int, lstat, const char *, struct stat *);
  if (!NODE) return real(p, st);
  return stat(p, st);
}
EXPORT int access(const char *p, int m) __THROW {
  RN(int, access, const char *, int);
  if (!NODE) return real(p, m);
  struct stat st;
  return stat(p, &st);
}
EXPORT int fstat(int fd, struct stat *st) __THROW {
  RN(int, fstat, int, struct stat *);
  if (!NODE) return real(fd, st);
  InSim g;
  auto i = cproc()->fds.find(fd);
  if (i == cproc()->fds.end()) { errno = EBADF; return -1; }
  if (i->second.file) return fillstat(i->second.file->v.get(), st);
  memset(st, 0, sizeof *st);
  st->st_mode = i->second.sock ? S_IFSOCK : S_IFCHR;
  return 0;
}
EXPORT off_t lseek(int fd, off_t o, int w) __THROW {
  RN(off_t, lseek, int, off_t, int);
  if (!NODE) return real(fd, o, w);
  auto i = cproc()->fds.find(fd);
  if (i == cproc()->fds.end() || !i->second.file) { errno = ESPIPE; return -1; }
  off64_t x = o;
  if (ck_seek(i->second.file.get(), &x, w) < 0) return -1;
  return x;
}
EXPORT int fsync(int fd) {
  RN(int, fsync, int);
  if (!NODE) return real(fd);
  opcost();
  return 0;
}
EXPORT int fdatasync(int fd) {
  RN(int, fdatasync, int);
  if (!NODE) return real(fd);
  opcost();
  return 0;
}
static int cut(Host *h, Vnode *v, off_t n) {
  if (h && h->disk_free >= 0 && v->data.size() > (size_t)n) h->disk_free += v->data.size() - (size_t)n;
  v->data.resize((size_t)n);
  while (!v->wlog.empty() && v->wlog.back().size > (size_t)n) v->wlog.pop_back();
  mix(0xf10 + n);
  return 0;
}
EXPORT int ftruncate(int fd, off_t n) __THROW {
  RN(int, ftruncate, int, off_t);
  if (!NODE) return real(fd, n);
  opcost();
  InSim g;
  auto i = cproc()->fds.find(fd);
  if (i == cproc()->fds.end() || !i->second.file) { errno = EBADF; return -1; }
  return cut(i->second.file->h, i->second.file->v.get(), n);
}
EXPORT int truncate(const char *p, off_t n) __THROW {
  RN(int, truncate, const char *, off_t);
  if (!NODE) return real(p, n);
  opcost();
  InSim g;
  auto i = cproc()->host->fs.find(norm(p));
  if (i == cproc()->host->fs.end()) { errno = ENOENT; return -1; }
  return cut(cproc()->host, i->second.get(), n);
}
EXPORT int unlink(const char *p) __THROW {
  RN(int, unlink, const char *);
  if (!NODE) return real(p);
  opcost();
  InSim g;
  if (!cproc()->host->fs.erase(norm(p))) { errno = ENOENT; return -1; }
  return 0;
}
EXPORT int remove(const char *p) __THROW {
  RN(int, remove, const char *);
  if (!NODE) return real(p);
  return unlink(p);
}
EXPORT int rename(const char *a, const char *b) __THROW {
  RN(int, rename, const char *, const char *);
  if (!NODE) return real(a, b);
  opcost();
  InSim g;
  auto &fs = cproc()->host->fs;
  auto i = fs.find(norm(a));
  if (i == fs.end()) { errno = ENOENT; return -1; }
  fs[norm(b)] = i->second;
  fs.erase(norm(a));
  return 0;
}
EXPORT int mkdir(const char *p, mode_t m) __THROW {
  RN(int, mkdir, const char *, mode_t);
  if (!NODE) return real(p, m);
  InSim g;
  auto v = std::make_shared<Vnode>();
  v->dir = true;
  cproc()->host->fs[norm(p)] = v;
  return 0;
}
EXPORT int chmod(const char *p, mode_t m) __THROW {
  RN(int, chmod, const char *, mode_t);
  if (!NODE) return real(p, m);
  return 0;
}
EXPORT int fchmod(int fd, mode_t m) __THROW {
  RN(int, fchmod, int, mode_t);
  if (!NODE) return real(fd, m);
  return 0;
}
EXPORT mode_t umask(mode_t m) __THROW {
  RN(mode_t, umask, mode_t);
  if (!NODE) return real(m);
  return 022;
}

// ---------------------------------------------------------------- allocation
namespace sim {
struct Rec { size_t n; Proc *p; void *ra; };
struct PtrTab { // open addressing; grows with mmap-free realloc of libasan's allocator
  struct E { void *p; Rec r; };
  std::vector<E> t; size_t cnt = 0;
  PtrTab() { t.resize(1 << 16); }
  static size_t h(void *p) { uint64_t x = (uint64_t)p; x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; return x; }
  void put(void *p, Rec r) {
    if (cnt * 2 > t.size()) { std::vector<E> o; o.swap(t); t.resize(o.size() * 2); cnt = 0; for (auto &e : o) if (e.p) put(e.p, e.r); }
    size_t m = t.size() - 1, i = h(p) & m;
    while (t[i].p && t[i].p != p) i = (i + 1) & m;
    if (!t[i].p) cnt++;
    t[i] = {p, r};
  }
  bool take(void *p, Rec *r) {
    size_t m = t.size() - 1, i = h(p) & m;
    while (t[i].p && t[i].p != p) i = (i + 1) & m;
    if (!t[i].p) return false;
    *r = t[i].r;
    cnt--;
    size_t j = i; // backward shift deletion
    for (;;) {
      t[i].p = nullptr;
      for (;;) {
        j = (j + 1) & m;
        if (!t[j].p) return true;
        size_t k = h(t[j].p) & m;
        if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue;
        break;
      }
      t[i] = t[j];
      i = j;
    }
  }
};
static PtrTab *ptab;
bool account = false;
static void rec_alloc(void *p, size_t n, void *ra) {
  if (!p || !account || !cur || cur->insim || !cur->proc->node) return;
  InSim g;
  if (!ptab) ptab = new PtrTab();
  ptab->put(p, {n, cur->proc, ra});
  cur->proc->live_n++; cur->proc->live_b += n; cur->proc->allocs++;
}
static void rec_free(void *p) {
  if (!p || !ptab) return;
  Thread *t = cur;
  if (t) t->insim++;
  Rec r;
  if (ptab->take(p, &r)) { r.p->live_n--; r.p->live_b -= r.n; }
  if (t) t->insim--;
}
// summary of live allocations by call site (offset in the program image)
std::map<std::string, int64_t> live_sites(Proc *p) {
  InSim g;
  std::map<std::string, int64_t> m;
  if (!ptab) return m;
  for (auto &e : ptab->t)
    if (e.p && e.r.p == p) {
      char b[64];
      uintptr_t a = (uintptr_t)e.r.ra;
      if (p->inst && a >= p->inst->base && a < p->inst->end) snprintf(b, sizeof b, "node+0x%lx", (long)(a - p->inst->base));
      else snprintf(b, sizeof b, "lib/%zu", (size_t)e.r.n);
      m[b]++;
    }
  return m;
}
static bool fail_now() { // only called for the repository's own C allocations
  if (!NODE) return false;
  Proc *p = cur->proc;
  if (!p->alloc_count_on) return false;
  int64_t k = p->alloc_ctr++;
  if (p->fail_at >= 0 && k >= p->fail_at && k < p->fail_at + p->fail_len) {
    p->alloc_fired++;
    fired("alloc_fail");
    errno = ENOMEM;
    return true;
  }
  return false;
}
} // namespace sim
#define RA __builtin_return_address(0)
EXPORT void *__wrap_malloc(size_t n) { if (fail_now()) return nullptr; void *p = malloc(n); rec_alloc(p, n, RA); return p; }
EXPORT void *__wrap_calloc(size_t a, size_t b) { if (fail_now()) return nullptr; void *p = calloc(a, b); rec_alloc(p, a * b, RA); return p; }
EXPORT void *__wrap_realloc(void *o, size_t n) {
  if (fail_now()) return nullptr;
  void *p = realloc(o, n);
  if (p || n == 0) rec_free(o);
  rec_alloc(p, n, RA);
  return p;
}
EXPORT void __wrap_free(void *p) { rec_free(p); free(p); }
EXPORT char *__wrap_strdup(const char *s) {
  if (fail_now()) return nullptr;
  char *p = strdup(s);
  rec_alloc(p, strlen(s) + 1, RA);
  return p;
}
EXPORT char *__wrap_strndup(const char *s, size_t n) {
  if (fail_now()) return nullptr;
  char *p = strndup(s, n);
  rec_alloc(p, p ? strlen(p) + 1 : 0, RA);
  return p;
}
void *operator new(size_t n) {
  RN(void *, _Znwm, size_t);
  void *p = real(n);
  rec_alloc(p, n, RA);
  return p;
}
void operator delete(void *p) noexcept {
  RN(void, _ZdlPv, void *);
  rec_free(p);
  real(p);
}
void operator delete(void *p, size_t) noexcept {
  RN(void, _ZdlPv, void *);
  rec_free(p);
  real(p);
}
// OpenSSL's name tables, bignum words, locks and hash nodes are allocated in bulk and never reach the
// program: they come from a plain arena. Everything else goes through AddressSanitizer's allocator.
static char *ar_base, *ar_cur, *ar_end;
static void *ar_free[33];
static bool in_arena(void *p) { return (char *)p >= ar_base && (char *)p < ar_end; }
static bool bulk(const char *f, size_t n) {
  if (!f || n > 500 || !ar_base) return false;
  const char *b = strrchr(f, '/');
  b = b ? b + 1 : f;
  return !strcmp(b, "core_namemap.c") || !strcmp(b, "bn_lib.c") || !strcmp(b, "threads_pthread.c") || !strcmp(b, "lhash.c") ||
         !strcmp(b, "packet.c") || strstr(f, "encode_decode/") || strstr(f, "property/");
}
static void *ar_alloc(size_t n) {
  size_t c = (n + 8 + 15) / 16;
  if (ar_free[c]) { void *p = ar_free[c]; ar_free[c] = *(void **)p; return p; }
  if (ar_cur + c * 16 > ar_end) return nullptr;
  char *p = ar_cur; ar_cur += c * 16;
  *(size_t *)p = c;
  return p + 8;
}
static void ar_release(void *p) { size_t c = *(size_t *)((char *)p - 8); *(void **)p = ar_free[c]; ar_free[c] = p; }
static void *c_malloc(size_t n, const char *f, int) {
  void *p = bulk(f, n) ? ar_alloc(n) : nullptr;
  if (!p) p = malloc(n);
  rec_alloc(p, n, nullptr);
  return p;
}
static void c_free(void *p, const char *, int) { rec_free(p); if (p && in_arena(p)) ar_release(p); else free(p); }
static void *c_realloc(void *o, size_t n, const char *f, int l) {
  if (n == 0) { c_free(o, f, l); return nullptr; }
  if (o && in_arena(o)) {
    void *p = malloc(n);
    if (!p) return nullptr;
    size_t old = *(size_t *)((char *)o - 8) * 16 - 8;
    memcpy(p, o, old < n ? old : n);
    rec_alloc(p, n, nullptr);
    c_free(o, f, l);
    return p;
  }
  if (o) rec_free(o);
  void *p = realloc(o, n);
  rec_alloc(p ? p : o, n, nullptr);
  return p;
}

// ---------------------------------------------------------------- OpenSSL seams
static int r_bytes(unsigned char *b, int n) {
  static Rng boot;
  Rng &r = cur ? cur->proc->rrand : boot;
  if (cur && cur->proc->node && cur->proc->host)
    for (auto &f : S->randfaults) if (f.count > 0 && f.host == cur->proc->host->name && f.nth-- <= 0) { f.count--; InSim g; fired("random_source_fails"); S->randhits.push_back(cur->proc->id); return 0; }
  for (int i = 0; i < n; i++) b[i] = (unsigned char)(r.u64() >> 17);
  return 1;
}
static int r_status() { return 1; }
static RAND_METHOD rm = {nullptr, r_bytes, nullptr, nullptr, r_bytes, r_status};
namespace sim {
void init_openssl() {
  ar_base = ar_cur = (char *)mmap(nullptr, 64 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  ar_end = ar_base + (64 << 20);
  CRYPTO_set_mem_functions(c_malloc, c_realloc, c_free);
  OPENSSL_init_ssl(OPENSSL_INIT_LOAD_SSL_STRINGS | OPENSSL_INIT_NO_LOAD_CONFIG, nullptr);
  RAND_set_rand_method(&rm);
}
static void tap(SSL *ssl, int w, const void *b, int n) {
  if (n <= 0 || !cur) return;
  int fd = SSL_get_fd(ssl);
  int id = conn_of_fd(fd);
  InSim g;
  if (id < 0) return;
  Conn &c = *conns[id];
  int side = SSL_is_server(ssl) ? 1 : 0;
  c.tap[side][w].push_back({S->now, std::string((const char *)b, n), cur->id, ++S->seq});
  mix(0x7a9 + n + id);
  if (side == 1 && w == 0 && c.client_cert_der.empty()) {
    X509 *x = SSL_get0_peer_certificate(ssl);
    if (x) { unsigned char *o = nullptr; int l = i2d_X509(x, &o); if (l > 0) { c.client_cert_der.assign((char *)o, l); OPENSSL_free(o); } }
  }
  if (side == 0 && c.server_cert_der.empty()) {
    X509 *x = SSL_get0_peer_certificate(ssl);
    if (x) { unsigned char *o = nullptr; int l = i2d_X509(x, &o); if (l > 0) { c.server_cert_der.assign((char *)o, l); OPENSSL_free(o); } }
  }
}
} // namespace sim
EXPORT int SSL_read(SSL *s, void *b, int n) {
  RN(int, SSL_read, SSL *, void *, int);
  int r = real(s, b, n);
  if (SIMULATED) tap(s, 0, b, r);
  return r;
}
EXPORT int SSL_write(SSL *s, const void *b, int n) {
  RN(int, SSL_write, SSL *, const void *, int);
  int r = real(s, b, n);
  if (SIMULATED) tap(s, 1, b, r);
  return r;
}
namespace sim {
FILE *real_fopen(const char *p, const char *m) { RN(FILE *, fopen, const char *, const char *); return real(p, m); }
}
