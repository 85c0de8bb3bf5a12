// Worker: loads copies of the program, forks one child per simulated run.
#include "world.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <sched.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

extern "C" void __asan_set_error_report_callback(void (*)(const char *));
extern "C" __attribute__((visibility("default"))) const char *__asan_default_options() {
  return "detect_odr_violation=0:detect_leaks=0:symbolize=0:quarantine_size_mb=16:"
         "detect_stack_use_after_return=0:handle_abort=1:allocator_may_return_null=1:exitcode=66:"
         "malloc_context_size=3:max_malloc_fill_size=256:malloc_fill_byte=190:thread_local_quarantine_size_kb=64:abort_on_error=0";
}
namespace sim { void init_openssl(); extern bool account; extern unsigned char *covmap; extern size_t covsize; }
using namespace sim;
using namespace world;

static std::vector<Instance *> insts;
static char *shm = nullptr;
static const size_t SHM = 8 << 20;
static std::string g_tracefile;
static std::string crash_report;
static int g_infra = 0;
static std::string g_infra_msg;

static std::string js(const std::string &s) {
  std::string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}
static int load_cb(struct dl_phdr_info *i, size_t, void *p) {
  auto *inst = (Instance *)p;
  if (i->dlpi_addr != inst->base) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &h = i->dlpi_phdr[k];
    if (h.p_type != PT_LOAD) continue;
    uintptr_t e = i->dlpi_addr + h.p_vaddr + h.p_memsz;
    if (e > inst->end) inst->end = e;
    if (h.p_flags & PF_W) inst->snap.push_back({(char *)(i->dlpi_addr + h.p_vaddr), std::string()});
    if (h.p_flags & PF_W) inst->snap.back().second.resize(h.p_memsz);
  }
  // the RELRO part is read-only after loading: exclude it from restoration
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &h = i->dlpi_phdr[k];
    if (h.p_type != PT_GNU_RELRO) continue;
    uintptr_t a = i->dlpi_addr + h.p_vaddr, b = (a + h.p_memsz + 4095) & ~4095ul;
    for (auto &s : inst->snap) {
      uintptr_t x = (uintptr_t)s.first, y = x + s.second.size();
      if (b > x && b < y) { s.first = (char *)b; s.second.resize(y - b); }
    }
  }
  return 1;
}
// a copy that AddressSanitizer does not look at (globals have red zones)
namespace sim { void rawcopy(char *d, const char *s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); } }
static void load_instances(const std::string &dir, int n) {
  for (int i = 0; i < n; i++) {
    char p[64]; snprintf(p, sizeof p, "/node-%02d.so", i);
    auto *in = new Instance();
    in->handle = dlopen((dir + p).c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!in->handle) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(3); }
    in->main = (int (*)(int, char **))dlsym(in->handle, "main");
    struct link_map *lm; dlinfo(in->handle, RTLD_DI_LINKMAP, &lm);
    in->base = lm->l_addr;
    dl_iterate_phdr(load_cb, in);
    for (auto &s : in->snap) rawcopy(&s.second[0], s.first, s.second.size());
    insts.push_back(in);
    if (in->end - in->base > covsize) covsize = in->end - in->base;
  }
}
// keep only what identifies the report: kind and frames
static void asan_cb(const char *rep) {
  std::string r = rep;
  bool node = cur && cur->proc && cur->proc->node;
  bool inharness = cur && cur->insim;
  if (S) {
    if (node && !inharness) { crash_report = r; fatal_violation("ASAN"); }
    else { g_infra = 1; g_infra_msg = r; crash_report = r; finish_run(); }
  }
}

// what every operation came to, apart from timing
static std::string outcome_json() {
  std::string o;
  for (auto *r : W->ops) {
    if (!r->l || r->l->id >= 700) continue;
    std::string t = "op" + std::to_string(r->l->id) + " " + r->l->kind + ":";
    if (r->proc) {
      t += r->proc->exited ? " exit " + std::to_string(r->proc->exitcode) : std::string(" running");
      for (auto &e : r->h->fs) if (!r->out.empty() && e.first.compare(0, r->out.size(), r->out) == 0) t += " " + e.first.substr(r->out.size());
    } else for (int s : r->statuses) t += s < 0 ? " x" : " " + std::to_string(s);
    if (!r->proc && r->statuses.empty()) t += " x";
    o += (o.empty() ? "" : ",") + js(t);
  }
  return o;
}
namespace sim {
void finish_run() {
  S->stopping = true;
  if (cur) cur->insim += 1000;
  std::string o = "{";
  auto kv = [&](const char *k, uint64_t v) { o += std::string(o.size() > 1 ? "," : "") + "\"" + k + "\":" + std::to_string(v); };
  char hx[40];
  kv("seed", W ? W->plan.seed : 0);
  snprintf(hx, sizeof hx, "\"%016lx\"", (unsigned long)S->hash); o += std::string(",\"hash\":") + hx;
  snprintf(hx, sizeof hx, "\"%016lx\"", (unsigned long)S->schedhash); o += std::string(",\"sched\":") + hx;
  o += ",\"simtime\":" + std::to_string(S->now / 1e9);
  kv("switches", S->switches); kv("preempts", S->preempts); kv("events", S->events); kv("bbs", S->bbs);
  kv("conns", conns.size()); kv("threads", S->threads.size()); kv("procs", S->procs.size());
  kv("ops", W ? W->ops.size() : 0);
  o += ",\"faults\":{";
  bool f = true;
  for (auto &e : S->counts) { o += (f ? "" : ",") + js(e.first) + ":" + std::to_string(e.second); f = false; }
  o += "},\"stats\":{"; f = true;
  if (W) for (auto &e : W->stats) { o += (f ? "" : ",") + js(e.first) + ":" + std::to_string(e.second); f = false; }
  o += "},\"viol\":["; f = true;
  if (W) for (auto &e : W->viol) { o += std::string(f ? "" : ",") + "[" + js(e.first) + "," + js(e.second) + "]"; f = false; }
  if (W && W->plan.s("pair") == "1") o += "],\"outcome\":[" + outcome_json();
  o += "],\"crash\":" + js(crash_report.substr(0, 6000));
  if (g_infra) o += ",\"infra\":" + js(g_infra_msg.substr(0, 6000));
  o += "}";
  if (!g_tracefile.empty()) {
    int fd = (int)syscall(SYS_open, g_tracefile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
      std::string t;
      for (auto &l : S->trace) t += l + "\n";
      for (auto *p : S->procs) if (p->node) {
        t += "== " + p->role + "(" + std::to_string(p->id) + ") exit " + std::to_string(p->exitcode) + "\n--stdout\n" + p->out + "\n--stderr\n" + p->err + "\n";
      }
      size_t k = 0;
      while (k < t.size()) { long n = syscall(SYS_write, fd, t.data() + k, t.size() - k); if (n <= 0) break; k += n; }
      syscall(SYS_close, fd);
    }
  }
  if (o.size() >= SHM) o.resize(SHM - 1);
  memcpy(shm, o.c_str(), o.size() + 1);
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}
} // namespace sim

static void child(const Plan &p) {
  init_stdio();
  S->tracing = !g_tracefile.empty();
  S->insts = insts;
  on_crash = [](const std::string &what) {
    Proc *p = cproc();
    // a crash of the program violates every property that is being checked
    std::string w = what + " in " + (p ? p->role : "?");
    if (W) W->viol.insert(W->viol.begin(), {"CRASH", w});
    tr("CRASH %s", w.c_str());
  };
  account = p.s("account") == "1";
  run_plan(p);
}
static std::string run_one(const std::function<Plan()> &mk, int limit_s) {
  memset(shm, 0, 64);
  fflush(stdout);
  pid_t pid = fork();
  if (pid == 0) {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    init_state();
    child(mk());
    _exit(0);
  }
  int st = 0;
  for (int waited = 0;;) {
    pid_t r = waitpid(pid, &st, WNOHANG);
    if (r == pid) break;
    usleep(500);
    waited++;
    if (waited > limit_s * 2000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); snprintf(shm, SHM, "{\"infra\":\"timeout\"}"); return shm; }
  }
  if (!shm[0]) snprintf(shm, SHM, "{\"infra\":\"child ended with status %d\"}", st);
  return shm;
}
// B21: the same plan with whole segments, even latency and no short reads must come to the same outcome
static Plan reference_of(const Plan &p) {
  Plan q = p; Knobs d;
  d.seed = p.k.seed; q.k = d;
  for (auto &l : q.lines) { l.a.erase("dripms"); l.a.erase("dripn"); }
  return q;
}
static std::vector<std::string> outcomes(const std::string &j) {
  std::vector<std::string> r;
  size_t k = j.find("\"outcome\":["); if (k == std::string::npos) return r;
  for (k += 11; k < j.size() && j[k] != ']'; ) { size_t a = j.find('"', k); size_t b = j.find('"', a + 1); if (a == std::string::npos || b == std::string::npos) break; r.push_back(j.substr(a + 1, b - a - 1)); k = b + 1; }
  std::sort(r.begin(), r.end());
  return r;
}
static std::string run_checked(const Plan &p) {
  std::string a = run_one([&]() { return p; }, 240);
  if (p.s("pair") != "1" || a.find("\"viol\":[]") == std::string::npos || a.find("\"infra\"") != std::string::npos) return a;
  std::string tf = g_tracefile; g_tracefile = tf.empty() ? "" : tf + ".ref";
  std::string b = run_one([&]() { return reference_of(p); }, 240);
  g_tracefile = tf;
  if (b.find("\"infra\"") != std::string::npos) return b;
  auto x = outcomes(a), y = outcomes(b);
  if (x == y) return a;
  std::string t = "different outcome with the same messages in whole segments:";
  for (auto &e : x) if (std::find(y.begin(), y.end(), e) == y.end()) t += " [" + e + "]";
  t += " versus";
  for (auto &e : y) if (std::find(x.begin(), x.end(), e) == x.end()) t += " [" + e + "]";
  size_t k = a.find("\"viol\":[") + 8;
  return a.substr(0, k) + "[" + js("B21") + "," + js(t) + "]" + a.substr(k);
}
static std::string slurp(const std::string &f) {
  FILE *h = real_fopen(f.c_str(), "r");
  if (!h) return "";
  std::string s; char b[65536]; size_t n;
  while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
  fclose(h);
  return s;
}
int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: worker DIR NINST [covfile]\ncommands on stdin: gen PROP SEED TIER | plan FILE [TRACEFILE] | show PROP SEED TIER | cov FILE\n"); return 2; }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (argc > 3) { cpu_set_t c; CPU_ZERO(&c); long n = sysconf(_SC_NPROCESSORS_ONLN); CPU_SET(atoi(argv[3]) % (n > 0 ? n : 1), &c); sched_setaffinity(0, sizeof c, &c); }
  init_openssl();
  build_pki();
  load_instances(argv[1], atoi(argv[2]));
  shm = (char *)mmap(nullptr, SHM, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  covmap = (unsigned char *)mmap(nullptr, covsize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  __asan_set_error_report_callback(asan_cb);
  char line[4096];
  while (fgets(line, sizeof line, stdin)) {
    char a[1024] = "", b[1024] = "", c[64] = "", d[1024] = "";
    int n = sscanf(line, "%1023s %1023s %63s %1023s", a, b, c, d);
    if (n < 1) continue;
    std::string cmd = a;
    if (cmd == "quit") break;
    if (cmd == "gen" && n >= 4) {
      g_tracefile.clear();
      std::string prop = b, tier = d; uint64_t seed = strtoull(c, nullptr, 10);
      printf("%s\n", run_checked(gen_plan(prop, seed, tier)).c_str());
    } else if (cmd == "show" && n >= 4) {
      Plan p = gen_plan(b, strtoull(c, nullptr, 10), d);
      printf("%s\n", js(p.text()).c_str());
    } else if (cmd == "plan" && n >= 2) {
      Plan p;
      bool ok = Plan::parse(slurp(b), &p);
      g_tracefile = n >= 3 ? c : "";
      if (n >= 3) { char t[1024]; sscanf(line, "%*s %*s %1023s", t); g_tracefile = t; }
      if (!ok) { printf("{\"infra\":\"bad plan\"}\n"); continue; }
      printf("%s\n", run_checked(p).c_str());
    } else if (cmd == "cov") {
      size_t k = 0; for (size_t i = 0; i < covsize; i++) k += covmap[i];
      FILE *f = n >= 2 ? real_fopen(b, "w") : nullptr;
      if (f) { for (size_t i = 0; i < covsize; i++) if (covmap[i]) fprintf(f, "%zx\n", i); fclose(f); }
      printf("%zu\n", k);
    } else printf("{\"infra\":\"bad command\"}\n");
    fflush(stdout);
  }
  return 0;
}
