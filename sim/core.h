// Deterministic simulator core: threads, time, processes, events.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <pthread.h>
#include <sys/types.h>

namespace sim {

typedef int64_t Time; // nanoseconds of simulated time
const Time US = 1000, MS = 1000 * US, SEC = 1000 * MS;

struct Rng {
  uint64_t s = 1;
  void seed(uint64_t x) { s = x * 0x9E3779B97F4A7C15ull + 0x1234567; u64(); }
  uint64_t u64() { // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(double p) { return p > 0 && (double)(u64() >> 11) / 9007199254740992.0 < p; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

struct Host;
struct Proc;

struct Thread {
  int id = 0;
  Proc *proc = nullptr;
  std::string name;
  pthread_t real{};
  int futex = 0;
  enum St { Runnable, Blocked, Finished } st = Runnable;
  const void *keys[72];
  int nkeys = 0;
  Time deadline = -1;
  bool timedout = false;
  int locks = 0; // non-node locks held (library globals, once lock)
  int nopreempt = 0;
  int insim = 0;
  void *(*fn)(void *) = nullptr;
  std::function<void()> body;
  void *arg = nullptr, *ret = nullptr;
  bool detached = false;
  int prio = 0;
  uint64_t steps = 0;
};

struct Instance { // one loaded copy of the program
  void *handle = nullptr;
  int (*main)(int, char **) = nullptr;
  uintptr_t base = 0, end = 0;
  bool used = false;
  std::vector<std::pair<char *, std::string>> snap; // writable segments
};

// ---- files ----
struct WLog { uint64_t seq; Time t; size_t size; int tid; };
struct Vnode {
  std::string data;
  std::vector<WLog> wlog; // size after each write
  bool dir = false;
  bool readable = true, writable = true;
};
struct FaultHit { uint64_t seq; Time t; int tid; int pid; char op; std::string path; bool fatal; };
struct FileFault {
  int id = -1;            // index in plan (for fired statistics)
  std::string host, path; // path: substring match
  char op = 'o';          // o open, r read, w write, c close, s (short read content), k corrupt
  int nth = 0;            // skip this many matching operations
  int count = 1;          // how many times it fires (<0 for ever)
  int err = 5;
  int64_t arg = 0;
  std::string kind;
  int seen = 0, fired = 0;
};
struct Host {
  std::string name, ip;
  std::map<std::string, std::shared_ptr<Vnode>> fs;
  Time clock_off = 0; // added to real-time clock
  int tz_off = 0;     // seconds east of UTC
  bool up = true;
  Time slow_disk = 0; // max extra delay at fopen/fclose
  int64_t disk_free = -1; // bytes left (-1 unlimited)
};

struct Sock;
struct OpenFile; // regular file handle
struct Fd {
  std::shared_ptr<Sock> sock;
  std::shared_ptr<OpenFile> file;
  int std = -1; // 0,1,2
};

struct LogWrite { Time t; int tid; std::string data; Time off = 0; int tz = 0; };

struct Proc {
  int id = 0;
  Host *host = nullptr;
  Instance *inst = nullptr;
  std::string role;
  bool node = false; // runs repository code
  bool dead = false, killpending = false;
  bool exited = false;
  int exitcode = -1; // 0.. exit status, 128+n signal, 137 killed by the simulator
  int pending_code = 0;
  Time t_start = 0, t_end = 0;
  std::map<int, Fd> fds;
  int fdlimit = 1024;
  std::string in; size_t inpos = 0;
  std::string out;
  int64_t out_left = -1;  // room for standard output, -1: unlimited
  bool out_err = false;   // the stream's error flag: the FILE is shared by all processes
  std::string err;
  std::vector<LogWrite> errw;
  bool sigpipe_ign = false;
  Rng crand;  // rand()
  Rng rrand;  // RAND_bytes
  struct tm tmbuf;
  Time paused_until = 0;
  Thread *main = nullptr;
  std::vector<FILE *> files; // open stdio streams
  // allocation accounting
  int64_t live_n = 0, live_b = 0, allocs = 0;
  int64_t fail_at = -1; // allocation counter value at which to fail
  int64_t fail_len = 1;
  int64_t alloc_ctr = 0;
  bool alloc_count_on = false;
  int64_t alloc_fired = 0;
  std::vector<std::string> args;
  int live_threads = 0;
  int ncpu = 8;
  int64_t thread_fail = -1;
  int64_t kill_bb = -1, kill_down = 200; // crash after so many basic blocks
  std::string srvname;
  std::function<int()> entry; // runs instead of main()
};

struct Knobs {
  int policy = 0;       // 0 random, 1 PCT, 2 sticky
  int budget = 0;       // mean basic blocks between preemptions; 0 = never
  int yieldpm = 200;    // per-mille chance of yielding at a sim operation
  int spurious = 0;     // per-mille spurious condvar wake
  int lat_us = 500;     // base one-way latency
  int jit_us = 300;
  int maxseg = 16384;   // max segment size
  int shortio = 0;      // per-mille of short reads/writes
  int eintr = 0;        // per-mille EINTR / spurious readiness
  int losspm = 0;       // per-mille segment retransmission (extra delay)
  int window = 65536;
  uint64_t seed = 1;    // schedule seed
};

struct State {
  Knobs k;
  Rng rs, rn, rf, rm; // sched, net, file, misc
  Time now = 0;
  Time epoch = 1800000000ll * SEC; // 2027-01-15T08:00:00Z
  std::vector<Thread *> threads;
  std::vector<Proc *> procs;
  std::map<std::string, Host *> hosts;
  std::vector<Instance *> insts;
  uint64_t hash = 1469598103934665603ull;
  uint64_t schedhash = 1469598103934665603ull;
  uint64_t switches = 0, preempts = 0, bbs = 0, bb_limit = 0;
  uint64_t events = 0;
  std::map<std::string, int64_t> counts; // fault kinds fired
  struct RandFault { std::string host; int64_t nth, count; };
  std::vector<RandFault> randfaults; // the entropy source fails
  std::vector<int> randhits; // processes it failed for
  std::vector<FileFault> ffaults;
  std::vector<FaultHit> fhits;
  uint64_t seq = 0; // global order of recorded history events
  std::vector<std::string> trace;
  bool tracing = false;
  bool stopping = false;
};
extern State *S;
extern __thread Thread *cur;

struct InSim { // marks harness code running on a sim thread
  InSim() { if (cur) cur->insim++; }
  ~InSim() { if (cur) cur->insim--; }
};
struct NoPreempt {
  NoPreempt() { if (cur) cur->nopreempt++; }
  ~NoPreempt() { if (cur) cur->nopreempt--; }
};

// simulated process context of caller, or null when not simulated
static inline Proc *cproc() { return cur ? cur->proc : nullptr; }

void init_state();
void mix(uint64_t v);
void mixs(const char *s);
void tr(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void fired(const std::string &kind);

// events
void at(Time t, std::function<void()> f);
// blocking on keys, returns true if timed out
bool block(const void *const *keys, int n, Time deadline);
bool block1(const void *key, Time deadline);
void wake(const void *key);
void wake_one(const void *key);
void yield(bool forced);
void opcost();
void soon(); // give up the processor at the next basic block of the program // a simulated operation: small time cost, possible preemption
void sleep_until(Time t);
inline void sleep_for(Time d) { sleep_until(S->now + d); }
// controller helpers
bool wait_for(std::function<bool()> pred, Time timeout, Time poll = 5 * MS);

Thread *spawn_thread(Proc *p, const std::string &name, std::function<void()> body);
Proc *new_proc(Host *h, const std::string &role);
Proc *spawn_node(Host *h, const std::string &role, const std::vector<std::string> &args,
                 const std::string &in = "", std::function<int()> entry = nullptr);
void kill_proc(Proc *p, int code); // crash (deferred while library locks are held)
[[noreturn]] void proc_exit(int code, bool flush);
Host *host(const std::string &name);
Host *add_host(const std::string &name, const std::string &ip);
Time hosttime(Host *h); // real-time clock (ns) of a host
[[noreturn]] void run_controller(std::function<void()> f);
[[noreturn]] void finish_run();
extern std::function<void()> on_finish;
void fatal_violation(const std::string &what); // crash of node code; ends the run
extern std::function<void(const std::string &)> on_crash;
bool node_pc(uintptr_t pc);
extern void (*bbkill_cb)(Proc *);

// fs
void fs_put(Host *h, const std::string &path, const std::string &data);
bool fs_get(Host *h, const std::string &path, std::string *data);
void fs_del(Host *h, const std::string &path);
void close_all_fds(Proc *p, bool abrupt);
FILE *real_fopen(const char *, const char *);
void init_stdio();

// net
struct Tap { Time t; std::string data; int tid; uint64_t seq; };
struct Conn;
struct ConnFault {
  int id = -1;
  std::string to;      // server role/host name
  std::string from;    // client host ("" any)
  int nth = 0;         // ordinal among matching connections
  int dir = 0;         // 0 client->server, 1 server->client
  int64_t after = 0;   // bytes
  std::string act;     // rst fin stall flip refuse timeout route
  Time dur = 0;
  std::string arg;
  int seen = 0; bool used = false;
};
struct Dir {
  struct Seg { Time t; std::string d; bool fin; };
  std::deque<Seg> q;
  std::string buf; size_t off = 0;
  bool fin_sent = false, fin_got = false;
  Time last = 0, stall_until = 0;
  int64_t sent = 0, got = 0;
  size_t inflight = 0;
  bool blackhole = false;
  std::vector<std::shared_ptr<ConnFault>> faults;
};
struct Conn {
  int id = 0;
  Host *ch = nullptr, *sh = nullptr;
  Proc *cp = nullptr, *sp = nullptr;
  int ctid = -1;
  int cport = 0, sport = 0;
  std::string dst; // name of the address the client asked for
  Dir d[2];
  int rsterr[2] = {0, 0}; // what the next operation reports
  bool rst[2] = {false, false}; // reset seen by side (0 client,1 server)
  bool closed[2] = {false, false};
  bool established = false;
  Time t_conn = 0, t_acc = -1;
  std::weak_ptr<Sock> ep[2];
  // plaintext as seen by each side: [side][0 read,1 written]
  std::vector<Tap> tap[2][2];
  std::string plain(int side, int w) const { std::string r; for (auto &t : tap[side][w]) r += t.data; return r; }
  std::string client_cert_der; // as authenticated to server
  std::string server_cert_der;
  std::string tag; // free for harness
  bool faulted = false; // a connection fault hit it
  int win = 0;          // receive window of the client, 0: the usual one
};
extern std::vector<std::shared_ptr<Conn>> conns;
extern std::vector<ConnFault> cfaults;
void partition(const std::string &a, const std::string &b, bool on);
void heal_all();
void set_name(const std::string &name, const std::string &ip);
void host_net_down(Host *h); // power loss: no FIN/RST
int conn_of_fd(int fd);      // conn id for a socket of the current process
bool port_listening(Host *h, int port);
extern std::map<std::string, std::string> *client_dns; // "host/name" -> ip
} // namespace sim
