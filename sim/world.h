// World: topology, plan, execution, history.
#pragma once
#include "lib.h"

namespace world {
using namespace sim;
using namespace lib;

typedef std::map<std::string, std::string> KV;
struct Line { // one removable element of a plan
  char t;     // 'o' operation, 'f' fault
  int id;
  int64_t ms;
  std::string kind;
  KV a;
  std::string get(const std::string &k, const std::string &d = "") const { auto i = a.find(k); return i == a.end() ? d : i->second; }
  int64_t num(const std::string &k, int64_t d = 0) const { auto i = a.find(k); return i == a.end() ? d : atoll(i->second.c_str()); }
  bool has(const std::string &k) const { return a.count(k); }
};
struct Plan {
  std::string prop;
  uint64_t seed = 0;
  Knobs k;
  KV set;
  std::vector<Line> lines;
  std::string text() const;
  static bool parse(const std::string &s, Plan *p);
  std::string s(const std::string &key, const std::string &d = "") const { auto i = set.find(key); return i == set.end() ? d : i->second; }
  Line &op(int64_t ms, const std::string &kind, const KV &a = {}) { lines.push_back({'o', (int)lines.size(), ms, kind, a}); return lines.back(); }
  Line &fault(int64_t ms, const std::string &kind, const KV &a = {}) { lines.push_back({'f', (int)lines.size(), ms, kind, a}); return lines.back(); }
};

struct OpRes {
  const Line *l = nullptr;
  bool started = false, done = false;
  Time t0 = 0, t1 = 0;
  Proc *proc = nullptr;   // node command
  Host *h = nullptr;
  std::string ident;      // pledge identity
  std::string out;        // output prefix
  std::string pre;        // what an earlier run left in the output files
  std::string nonce;      // configured nonce (raw bytes)
  std::string serial;     // configured serial
  int status = -2;        // harness client: http status
  Http reply;
  int conn = -1;
  std::string sent;       // what was sent (raw, e.g. DER)
  std::string note;
  std::vector<int> statuses;
};
struct Server1 { // a node server of the topology
  std::string name; // reg, masa, regb
  Host *h = nullptr;
  Proc *proc = nullptr;
  std::vector<Proc *> all;
  std::vector<std::pair<Time, Time>> down; // intervals
  bool want = false;
};

struct Req { // one http request seen by a server
  int conn; Proc *sp; Http q; Http r; bool replied = false; bool raw = false; Time tq = 0, tr = 0; uint64_t sq = 0, sr = 0; int rtid = -1; std::string client; Host *ch = nullptr; Proc *cp = nullptr;
};

struct World {
  Plan plan;
  std::map<std::string, Server1> srv;
  std::map<std::string, Server *> fakes;
  std::vector<OpRes *> ops;
  std::vector<std::pair<std::string, std::string>> viol; // property, text
  std::vector<std::string> notes;
  std::map<std::string, int64_t> stats;
  Time last_fault = 0;
  std::map<Host *, std::vector<std::pair<Time, Time>>> clk; // clock offset history
  std::vector<std::function<void()>> restore; // brings removed files back when the faults stop
  std::vector<std::pair<sim::Host *, std::pair<sim::Time, sim::Time>>> missing; // a file of this host was gone
  bool healed = false; // faults have stopped
  bool faulty = false; // anything beyond scheduling/delay was injected
  int64_t limit_s = 1000;
};
extern World *W;

void v(const std::string &prop, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void run_plan(const Plan &p);     // executes and evaluates; ends with finish_run()
Plan gen_plan(const std::string &prop, uint64_t seed, const std::string &tier);
Proc *start_server(const std::string &name, bool wait = true);
Server1 &server(const std::string &n);
OpRes *run_cmd(const Line &l); // spawn a node command for a line
std::string body_for(const Line &l, std::string *raw); // request body of a harness client
std::vector<Req> requests(const std::string &role_or_empty);
std::vector<Req> client_requests(Proc *p);
void evaluate();                  // all oracles
extern std::string NONCE[];
std::string srv_ip(const std::string &n);
int srv_port(const std::string &n);
std::vector<Ident *> idlist(const std::string &s);
std::string audit_pre(); // what the audit log holds before the registrar starts
} // namespace world
