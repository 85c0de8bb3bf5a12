#include "world.h"
#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <openssl/err.h>

namespace world {
World *W = nullptr;

void v(const std::string &prop, const char *fmt, ...) {
  char b[1200];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (W->viol.size() < 40) W->viol.push_back({prop, b});
  tr("VIOL %s %s", prop.c_str(), b);
}

// ------------------------------------------------------------------ plan text
struct KnobDef { const char *n; int Knobs::*p; };
static const KnobDef kd[] = {{"policy", &Knobs::policy}, {"budget", &Knobs::budget}, {"yieldpm", &Knobs::yieldpm}, {"spurious", &Knobs::spurious},
  {"lat", &Knobs::lat_us}, {"jit", &Knobs::jit_us}, {"maxseg", &Knobs::maxseg}, {"shortio", &Knobs::shortio}, {"eintr", &Knobs::eintr},
  {"loss", &Knobs::losspm}, {"window", &Knobs::window}};
std::string Plan::text() const {
  std::string o = "plan v1\nprop " + prop + "\nseed " + std::to_string(seed) + "\nschedseed " + std::to_string(k.seed) + "\n";
  Knobs def;
  for (auto &d : kd) if (k.*(d.p) != def.*(d.p)) o += std::string("k ") + d.n + " " + std::to_string(k.*(d.p)) + "\n";
  for (auto &e : set) o += "s " + e.first + " " + e.second + "\n";
  for (auto &l : lines) {
    o += std::string(1, l.t) + " " + std::to_string(l.id) + " " + std::to_string(l.ms) + " " + l.kind;
    for (auto &e : l.a) o += " " + e.first + "=" + e.second;
    o += "\n";
  }
  return o;
}
static std::vector<std::string> split(const std::string &s, char c) {
  std::vector<std::string> r; std::string x;
  for (char ch : s) if (ch == c) { r.push_back(x); x.clear(); } else x += ch;
  r.push_back(x);
  return r;
}
bool Plan::parse(const std::string &s, Plan *p) {
  *p = Plan();
  for (auto &ln : split(s, '\n')) {
    auto w = split(ln, ' ');
    if (w.size() < 2 || ln[0] == '#') continue;
    if (w[0] == "prop") p->prop = w[1];
    else if (w[0] == "seed") p->seed = strtoull(w[1].c_str(), nullptr, 10);
    else if (w[0] == "schedseed") p->k.seed = strtoull(w[1].c_str(), nullptr, 10);
    else if (w[0] == "k" && w.size() > 2) { for (auto &d : kd) if (w[1] == d.n) p->k.*(d.p) = atoi(w[2].c_str()); }
    else if (w[0] == "s") { size_t a = ln.find(' ', 2); p->set[w[1]] = a == std::string::npos ? "" : ln.substr(a + 1); }
    else if ((w[0] == "o" || w[0] == "f") && w.size() > 3) {
      Line l{w[0][0], atoi(w[1].c_str()), atoll(w[2].c_str()), w[3], {}};
      for (size_t i = 4; i < w.size(); i++) { size_t e = w[i].find('='); if (e != std::string::npos) l.a[w[i].substr(0, e)] = w[i].substr(e + 1); }
      p->lines.push_back(l);
    }
  }
  return !p->prop.empty();
}
std::vector<Ident *> idlist(const std::string &s) {
  std::vector<Ident *> r;
  if (s.empty() || s == "none") return r;
  for (auto &x : split(s, '+')) if (hasI(x)) r.push_back(I(x));
  return r;
}

// ------------------------------------------------------------------ topology
std::string srv_ip(const std::string &n) {
  std::string a = W->plan.s(n + ".addr");
  if (!a.empty() && a != "0.0.0.0") return a;
  return n == "reg" ? "10.0.0.1" : n == "masa" ? "10.0.0.2" : n == "regb" ? "10.0.0.5" : "10.0.0.9";
}
int srv_port(const std::string &n) { return atoi(W->plan.s(n + ".port", n == "masa" ? "15000" : "12345").c_str()); }

static std::string put(Host *h, const std::string &path, const std::string &data) { fs_put(h, path, data); return path; }
static std::string D = "/etc/brski/";
struct Cfg {
  std::string s[3]; // pledge registrar masa
  void k(int sec, const std::string &key, const std::string &val) { s[sec] += key + " = \"" + val + "\"\n"; }
  std::string text() const { return "[pledge]\n" + s[0] + "\n[registrar]\n" + s[1] + "\n[masa]\n" + s[2] + "\n"; }
};
static void certlist(Cfg &c, int sec, const std::string &key, Host *h, const std::string &pre, const std::string &ids) {
  int i = 0;
  for (auto *id : idlist(ids)) c.k(sec, key, put(h, D + pre + std::to_string(i++) + "-" + id->name + ".crt", id->pem));
}
static void write_server_config(const std::string &n) {
  Plan &p = W->plan;
  Host *h = host(n);
  Cfg c;
  bool b = n == "regb";
  std::string R = b ? "regb" : "reg";
  auto pem = [&](const std::string &file, Ident *i) { return put(h, D + file + ".crt", i->pem); };
  auto key = [&](const std::string &file, Ident *i) { return put(h, D + file + ".key", i->keypem); };
  auto set = [&](const std::string &k, const std::string &d) { return p.s(k, d); };
  // registrar section
  if (n != "masa") {
    c.k(1, "bindAddress", set(R + ".bind", "0.0.0.0"));
    c.k(1, "port", std::to_string(srv_port(R)));
    Ident *tls = I(set(R + ".tls", b ? "regbtls" : "regtls")), *ca = I(set(R + ".ca", b ? "dombca" : "domca"));
    c.k(1, "tlsKeyPath", key("tls", tls)); c.k(1, "tlsCertPath", pem("tls", tls));
    c.k(1, "tlsCAKeyPath", key("tlsca", ca)); c.k(1, "tlsCACertPath", pem("tlsca", ca));
    Ident *cms = I(set(R + ".cms", b ? "regbcms" : "regcms"));
    c.k(1, "cmsSignKeyPath", key("cms", cms)); c.k(1, "cmsSignCertPath", pem("cms", cms));
    certlist(c, 1, "cmsAdditionalCertPath", h, "add", set(R + ".add", ""));
    certlist(c, 1, "cmsVerifyCertPath", h, "vc", set(R + ".vc", ""));
    certlist(c, 1, "cmsVerifyStorePath", h, "vs", set(R + ".vs", "mfrca"));
    c.k(2, "bindAddress", set("masa.name", "masa.sim"));
    c.k(2, "port", std::to_string(srv_port("masa")));
  } else {
    c.k(2, "bindAddress", set("masa.bind", "0.0.0.0"));
    c.k(2, "port", std::to_string(srv_port("masa")));
    c.k(2, "expiresOn", set("masa.exp", "2031-05-06T07:08:09Z"));
    c.k(2, "ldevidCACertPath", pem("ldevid", I(set("masa.ldev", "domca"))));
    Ident *tls = I(set("masa.tls", "masatls"));
    c.k(2, "tlsKeyPath", key("tls", tls)); c.k(2, "tlsCertPath", pem("tls", tls));
    c.k(2, "tlsCACertPath", pem("masatlsca", I("masatlsca")));
    c.k(1, "tlsCACertPath", pem("clica", I(set("masa.clica", "domca"))));
    Ident *cms = I(set("masa.cms", "masacms"));
    c.k(2, "cmsSignKeyPath", key("cms", cms)); c.k(2, "cmsSignCertPath", pem("cms", cms));
    certlist(c, 2, "cmsAdditionalCertPath", h, "add", set("masa.add", ""));
    certlist(c, 2, "cmsVerifyCertPath", h, "vc", set("masa.vc", ""));
    certlist(c, 2, "cmsVerifyStorePath", h, "vs", set("masa.vs", "regcmsca"));
    certlist(c, 1, "cmsVerifyCertPath", h, "pvc", set("masa.pvc", ""));
    certlist(c, 1, "cmsVerifyStorePath", h, "pvs", set("masa.pvs", "mfrca"));
  }
  std::string t = c.text(), mut = set(n + ".cfgmut", "");
  // start-up misconfigurations (B20)
  if (!mut.empty()) {
    auto drop = [&](const std::string &k) { std::string o; for (auto &l : split(t, '\n')) if (l.compare(0, k.size(), k)) o += l + "\n"; t = o; };
    auto rep = [&](const std::string &sec, const std::string &k, const std::string &val) {
      std::string o, cs; for (auto &l : split(t, '\n')) { if (!l.empty() && l[0] == '[') cs = l; if (cs == "[" + sec + "]" && !l.compare(0, k.size(), k)) o += k + " = " + val + "\n"; else o += l + "\n"; } t = o; };
    std::string sec = n == "masa" ? "masa" : "registrar";
    if (mut == "nocert") rep(sec, "tlsCertPath", "");
    else if (mut == "nokey") rep(sec, "tlsKeyPath", "");
    else if (mut == "missingcert") fs_del(h, D + "tls.crt");
    else if (mut == "missingkey") fs_del(h, D + "tls.key");
    else if (mut == "badcert") fs_put(h, D + "tls.crt", "-----BEGIN CERTIFICATE-----\nMIIB\n-----END CERTIFICATE-----\n");
    else if (mut == "badkey") fs_put(h, D + "tls.key", "not a key\n");
    else if (mut == "wrongkey") fs_put(h, D + "tls.key", I("evil")->keypem);
    else if (mut == "badaddr") rep(sec, "bindAddress", "10.9.9.9");
    else if (mut == "badname") rep(sec, "bindAddress", "no.such.host");
    else if (mut == "noconfig") t = "";
    else if (mut == "emptyaddr") rep(sec, "bindAddress", "");
    else if (mut == "missingca") fs_del(h, D + "clica.crt");
    else if (mut == "badca") fs_put(h, D + "clica.crt", "garbage");
    else if (mut == "noca") rep("registrar", "tlsCACertPath", "");
    else if (mut == "portzero") rep(sec, "port", "0");
    else if (mut == "porttext") rep(sec, "port", "abc");
    else if (mut == "portbig") rep(sec, "port", std::to_string(65536 * 3 + srv_port("masa") + 1234));
    else if (mut == "portneg") rep(sec, "port", "-" + std::to_string(srv_port(n)));
    else if (mut == "noport") rep(sec, "port", "");
    else if (mut == "nofile") { fs_del(h, D + "config.ini"); return; }
    (void)drop;
  }
  fs_put(h, D + "config.ini", t);
}
Server1 &server(const std::string &n) { return W->srv[n]; }
static bool port_up(const std::string &n) { return port_listening(host(n), srv_port(n)); }
Proc *start_server(const std::string &n, bool wait) {
  Server1 &s = server(n);
  s.h->up = true;
  std::vector<std::string> a = {"-c", D + "config.ini"};
  if (W->plan.s("verbose", "0") == "1") a.push_back("-d");
  a.push_back(n == "masa" ? "masa" : "registrar");
  s.proc = spawn_node(s.h, n, a);
  s.proc->ncpu = atoi(W->plan.s("ncpu", "4").c_str());
  if (!s.down.empty() && s.down.back().second < 0) s.down.back().second = S->now;
  s.all.push_back(s.proc);
  if (wait) wait_for([&]() { return port_up(n) || s.proc->exited; }, 10 * SEC, 1 * MS);
  return s.proc;
}
static void crash_server(const std::string &n, int64_t downms, bool power) {
  Server1 &s = server(n);
  if (!s.h || !s.proc) return;
  fired(power ? "power_loss" : "crash");
  if (power) host_net_down(s.h);
  bool alive = !s.proc->exited;
  if (alive) kill_proc(s.proc, 137);
  if (alive) s.down.push_back({S->now, -1});
  W->last_fault = std::max(W->last_fault, S->now);
  if (downms >= 0)
    at(S->now + downms * MS, [n]() {
      Server1 &s = server(n);
      if (!s.proc->exited) return;
      InSim g;
      fired("restart");
      start_server(n, false);
      W->last_fault = std::max(W->last_fault, S->now);
    });
}

// ------------------------------------------------------------------ node commands
std::string audit_pre() {
  std::string s;
  for (int i = 0, n = atoi(W->plan.s("auditpre", "1").c_str()); i < n; i++) s += std::to_string(1700000000 + i) + " 0x1 \"old\" 0x2 \"older\"\n";
  return s;
}
static std::string rnd_nonce(Rng &r) { // some contain zero bytes, also in front
  std::string s; int len = r.chance(0.8) ? 8 + (int)r.below(24) : 1 + (int)r.below(100);
  for (int i = 0; i < len; i++) s += (char)r.below(256);
  if (r.chance(0.3)) s[r.below(s.size())] = 0;
  if (r.chance(0.1)) s[0] = 0;
  return s;
}
static std::string rawnonce(const Line &l) {
  std::string n = l.get("nonce", "auto");
  if (n == "none") return "";
  if (n == "auto") { Rng r; r.seed(W->plan.seed * 131 + l.id); return rnd_nonce(r); }
  if (n.compare(0, 2, "b:") == 0) return ""; // bad base64 in the configuration
  return n;
}
OpRes *run_cmd(const Line &l) {
  auto *r = new OpRes();
  r->l = &l; r->started = true; r->t0 = S->now;
  W->ops.push_back(r);
  std::string cmd = l.kind, id = l.get("p", "p0");
  Ident *pi = I(id), *cms = I(l.get("cms", id));
  std::string hn = l.get("host", "h" + id);
  Host *h = host(hn);
  if (!h) { static int n; n = 0; for (auto &e : S->hosts) if (e.second->ip.compare(0, 7, "10.0.1.") == 0) n++; h = add_host(hn, "10.0.1." + std::to_string(10 + n)); Plan &p = W->plan; h->clock_off = atoll(p.s("clk." + hn, "0").c_str()) * SEC; h->tz_off = atoi(p.s("tz." + hn, "0").c_str()); }
  r->h = h; r->ident = id;
  std::string base = D + "op" + std::to_string(l.id) + "-";
  { auto dv = std::make_shared<Vnode>(); dv->dir = true; h->fs["/out"] = dv; h->fs["/var/log"] = dv; }
  Cfg c;
  auto pem = [&](const std::string &f, Ident *i) { return put(h, base + f + ".crt", i->pem); };
  auto key = [&](const std::string &f, Ident *i) { return put(h, base + f + ".key", i->keypem); };
  if (l.has("created")) c.k(0, "createdOn", l.get("created"));
  r->serial = l.get("ser", pi->serial);
  if (r->serial != "none") c.k(0, "serialNumber", r->serial); else r->serial = "";
  r->nonce = rawnonce(l);
  if (!r->nonce.empty()) c.k(0, "nonce", b64(r->nonce));
  else if (l.get("nonce").compare(0, 2, "b:") == 0) c.k(0, "nonce", l.get("nonce").substr(2));
  c.k(0, "idevidKeyPath", key("idev", pi)); c.k(0, "idevidCertPath", pem("idev", pi));
  c.k(0, "cmsSignKeyPath", key("cms", cms)); c.k(0, "cmsSignCertPath", pem("cms", cms));
  certlist(c, 0, "cmsAdditionalCertPath", h, "op" + std::to_string(l.id) + "-add", l.get("add", ""));
  certlist(c, 0, "cmsVerifyCertPath", h, "op" + std::to_string(l.id) + "-vc", l.get("vc", W->plan.s("pl.vc", "")));
  certlist(c, 0, "cmsVerifyStorePath", h, "op" + std::to_string(l.id) + "-vs", l.get("vs", W->plan.s("pl.vs", "masaca")));
  std::string to = l.get("to", "reg");
  c.k(1, "bindAddress", l.get("addr", srv_ip(to)));
  c.k(1, "port", l.has("cport") ? l.get("cport") : std::to_string(srv_port(to)));
  if (cmd == "epvr" || cmd == "vmasa") c.k(1, "tlsCertPath", put(h, base + "regtls.crt", I(l.get("rtls", "regtls"))->pem));
  std::string cf = put(h, base + "config.ini", c.text());
  std::vector<std::string> a = {"-c", cf};
  if (l.get("out", "1") == "1") {
    r->out = "/out/op" + std::to_string(l.id);
    if (l.has("olen")) { // a long name
      size_t n = (size_t)l.num("olen");
      while (n > r->out.size() + 262) { r->out += std::string(200, 'd'); auto dv = std::make_shared<Vnode>(); dv->dir = true; h->fs[r->out] = dv; r->out += "/"; }
      while (r->out.size() < n) r->out += 'o';
    }
    if (l.has("pre")) { r->pre = I(l.get("pre"))->pem; r->pre += r->pre + r->pre; for (auto e : {".crt", ".key", ".smime"}) fs_put(h, r->out + e, r->pre); }
    a.push_back("-o"); a.push_back(r->out);
  }
  if (l.has("A")) { a.push_back("-a"); a.push_back(l.get("A")); }
  if (l.has("P")) { a.push_back("-p"); a.push_back(l.get("P")); }
  if (l.get("v", W->plan.s("verbose", "0")) == "1") a.push_back("-d");
  std::string in;
  if (cmd == "vmasa") {
    a.push_back("-i"); a.push_back(base + "regtls.crt");
    in = body_for(l, &r->sent);
  }
  if (cmd == "serial") { a = {"-i", base + "idev.crt"}; if (l.has("cadir")) a = {"-i", "/out"}; }
  a.push_back(cmd);
  r->proc = spawn_node(h, "cmd" + std::to_string(l.id) + "." + cmd, a, in);
  r->proc->ncpu = 4;
  r->proc->out_left = l.num("sout", -1);
  return r;
}

// ------------------------------------------------------------------ request bodies
static std::string strip_nul(const std::string &s) { return s; }
static std::string mutate(const std::string &der, const std::string &mut, Rng &r, std::string *body) {
  std::string d = der;
  if (mut == "flip" && !d.empty()) d[r.below(d.size())] ^= (char)(1 << r.below(8));
  else if (mut == "trunc" && !d.empty()) d.resize(r.below(d.size()));
  else if (mut == "append") d += std::string(1 + r.below(50), (char)r.below(256));
  else if (mut == "zero") d.assign(r.below(200), '\0');
  std::string b = b64(d);
  if (mut == "b64trunc" && !b.empty()) b.resize(r.below(b.size()));
  else if (mut == "b64junk") b.insert(r.below(b.size() + 1), "%%*");
  else if (mut == "b64pad") b += "==";
  else if (mut == "b64pad3") b = b.substr(0, 4) + "====" + b.substr(std::min<size_t>(4, b.size()));
  else if (mut == "padonly") b = std::string(4 * (1 + r.below(4)), '=');
  else if (mut == "pad1") b = "A===";
  else if (mut == "ws") { std::string o; for (size_t i = 0; i < b.size(); i += 64) o += b.substr(i, 64) + "\n"; b = o; }
  else if (mut == "crlf") { std::string o; for (size_t i = 0; i < b.size(); i += 64) o += b.substr(i, 64) + "\r\n"; b = o; }
  else if (mut == "empty") b = "";
  else if (mut == "nul") b.insert(r.below(b.size() + 1), std::string(1, '\0'));
  else if (mut == "nulhead") b.insert(0, std::string(1, '\0'));
  else if (mut == "garbage") { b.clear(); size_t n = r.below(300); for (size_t i = 0; i < n; i++) b += (char)(1 + r.below(255)); }
  else if (mut == "derraw") b = d;
  else if (mut == "huge") { b.clear(); b.assign(20000 + r.below(200000), 'A'); }
  *body = b;
  return d;
}
static std::string jmutate(VDoc &doc, const std::string &m, Rng &r) {
  std::string j;
  if (m == "dupser") { doc.s("serial-number", "SN-1000"); }
  else if (m == "dupprox") doc.b("proximity-registrar-cert", I("regtls")->der);
  else if (m == "numser") { for (auto &e : doc.kv) if (e.first == "serial-number") e.second = "1000"; }
  else if (m == "unknown") doc.s("x-unknown", "zz");
  else if (m == "nested") doc.raw("x-nested", "{\"a\":[1,2,{\"b\":null}]}");
  else if (m == "badtime") { for (auto &e : doc.kv) if (e.first == "created-on") e.second = "\"not-a-time\""; }
  else if (m == "badassert") { for (auto &e : doc.kv) if (e.first == "assertion") e.second = "\"bogus\""; }
  else if (m == "badb64") { for (auto &e : doc.kv) if (e.first == "nonce" || e.first == "proximity-registrar-cert") e.second = "\"A===\""; }
  else if (m == "emptynonce") { for (auto &e : doc.kv) if (e.first == "nonce") e.second = "\"\""; }
  else if (m == "dupnonce") doc.s("nonce", "AAAA");
  else if (m == "expires") doc.s("expires-on", "2020-01-01T00:00:00Z");
  else if (m == "drc") doc.raw("domain-cert-revocation-checks", "true");
  else if (m == "drcbad") doc.raw("domain-cert-revocation-checks", "maybe");
  else if (m == "bigser") { for (auto &e : doc.kv) if (e.first == "serial-number") e.second = "\"" + std::string(3000, 'S') + "\""; }
  else if (m == "esc") { for (auto &e : doc.kv) if (e.first == "serial-number") e.second = "\"SN\\u002d1000\\n\\\"\\\\\""; }
  else if (m == "val") { // any member, known or not yet there, with a value of any form and length
    static const char *keys[] = {"created-on", "expires-on", "assertion", "serial-number", "idevid-issuer", "pinned-domain-cert", "domain-cert-revocation-checks", "nonce", "last-renewal-date", "prior-signed-voucher-request", "proximity-registrar-cert"};
    std::string k = keys[r.below(11)], v;
    size_t len = r.chance(0.5) ? r.below(70) : r.chance(0.5) ? 60 + r.below(10) : r.below(6000);
    switch (r.below(8)) {
    case 0: v = "\"" + std::string(len, (char)('0' + r.below(10))) + "\""; break;
    case 1: v = "\"2026-01-02T03:04:05" + std::string(len, r.chance(0.5) ? '0' : 'Z') + "Z\""; break;
    case 2: v = "\"" + std::string(len, 'A') + "\""; break;
    case 3: v = std::string(len, '9'); break;
    case 4: v = "\"" + std::string(r.below(8), '=') + std::string(r.below(9), 'Q') + std::string(r.below(5), '=') + "\""; break;
    case 5: { const char *w[] = {"true", "false", "null", "-1", "1e999", "{}", "[]", "\"true\"", "\"\"", "[\"a\",\"b\"]", "{\"a\":1}", "\"verified\"", "\"proximity \"", "\"Proximity\"", "truefalse", "\"2026-13-45T99:99:99Z\"", "\"2026-01-02\"", "\"0000-00-00T00:00:00Z\"", "\"9999-12-31T23:59:59Z\"", "\"-2026-01-02T03:04:05Z\""}; v = w[r.below(20)]; break; }
    case 6: { std::string t; for (size_t i = 0; i < len; i++) { char c = (char)(1 + r.below(255)); if (c == '"' || c == '\\') c = 'x'; t += c; } v = "\"" + t + "\""; break; }
    case 7: { std::string t; for (size_t i = 0; i < len; i++) { const char *e[] = {"\\u0000", "\\n", "\\\"", "\\\\", "\\u00ff", "%s", "%n", "a"}; t += e[r.below(8)]; } v = "\"" + t + "\""; break; }
    }
    bool hit = false;
    for (auto &e : doc.kv) if (e.first == k) { e.second = v; hit = true; }
    if (!hit) { if (r.chance(0.5)) doc.raw(k, v); else doc.kv.insert(doc.kv.begin(), {k, v}); }
  }
  j = doc.json();
  if (m == "root") j = doc.json("ietf-voucher-request:voucher");
  else if (m == "rootprefix") j = doc.json("ietf");
  else if (m == "rootempty") j = doc.json("");
  else if (m == "jtrunc") j.resize(r.below(j.size()));
  else if (m == "jgarbage") { j.clear(); size_t n = r.below(200); for (size_t i = 0; i < n; i++) j += (char)r.below(256); }
  else if (m == "jempty") j = "";
  else if (m == "jarr") j = "[" + j + "]";
  else if (m == "jnull") j = "null";
  else if (m == "jdeep") { j.clear(); for (int i = 0; i < 400; i++) j += "{\"ietf-voucher:voucher\":"; }
  else if (m == "jkeyonly") j = "{\"ietf-voucher:voucher\":{\"serial-number\"}}";
  else if (m == "jkeytrail") j = "{\"ietf-voucher:voucher\":{\"nonce\":\"AAAA\",\"serial-number\":}}";
  else if (m == "jarrval") j = "{\"ietf-voucher:voucher\":{\"serial-number\":[1,2,3],\"nonce\":{\"a\":\"b\"}}}";
  else if (m == "jflat") j = "{\"ietf-voucher:voucher\":\"x\"}";
  else if (m == "jtwo") j = doc.json() + doc.json();
  else if (m == "jws") { std::string o; for (char c : j) { o += c; if (c == ',' || c == '{') o += "\n  "; } j = o; }
  else if (m == "jmany") { // about as many tokens as the parser has room for, also an odd number
    std::string o = "{\"ietf-voucher:voucher\":{"; int n = r.chance(0.3) ? 60 + (int)r.below(8) : 13 + (int)r.below(3);
    for (int i = 0; i < n; i++) o += std::string(i ? "," : "") + "\"serial-number\":\"SN-1000\"";
    o += r.chance(0.75) ? ",\"nonce\"}}" : r.chance(0.5) ? "}" : "}}"; j = o; }
  else if (m == "jbig") { std::string o = "{\"ietf-voucher:voucher\":{"; for (int i = 0; i < 600; i++) o += "\"k" + std::to_string(i) + "\":\"v\","; o += "\"serial-number\":\"SN-1000\"}}"; j = o; }
  return j;
}
static std::string pvr(const Line &l, const std::string &pre, Rng &r) {
  std::string id = l.get(pre + "id", l.get("p", "p0"));
  Ident *pi = I(id), *cms = I(l.get(pre + "cms", id));
  VDoc d;
  Host *h = cproc() ? cproc()->host : nullptr;
  if (l.get(pre + "crt", "1") == "1") d.s("created-on", iso_time(hosttime(h) / SEC));
  std::string n = l.get(pre + "nonce", "auto");
  if (n == "auto") { d.b("nonce", rnd_nonce(r)); }
  else if (n != "none") d.b("nonce", n);
  std::string as = l.get(pre + "asr", "proximity");
  if (as != "none") d.s("assertion", as);
  std::string px = l.get(pre + "prox", W->plan.s("reg.tls", "regtls"));
  if (px == "junk") d.b("proximity-registrar-cert", "junk");
  else if (px == "trunc") d.b("proximity-registrar-cert", I("regtls")->der.substr(0, I("regtls")->der.size() - 1));
  else if (px == "longer") d.b("proximity-registrar-cert", I("regtls")->der + "x");
  else if (px != "none") d.b("proximity-registrar-cert", I(px)->der);
  std::string sn = l.get(pre + "ser", pi->serial);
  if (sn != "none") d.s("serial-number", sn);
  std::string j = jmutate(d, l.get(pre + "jm", ""), r);
  return cms_sign(j, cms, idlist(l.get(pre + "add", "")), l.get(pre + "nocerts") == "1", l.get(pre + "cf", ""), I(l.get(pre + "cf2", "evil")));
}
std::string make_voucher(const std::string &serial, const std::string &nonce, bool has_nonce, const std::string &b, Rng &r, std::string *der_out) {
  static std::string last;
  VDoc d;
  std::string ser = serial, non = nonce, pin = W->plan.s("masa.ldev", "domca");
  Ident *signer = I(W->plan.s("fk.signer", "masacms"));
  std::vector<Ident *> extra;
  if (b == "swapser") ser = serial == "SN-1000" ? "SN-1037" : "SN-1000";
  else if (b == "preser") ser = serial.substr(0, serial.empty() ? 0 : serial.size() - 1);
  else if (b == "extser") ser += "X";
  else if (b == "lcser") for (auto &c : ser) c = (char)tolower(c);
  else if (b == "swapnonce") non = "another-nonce-value";
  else if (b == "prenonce") non = nonce.substr(0, nonce.empty() ? 0 : nonce.size() - 1);
  else if (b == "extnonce") non += "x";
  else if (b == "flipnonce" && !non.empty()) non[r.below(non.size())] ^= 1;
  else if (b == "tailnonce" && !non.empty()) { size_t z = non.find('\0'); non[z + 1 < non.size() ? z + 1 + r.below(non.size() - z - 1) : non.size() - 1] ^= 0x55; }
  else if (b == "pinb") pin = "dombca";
  else if (b == "pinevil") pin = "evilca";
  else if (b == "pinlook") pin = "rdomca";
  else if (b == "pinee") pin = "regtls";
  else if (b == "pinother") pin = "regtls2";
  else if (b == "siglook") signer = I("rmasacms");
  else if (b == "sigevil") signer = I("evil");
  else if (b == "sigreg") signer = I("regcms");
  else if (b == "sigpledge") signer = I("p1");
  else if (b == "sigint") signer = I("masacms2");
  else if (b == "sigintc") { signer = I("masacms2"); extra = {I("masaint")}; }
  else if (b == "sigexp") signer = I("masacmsexp");
  d.s("created-on", iso_time((S->epoch + S->now) / SEC));
  if (b == "emptynonce") d.s("nonce", "");
  else if (b != "nononce" && has_nonce) d.b("nonce", non);
  else if (b == "addnonce") d.b("nonce", "surprise");
  d.s("assertion", b == "logged" ? "logged" : "proximity");
  if (b == "pinjunk") d.b("pinned-domain-cert", "this is not a certificate");
  else if (b == "pinbad") d.s("pinned-domain-cert", "A===");
  else if (b == "pintrunc") d.b("pinned-domain-cert", I(pin)->der.substr(0, 100));
  else if (b == "pinempty") d.s("pinned-domain-cert", "");
  else if (b != "nopin") d.b("pinned-domain-cert", I(pin)->der);
  if (b == "numser") d.raw("serial-number", "1000");
  else if (b != "noser") d.s("serial-number", ser);
  d.raw("domain-cert-revocation-checks", "false");
  d.s("expires-on", b == "expired" ? "2020-01-01T00:00:00Z" : "2031-05-06T07:08:09Z");
  std::string j = jmutate(d, b.compare(0, 2, "j:") == 0 ? b.substr(2) : "", r);
  std::string der = cms_sign(j, signer, extra, b == "nocerts", b.compare(0, 2, "c:") == 0 ? b.substr(2) : "", I("evil"));
  std::string body;
  if (b == "replay" && !last.empty()) der = last;
  if (b == "tamper" && der.size() > 60) { size_t p = der.find("serial-number"); if (p != std::string::npos) der[p + 18] ^= 1; }
  std::string m = b.compare(0, 2, "m:") == 0 ? b.substr(2) : "";
  der = mutate(der, m, r, &body);
  if (b != "replay") last = der;
  if (der_out) *der_out = der;
  return body;
}
static std::string enrol_cert(const Line &l, Rng &r, std::string *raw) {
  CertSpec c;
  std::string m = l.get("ev", "ok");
  char sn[40]; snprintf(sn, sizeof sn, "%016lx", (unsigned long)r.u64());
  c.subject = {{"C", "IE"}, {"CN", "ldevid-cert"}, {"serialNumber", sn}};
  c.nb = 0; c.na = 3000; c.serial = (long)(r.u64() >> 2);
  if (m == "ca") c.ca = true;
  if (m == "nosn") c.subject.pop_back();
  if (m == "rsa") c.rsa = true;
  if (m == "sn64") c.serial = -1; // all 64 bits set
  if (m == "longsn") c.subject.back().second = std::string(64, 'Z');
  if (m == "utf8") { c.subject[1].second = "pl\xc3\xa9""dge \xe2\x82\xac"; c.subject.push_back({"O", "a, b + c = \"d\""}); c.subject.push_back({"OU", "one"}); c.subject.push_back({"OU", "two"}); }
  if (m == "san") c.san = "DNS:pledge.example,IP:10.1.2.3,email:a@b.example";
  if (m == "inj") { // tries to end the quoted text or the line in the audit log
    const char *x[] = {"a\"", "\"\n1800000000 0x3e8 \"SN-1000\" 0x1 \"x", "a\nb", "\\", "a\" 0x1 \"b", "\r\n", "a\n1800000000 0x1 \"", "%s%n"};
    c.subject.back().second = x[r.below(8)];
  }
  static int k = 0;
  Ident *id = mkident("enrol" + std::to_string(k++), c);
  *raw = id->der;
  std::string body;
  *raw = mutate(id->der, l.get("mut", ""), r, &body);
  if (m == "issued") { *raw = I("p0")->der; body = b64(*raw); }
  if (m == "key") { *raw = id->keyder; body = b64(*raw); }
  return body;
}
std::string body_for(const Line &l, std::string *raw) {
  InSim g;
  Rng r; r.seed(W->plan.seed * 977 + l.id * 31 + 5);
  std::string body;
  if (l.kind == "cpvr") { *raw = mutate(pvr(l, "", r), l.get("mut", ""), r, &body); return body; }
  if (l.kind == "cenrol") return enrol_cert(l, r, raw);
  if (l.kind == "vmasa") { std::string n = rawnonce(l); return make_voucher(l.get("vser", l.get("ser", I(l.get("p", "p0"))->serial)), n, !n.empty(), l.get("beh", "ok"), r, raw); }
  if (l.kind == "crvr") {
    std::string prior = mutate(pvr(l, "p_", r), l.get("p_mut", ""), r, &body);
    VDoc d;
    Host *h = cproc() ? cproc()->host : nullptr;
    d.s("created-on", iso_time(hosttime(h) / SEC));
    std::string n = l.get("nonce", "auto");
    if (n == "auto") { d.b("nonce", rnd_nonce(r)); }
    else if (n != "none") d.b("nonce", n);
    std::string sn = l.get("ser", I(l.get("p_id", l.get("p", "p0")))->serial);
    if (sn != "none") d.s("serial-number", sn);
    d.s("idevid-issuer", b64("C = IE, CN = Mfr Root CA"));
    std::string pr = l.get("prior", "ok");
    if (pr == "ok") d.b("prior-signed-voucher-request", prior);
    else if (pr == "junk") d.b("prior-signed-voucher-request", "junk");
    else if (pr == "empty") d.s("prior-signed-voucher-request", "");
    else if (pr == "self") d.b("prior-signed-voucher-request", cms_sign(d.json(), I("regcms")));
    std::string j = jmutate(d, l.get("jm", ""), r);
    std::string der = cms_sign(j, I(l.get("cms", "regcms")), idlist(l.get("add", "")), l.get("nocerts") == "1", l.get("cf", ""), I(l.get("cf2", "evil")));
    *raw = mutate(der, l.get("mut", ""), r, &body);
    return body;
  }
  (void)strip_nul;
  return "";
}
// ------------------------------------------------------------------ fake servers
static int fake_n = 0;
static void fake_handler(const std::string &role, const Http &q, const std::string &, std::string *out) {
  InSim g;
  Plan &p = W->plan;
  auto beh = split(p.s(role + ".beh", "ok"), ',');
  Rng r; r.seed(p.seed * 33 + fake_n * 7 + 1);
  bool reg = role != "masa";
  if (reg && q.body.empty()) {
    std::string f = p.s(role + ".first", "400");
    if (f == "drop") { *out = ""; return; }
    if (f == "stall") { cur->insim--; sleep_for(60 * SEC); cur->insim++; *out = ""; return; }
    *out = http_reply(atoi(f.c_str()), "first", "text/plain");
    return;
  }
  std::string b = beh[fake_n++ % beh.size()];
  bool enrol = q.path.find("simpleenroll") != std::string::npos;
  if (b == "drop") { *out = ""; return; }
  if (b == "stall") { cur->insim--; sleep_for(90 * SEC); cur->insim++; *out = ""; return; }
  if (b == "slow") { cur->insim--; sleep_for(3 * SEC); cur->insim++; b = "ok"; }
  if (b == "late") { cur->insim--; sleep_for(6 * SEC); cur->insim++; b = "ok"; }
  if (b.compare(0, 2, "st") == 0) { *out = http_reply(atoi(b.c_str() + 2), r.chance(0.5) ? "refused" : "", "text/plain"); return; }
  int rst = 200; // an error reply that carries what an honest success reply would
  if (b.size() == 4 && b[0] == 'e' && b[1] >= '4' && b[1] <= '5') { rst = atoi(b.c_str() + 1); b = "ok"; }
  if (b == "rawgarbage") { *out = "\x01\x02garbage that is not HTTP at all\r\n\r\n"; return; }
  if (b == "halfhead") { *out = "HTTP/1.1 200 OK\r\nContent-Type: app"; return; }
  if (b == "biglen") { *out = "HTTP/1.1 200 OK\r\nContent-Length: 100000\r\n\r\nAAAA"; return; }
  if (b == "neglen") { *out = "HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\nAAAA"; return; }
  if (b == "badstatus") { *out = "HTTP/1.1 abc OK\r\nContent-Length: 0\r\n\r\n"; return; }
  if (b == "nolen") { *out = "HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n"; b = "nolen2"; }
  std::string body;
  if (enrol) {
    std::string der;
    unb64(q.body, &der);
    if (b == "ok" || b.compare(0, 3, "pin") == 0) {
      const unsigned char *pp = (const unsigned char *)der.data();
      X509 *x = d2i_X509(nullptr, &pp, (long)der.size());
      if (x) {
        Ident *ca = I(p.s(role + ".ca", "domca"));
        X509_set_issuer_name(x, X509_get_subject_name(ca->x)); X509_sign(x, ca->k, EVP_sha256());
        unsigned char *o = nullptr; int n = i2d_X509(x, &o); body = b64(std::string((char *)o, n)); OPENSSL_free(o); X509_free(x);
      }
    } else mutate(der, b.compare(0, 2, "m:") == 0 ? b.substr(2) : "garbage", r, &body);
    *out = http_reply(rst, body, "text/plain");
    return;
  }
  // voucher
  std::string der, content, serial, nonce; bool hn = false;
  unb64(q.body, &der);
  if (cms_verify(der, {}, {}, 0, &content)) {}
  { // no verification: take the content as it is
    const unsigned char *pp = (const unsigned char *)der.data();
    (void)pp;
    std::string c;
    size_t a = der.find("{\"ietf-voucher:voucher\""); size_t e = der.find("}}", a == std::string::npos ? 0 : a);
    if (a != std::string::npos && e != std::string::npos) c = der.substr(a, e + 2 - a);
    Json j = parse_voucher(c);
    serial = j.get("serial-number");
    if (j.has("nonce")) { hn = unb64(j.get("nonce"), &nonce); }
  }
  body = make_voucher(serial, nonce, hn, b, r, nullptr);
  if (b == "chunked") {
    std::string o = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nContent-Type: application/voucher-cms+json\r\n\r\n";
    for (size_t i = 0; i < body.size();) { size_t n = std::min<size_t>(body.size() - i, 1 + r.below(300)); char h[20]; snprintf(h, sizeof h, "%zx\r\n", n); o += h + body.substr(i, n) + "\r\n"; i += n; }
    *out = o + "0\r\n\r\n"; return;
  }
  if (b == "chunkcut" || b == "chunknoend") { // ends between two chunks, or before the last chunk
    size_t k = b == "chunkcut" ? 1 + r.below(body.size()) : body.size(); char h[20]; snprintf(h, sizeof h, "%zx\r\n", k);
    *out = "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nConnection: close\r\nContent-Type: application/voucher-cms+json\r\n\r\n" + (h + body.substr(0, k)) + "\r\n"; return;
  }
  if (b == "empty200") { *out = http_reply(200, ""); return; }
  if (b == "nolen2") { *out += body; return; }
  if (b == "half") { std::string f = http_reply(200, body); *out = f.substr(0, f.size() - body.size() / 2); return; }
  if (b == "cont") { *out = "HTTP/1.1 100 Continue\r\n\r\n" + http_reply(200, body); return; }
  if (b == "ok201") { *out = http_reply(201, body); return; }
  *out = http_reply(rst, body);
}
static void start_fake(const std::string &role, Host *h, int port, Ident *tls) {
  auto *s = new Server();
  s->role = "fake." + role; s->port = port; s->tls = tls;
  s->handler = [role](const Http &q, const std::string &cd, std::string *out, int) { fake_handler(role, q, cd, out); };
  s->start(h);
  W->fakes[role] = s;
}

// ------------------------------------------------------------------ harness clients
static void raw_client(OpRes *r, Client &c, const Line &l);
static void client_op(OpRes *r) {
  const Line &l = *r->l;
  std::string to = l.get("to", l.kind == "crvr" ? "masa" : "reg");
  std::string ip = srv_ip(to); int port = srv_port(to);
  std::string tid = l.get("tls", to == "masa" ? W->plan.s("reg.tls", "regtls") : l.get("p", "p0"));
  Ident *id = tid == "none" ? nullptr : I(tid);
  std::vector<Ident *> chain = idlist(l.get("chain", ""));
  std::string path = l.get("path", l.kind == "cenrol" ? "/.well-known/est/simpleenroll" : "/.well-known/brski/requestvoucher");
  Client c; c.timeout = l.num("timeout", 40) * SEC; c.tlsv = (int)l.num("tlsv"); c.sess = l.get("sess", "");
  if (l.kind == "raw") { raw_client(r, c, l); r->t1 = S->now; r->done = true; return; }
  std::string body;
  if (l.kind != "cget") body = body_for(l, &r->sent);
  if (l.has("lit")) { body = l.get("lit"); for (auto &ch : body) if (ch == '_') ch = ' '; }
  r->ident = tid;
  bool o = c.open(ip, port, id, chain);
  r->conn = c.connid;
  if (c.resume_try) W->stats["tls_resume_try"]++;
  if (o) {
    int n = (int)l.num("times", 1);
    for (int i = 0; i < n; i++) {
      if (l.has("gap") && i) sleep_for(l.num("gap") * MS);
      if (l.has("dripms")) { // slow sender
        std::string q = "POST " + path + " HTTP/1.1\r\nHost: sim\r\nContent-Type: application/voucher-cms+json\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
        size_t step = (size_t)std::max<int64_t>(1, l.num("dripn", 200));
        bool ok = true;
        for (size_t k = 0; ok && k < q.size(); k += step) { ok = c.write(q.substr(k, step)); sleep_for(l.num("dripms") * MS); }
        r->reply = c.response();
      } else
        r->reply = c.request(l.kind == "cget" ? l.get("m", "GET") : "POST", path, body, l.get("ct", "application/voucher-cms+json"), l.has("chunk") ? "" : "");
      r->status = r->reply.status;
      r->statuses.push_back(r->status);
      if (r->status < 0) break;
    }
    c.keep_session();
    if (c.resumed) W->stats["tls_resumed"]++;
    if (l.has("holdms")) sleep_for(l.num("holdms") * MS);
    if (l.get("end") == "abort") c.abort(); else c.close();
  } else r->status = -3;
  r->t1 = S->now;
  r->done = true;
}
static void raw_client(OpRes *r, Client &c, const Line &l) {
  std::string to = l.get("to", "reg"), m = l.get("mode", "connect");
  Rng g; g.seed(W->plan.seed * 57 + l.id);
  std::string ip = srv_ip(to); int port = srv_port(to);
  Ident *id = l.get("tls", to == "masa" ? W->plan.s("reg.tls", "regtls") : "p0") == "none" ? nullptr : I(l.get("tls", to == "masa" ? W->plan.s("reg.tls", "regtls") : "p0"));
  bool tls = m.compare(0, 3, "tcp") != 0;
  if (!tls) {
    if (!c.tcp(ip, port)) { r->status = -3; return; }
    r->conn = c.connid;
    if (m == "tcpidle") sleep_for(l.num("holdms", 1000) * MS);
    else if (m == "tcpjunk") { std::string s; size_t n = 1 + g.below(600); for (size_t i = 0; i < n; i++) s += (char)g.below(256); c.write(s); c.read_some(); }
    else if (m == "tcphttp") { c.write("GET / HTTP/1.1\r\nHost: x\r\n\r\n"); c.read_some(); }
    else if (m == "tcphello") { // a TLS record that promises more than it delivers
      std::string s("\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", 11); s += std::string(g.below(200), 'r'); c.write(s); if (l.has("bg") || g.chance(0.5)) sleep_for(l.num("holdms", 500) * MS); }
    c.abort();
    r->status = 0;
    return;
  }
  if (!c.open(ip, port, id)) { r->conn = c.connid; r->status = -3; return; }
  r->conn = c.connid;
  std::string body = std::string("A") + std::string(g.below(100), 'B');
  std::string P = l.get("path", "/.well-known/brski/requestvoucher");
  auto rq = [&](const std::string &hd, const std::string &b) { return "POST " + P + " HTTP/1.1\r\nHost: s\r\n" + hd + "\r\n" + b; };
  std::string s;
  bool expect = true;
  if (m == "idle") { sleep_for(l.num("holdms", 1000) * MS); expect = false; }
  else if (m == "half") { s = rq("Content-Length: 1000\r\n", body); expect = false; }
  else if (m == "halfhold") { c.write(rq("Content-Length: 1000\r\n", body)); sleep_for(l.num("holdms", 7000) * MS); expect = true; }
  else if (m == "noread") { // takes no answer, and its buffers are small
    conns[c.connid]->win = l.has("win") ? (int)l.num("win") : 500 + (int)g.below(1600);
    std::string t; for (int i = 0; i < 6; i++) t += rq("Content-Length: " + std::to_string(body.size()) + "\r\n", body);
    c.write(t); sleep_for(l.num("holdms", 7000) * MS); expect = false;
  }
  else if (m == "badlen") s = rq("Content-Length: abc\r\n", "");
  else if (m == "neglen") s = rq("Content-Length: -1\r\n", "");
  else if (m == "biglen") { s = rq("Content-Length: 99999999999999999999\r\n", body); expect = false; }
  else if (m == "nolen") s = rq("", "");
  else if (m == "chunk") { char h[32]; snprintf(h, sizeof h, "%zx\r\n", body.size()); s = rq("Transfer-Encoding: chunked\r\n", h + body + "\r\n0\r\n\r\n"); }
  else if (m == "chunkbad") s = rq("Transfer-Encoding: chunked\r\n", "zzzz\r\nxx\r\n");
  else if (m == "chunkneg") s = rq("Transfer-Encoding: chunked\r\n", "-5\r\nxx\r\n0\r\n\r\n");
  else if (m == "pipeline") { s = rq("Content-Length: 1\r\n", "A") + rq("Content-Length: 0\r\n", "") + rq("Content-Length: 2\r\n", "AA"); }
  else if (m == "longuri") { s = "GET /" + std::string(9000 + g.below(3000), 'u') + " HTTP/1.1\r\n\r\n"; }
  else if (m == "longhdr") { s = rq("X-A: " + std::string(9000 + g.below(9000), 'h') + "\r\nContent-Length: 0\r\n", ""); }
  else if (m == "manyhdr") { std::string h; for (int i = 0; i < 300; i++) h += "X-" + std::to_string(i) + ": v\r\n"; s = rq(h + "Content-Length: 0\r\n", ""); }
  else if (m == "duphdr") { std::string h; for (int i = 0; i < 20; i++) h += "X-Same: v" + std::to_string(i) + "\r\n"; s = rq(h + "Content-Length: 0\r\n", ""); }
  else if (m == "badline") s = "NONSENSE\r\n\r\n";
  else if (m == "badver") s = "POST " + P + " HTTP/9.9\r\nContent-Length: 0\r\n\r\n";
  else if (m == "http10") s = "POST " + P + " HTTP/1.0\r\nContent-Length: 0\r\n\r\n";
  else if (m == "method") s = std::string(g.pick(std::vector<std::string>{"PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "TRACE", "CONNECT", "PRI", "FOO", "post"})) + " " + P + " HTTP/1.1\r\nContent-Length: 0\r\n\r\n";
  else if (m == "path") s = "POST " + g.pick(std::vector<std::string>{"/", "*", "/%00", "/..%2f..", "/.well-known/brski/requestvoucher/", "/.well-known/brski//requestvoucher", "/.well-known/brski/requestvoucher?x=1", "//"}) + " HTTP/1.1\r\nContent-Length: 0\r\n\r\n";
  else if (m == "expect") s = rq("Expect: 100-continue\r\nContent-Length: 1\r\n", "A");
  else if (m == "range") s = "GET " + P + " HTTP/1.1\r\nRange: bytes=0-,5-1,-9\r\n\r\n";
  else if (m == "multipart") s = rq("Content-Type: multipart/form-data; boundary=xx\r\nContent-Length: 30\r\n", "--xx\r\nContent-Disposition: fo\r\n");
  else if (m == "form") s = rq("Content-Type: application/x-www-form-urlencoded\r\nContent-Length: 9\r\n", "a=%zz&b=1");
  else if (m == "gzip") s = rq("Content-Encoding: gzip\r\nContent-Length: 5\r\n", "abcde");
  else if (m == "junk") { size_t n = 1 + g.below(2000); for (size_t i = 0; i < n; i++) s += (char)g.below(256); expect = false; }
  else if (m == "nulpath") s = std::string("POST /a\0b HTTP/1.1\r\nContent-Length: 0\r\n\r\n", 40);
  else if (m == "renego") { s = rq("Content-Length: 0\r\n", ""); if (c.ssl) SSL_key_update(c.ssl, SSL_KEY_UPDATE_REQUESTED); }
  else if (m == "keep") { // several requests and then close
    for (int i = 0; i < 3; i++) { Http h = c.request("POST", P, "", "text/plain"); r->statuses.push_back(h.status); }
    expect = false;
  }
  if (!s.empty()) c.write(s);
  if (expect) { r->reply = c.response(); r->status = r->reply.status; r->statuses.push_back(r->status); }
  std::string e = l.get("end", "close");
  if (e == "abort") c.abort(); else c.close();
}

// ------------------------------------------------------------------ faults
static void do_fault(const Line &l) {
  std::string k = l.kind;
  W->last_fault = std::max(W->last_fault, S->now);
  if (k == "crash" || k == "power") crash_server(l.get("srv", "reg"), l.num("down", 200), k == "power");
  else if (k == "part") {
    std::string a = l.get("a"), b = l.get("b");
    partition(a, b, true);
    at(S->now + l.num("dur", 1000) * MS, [a, b]() { partition(a, b, false); fired("heal"); W->last_fault = std::max(W->last_fault, S->now); });
  } else if (k == "pause") {
    Server1 &s = server(l.get("srv", "reg"));
    if (s.proc && !s.proc->exited) { s.proc->paused_until = S->now + l.num("dur", 500) * MS; fired("process_stall"); W->last_fault = std::max(W->last_fault, s.proc->paused_until); }
  } else if (k == "clock") {
    Host *h = host(l.get("host", "reg"));
    if (h) { if (W->clk[h].empty()) W->clk[h].push_back({0, h->clock_off}); h->clock_off += l.num("d") * SEC; W->clk[h].push_back({S->now, h->clock_off}); fired("clock_step"); }
  } else if (k == "tz") {
    Host *h = host(l.get("host", "reg"));
    if (h) { h->tz_off = (int)l.num("off"); fired("tz_change"); }
  } else if (k == "file") {
    FileFault f;
    f.host = l.get("host", "reg"); f.path = l.get("path"); f.op = l.get("op", "o")[0];
    f.nth = (int)l.num("nth"); f.count = (int)l.num("count", 1); f.err = (int)l.num("err", 5); f.arg = l.num("arg"); f.kind = l.get("kind", "io"); f.id = l.id;
    S->ffaults.push_back(f);
    if (l.has("dur")) { int id = l.id; at(S->now + l.num("dur") * MS, [id]() { for (auto &f : S->ffaults) if (f.id == id) f.count = f.fired; W->last_fault = std::max(W->last_fault, S->now); }); }
  } else if (k == "rmfile") {
    Host *h = host(l.get("host", "reg")); std::string path = l.get("path");
    for (auto &e : h->fs) if (e.first.find(path) != std::string::npos && !e.second->dir) {
      std::string full = e.first; auto v = e.second; h->fs.erase(full); fired("disk_file_missing");
      W->missing.push_back({h, {S->now, S->now + l.num("dur", 500) * MS}});
      W->restore.push_back([h, full, v]() { h->fs[full] = v; });
      at(S->now + l.num("dur", 500) * MS, [h, full, v]() { h->fs[full] = v; W->last_fault = std::max(W->last_fault, S->now); });
      break;
    }
  } else if (k == "slow") { Host *h = host(l.get("host", "reg")); if (h) { h->slow_disk = l.num("ms", 20) * MS; fired("slow_disk"); at(S->now + l.num("dur", 2000) * MS, [h]() { h->slow_disk = 0; W->last_fault = std::max(W->last_fault, S->now); }); } }
  else if (k == "alloc") {
    Server1 &s = server(l.get("srv", "reg"));
    if (s.proc && !s.proc->exited) { s.proc->alloc_ctr = 0; s.proc->alloc_count_on = true; s.proc->fail_at = l.num("at"); s.proc->fail_len = l.num("len", 1); }
  } else if (k == "rand") { S->randfaults.push_back({l.get("host", "reg"), l.num("nth"), l.num("count", 1)});
  } else if (k == "fdlimit") {
    Server1 &s = server(l.get("srv", "reg"));
    if (s.proc && !s.proc->exited) { Proc *p = s.proc; p->fdlimit = (int)p->fds.size() + (int)l.num("spare", 1); fired("fd_limit"); at(S->now + l.num("dur", 1000) * MS, [p]() { p->fdlimit = 1024; W->last_fault = std::max(W->last_fault, S->now); }); }
  } else if (k == "diskfull") { Host *h = host(l.get("host", "reg")); if (h) { h->disk_free = l.num("free"); at(S->now + l.num("dur", 1000000) * MS, [h]() { h->disk_free = -1; }); } }
  else if (k == "bbkill") { // crash after a number of basic blocks of the process
    Server1 &s = server(l.get("srv", "reg"));
    if (s.proc && !s.proc->exited) { s.proc->kill_bb = l.num("n", 1000); s.proc->kill_down = l.num("down", 200); s.proc->srvname = l.get("srv", "reg"); }
  }
}
static void on_bbkill(Proc *p) {
  crash_server(p->srvname, p->kill_down, false);
}

// ------------------------------------------------------------------ history
static std::vector<Req> pair_up(const std::vector<Tap> &in, const std::vector<Tap> &out, int conn) {
  std::vector<Req> v;
  auto join = [](const std::vector<Tap> &t) { std::string s; for (auto &x : t) s += x.data; return s; };
  static const Tap none{0, "", -1, 0};
  auto when = [](const std::vector<Tap> &t, size_t off) -> const Tap & { size_t n = 0; for (auto &x : t) { n += x.data.size(); if (n >= off) return x; } return t.empty() ? none : t.back(); };
  std::string a = join(in), b = join(out);
  auto q = parse_all(a, true), r = parse_all(b, false);
  size_t oa = 0, ob = 0;
  for (size_t i = 0; i < q.size(); i++) {
    Req x; x.conn = conn; x.q = q[i];
    { auto &tp = when(in, q[i].used); x.tq = tp.t; x.sq = tp.seq; }
    if (i < r.size()) { x.replied = true; x.r = r[i]; { auto &tp = when(out, ob + 1); x.tr = tp.t; x.sr = tp.seq; x.rtid = tp.tid; } ob = r[i].used; }
    oa = q[i].used;
    v.push_back(x);
  }
  (void)oa;
  return v;
}
std::vector<Req> requests(const std::string &role) {
  std::vector<Req> o;
  for (auto &c : conns) {
    if (!c->sp || !c->sp->node || (!role.empty() && c->sp->role != role)) continue;
    for (auto &x : pair_up(c->tap[1][0], c->tap[1][1], c->id)) {
      Req y = x; y.sp = c->sp; y.client = c->client_cert_der; y.ch = c->ch; y.cp = c->cp; o.push_back(y);
    }
  }
  return o;
}
std::vector<Req> client_requests(Proc *p) {
  std::vector<Req> o;
  for (auto &c : conns) {
    if (c->cp != p) continue;
    for (auto &x : pair_up(c->tap[0][1], c->tap[0][0], c->id)) { Req y = x; y.sp = c->sp; y.cp = p; y.ch = c->ch; o.push_back(y); }
  }
  return o;
}

// ------------------------------------------------------------------ execution
static bool is_cmd(const std::string &k) { return k == "preq" || k == "sign" || k == "epvr" || k == "vmasa" || k == "serial"; }
void lib_ops(const Line &l, OpRes *r);
void start_op(const Line &l) {
  if (is_cmd(l.kind)) { run_cmd(l); return; }
  auto *r = new OpRes();
  r->l = &l; r->started = true; r->t0 = S->now;
  W->ops.push_back(r);
  if (l.kind == "lib") { lib_ops(l, r); return; }
  std::string hn = l.get("host", "c" + std::to_string(l.id));
  Host *h = host(hn);
  if (!h) { h = add_host(hn, "10.0.2." + std::to_string(1 + l.id % 250)); h->clock_off = atoll(W->plan.s("clk." + hn, "0").c_str()) * SEC; }
  r->h = h;
  Proc *p = new_proc(h, "client" + std::to_string(l.id));
  p->sigpipe_ign = true;
  spawn_thread(p, p->role, [r]() { client_op(r); });
}
bool all_done() {
  for (auto *r : W->ops) {
    if (r->l->has("bg")) continue; // a client that is never waited for
    if (r->proc) { if (!r->proc->exited) return false; if (!r->t1) { r->t1 = r->proc->t_end; r->done = true; } }
    else if (!r->done) return false;
  }
  return true;
}

void quiet_phase();
void run_plan(const Plan &pl) {
  forget_sessions();
  W = new World();
  W->plan = pl;
  Plan &p = W->plan;
  S->k = p.k;
  S->rs.seed(p.k.seed); S->rn.seed(p.k.seed * 3 + 1); S->rf.seed(p.k.seed * 5 + 2); S->rm.seed(p.k.seed * 7 + 3);
  S->bb_limit = 60000000;
  bbkill_cb = on_bbkill;
  run_controller([]() {
    Plan &p = W->plan;
    const char *hn[] = {"reg", "masa", "regb", "evil"};
    for (auto *n : hn) {
      Host *h = add_host(n, n == std::string("reg") ? "10.0.0.1" : n == std::string("masa") ? "10.0.0.2" : n == std::string("regb") ? "10.0.0.5" : "10.0.0.9");
      h->clock_off = atoll(p.s(std::string("clk.") + n, "0").c_str()) * SEC;
      h->tz_off = atoi(p.s(std::string("tz.") + n, "0").c_str());
      auto dv = std::make_shared<Vnode>(); dv->dir = true;
      h->fs["/var/log"] = dv; h->fs["/out"] = dv;
      W->srv[n].name = n; W->srv[n].h = h;
    }
    set_name("registrar.sim", "10.0.0.1"); set_name("masa.sim", "10.0.0.2"); set_name("registrar-b.sim", "10.0.0.5");
    if (p.s("auditpre") != "") fs_put(host("reg"), "/var/log/brski-registrar.log", audit_pre());
    cfaults.reserve(p.lines.size() + 1);
    for (auto &l : p.lines)
      if (l.t == 'f' && l.kind == "conn") {
        ConnFault f;
        f.id = l.id; f.to = l.get("to", "reg"); f.from = l.get("from"); f.nth = l.get("nth") == "*" ? -1 : (int)l.num("nth"); f.dir = (int)l.num("dir"); f.after = l.num("after");
        f.act = l.get("act", "rst"); f.dur = l.num("dur", 1000) * MS; f.arg = l.get("arg");
        cfaults.push_back(f);
      }
    for (auto &l : p.lines) if (l.t == 'f' && l.kind != "conn" && l.ms < 0) do_fault(l);
    for (std::string n : {"masa", "reg", "regb"}) {
      std::string m = p.s(n, n == "regb" ? "none" : "node");
      if (m == "none") continue;
      if (m == "node") { write_server_config(n); server(n).want = true; if (p.s(n + ".occupied") == "1") start_fake("occ", host(n), srv_port(n), I("evil")), sleep_for(20 * MS); }
      else start_fake(n, host(n), srv_port(n), I(p.s(n + ".tls", n == "masa" ? "masatls" : "regtls")));
    }
    if (p.s("evil") != "") start_fake("evil", host("evil"), srv_port("evil"), I(p.s("evil.tls", "eviltls")));
    for (std::string n : {"masa", "reg", "regb"}) if (server(n).want) start_server(n, p.s("nowait") != "1");
    sleep_for(10 * MS);
    Time base = S->now;
    for (auto &l : p.lines) {
      if (l.t == 'f' && l.kind != "conn" && l.ms >= 0) { const Line *lp = &l; at(base + l.ms * MS, [lp]() { InSim g; if (!W->healed) do_fault(*lp); }); W->faulty = true; }
      if (l.t == 'f') W->faulty = true;
    }
    std::vector<const Line *> ops;
    for (auto &l : p.lines) if (l.t == 'o') ops.push_back(&l);
    std::stable_sort(ops.begin(), ops.end(), [](const Line *a, const Line *b) { return a->ms < b->ms; });
    for (auto *l : ops) {
      if (base + l->ms * MS > S->now) sleep_until(base + l->ms * MS);
      if (l->has("after")) { int id = (int)l->num("after"); wait_for([&]() { for (auto *r : W->ops) if (r->l->id == id) return r->proc ? r->proc->exited : r->done; return true; }, 120 * SEC, 5 * MS); }
      start_op(*l);
    }
    W->stats["finished"] = wait_for(all_done, W->limit_s * SEC, 20 * MS);
    quiet_phase();
    cur->insim++;
    evaluate();
    cur->insim--;
  });
}
} // namespace world
