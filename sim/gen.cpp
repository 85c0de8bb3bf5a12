// Seeded generation of plans (topology, operations, schedule knobs, faults) for each property.
#include "world.h"
#include <algorithm>
#include <cstdlib>

namespace world {
typedef std::vector<std::string> VS;
struct Gen {
  Plan p; Rng r; bool deep = false;
  bool c(double x) { return r.chance(x); }
  int64_t n(int64_t a, int64_t b) { return r.range(a, b); }
  std::string s(const VS &v) { return r.pick(v); }
  int i(const std::vector<int> &v) { return r.pick(v); }
  std::string pl() { return "p" + std::to_string(n(0, 6)); }
  void set(const std::string &k, const std::string &v) { p.set[k] = v; }

  // ---- schedule and network knobs
  void sched() {
    auto &k = p.k;
    k.policy = i({0, 0, 1, 2});
    k.budget = i({0, 30000, 6000, 1500, 400});
    k.yieldpm = i({50, 200, 500, 900});
    k.spurious = i({0, 0, 20, 100});
  }
  void net(bool hard = false) {
    auto &k = p.k;
    k.lat_us = i({50, 500, 500, 3000, 15000});
    k.jit_us = i({0, k.lat_us / 2, k.lat_us, k.lat_us * 2});
    k.maxseg = i({16384, 16384, 1400, 536, 100});
    k.shortio = i({0, 0, 100, 400});
    k.eintr = i({0, 0, 50, 200});
    k.losspm = i({0, 0, 0, 20});
    k.window = i({65536, 65536, 8192});
    if (hard) {
      k.maxseg = i({1, 7, 61, 200, 1400, 16384});
      k.shortio = i({0, 300, 900});
      k.eintr = i({0, 100, 400});
      k.losspm = i({0, 10, 40});
      k.window = i({65536, 16384, 8192});
      if (k.maxseg < 50) k.losspm = 0;
    }
  }
  void calm() { p.k.budget = i({0, 30000}); p.k.lat_us = i({50, 500, 3000}); p.k.yieldpm = i({50, 300}); }
  // ---- honest work
  Line &cmd(const std::string &kind, const std::string &pid, int64_t ms, KV a = {}) { a["p"] = pid; return p.op(ms, kind, a); }
  void pledges(int k, int64_t span, const VS &kinds, const KV &a = {}) {
    std::vector<int> ids = {0, 1, 2, 3, 4, 5, 6};
    for (int j = 0; j < k; j++) {
      std::swap(ids[j % 7], ids[j % 7 + r.below(7 - j % 7)]);
      KV b = a;
      if (c(0.15)) b["nonce"] = "none";
      if (c(0.15)) b["out"] = "0";
      cmd(s(kinds), "p" + std::to_string(ids[j % 7]), n(0, span), b);
    }
  }
  void clients(int k, int64_t span, bool clean, const std::string &only = "") {
    for (int j = 0; j < k; j++) {
      std::string id = pl(); KV a;
      std::string kind = only.empty() ? s({"cpvr", "cpvr", "cenrol", "cget", "crvr"}) : only;
      a["p"] = id;
      if (clean) a["xs"] = "200";
      if (kind == "crvr" && c(0.3)) a["nonce"] = "none";
      if (kind == "cpvr" && c(0.2)) a["nonce"] = "none";
      if (kind == "cget") { a["to"] = s({"reg", "masa"}); if (a["to"] != "masa") a["tls"] = id; a["m"] = "POST"; a["path"] = s({"/.well-known/brski/voucher_status", "/.well-known/brski/requestauditlog", "/.well-known/brski/enrollstatus"}); a.erase("xs"); if (clean) a["x"] = "r"; }
      if (c(0.15) && kind != "cget") { a["times"] = std::to_string(n(2, 4)); if (kind == "cenrol") {} }
      if (c(0.15)) a["holdms"] = std::to_string(n(10, 3000));
      if (kind == "cenrol" && c(0.2)) a["ev"] = s({"sn64", "longsn", "utf8", "san", "rsa"});
      if (c(0.15)) a["tlsv"] = s({"2", "3"});
      p.op(n(0, span), kind, a);
    }
  }
  // ---- malformed and unauthorised requests
  static const VS &forms() { static const VS f = {"two", "two", "twoorder", "twoorder", "nosig", "nosig", "data", "digest", "detached", "noattr", "keyid", "ndef", "etype", "sha512", "sha1"}; return f; }
  KV badpvr(bool bodytoo = true) {
    KV a; a["p"] = pl();
    switch (n(0, 13)) {
    case 13: a["cf"] = s(forms()); if (c(0.3)) a["cf2"] = s({"p1", "regcms", "rp0", "pexp"}); break;
    case 0: a["cms"] = s({"rp0", "evil", "selfp0", "underp0", "pexp", "pfut", "regcms", "masacms", "mfrca", "p0cms"}); break;
    case 1: a["ser"] = s({"none", "SN-9999", "SN-1000", "SN-1000X", "SN-100", "sn-1000", "X"}); break;
    case 2: a["asr"] = s({"none", "verified", "logged"}); break;
    case 3: a["prox"] = s({"none", "regtls2", "eviltls", "rregtls", "junk", "trunc", "longer", "domca", "regbtls"}); break;
    case 4: a["jm"] = c(0.4) ? "val" : s({"dupser", "dupprox", "numser", "unknown", "nested", "badtime", "badassert", "badb64", "emptynonce", "dupnonce", "expires", "drc", "drcbad", "bigser", "esc", "root", "rootprefix", "rootempty", "jtrunc", "jgarbage", "jempty", "jarr", "jnull", "jdeep", "jkeyonly", "jkeytrail", "jarrval", "jflat", "jtwo", "jws", "jbig", "jmany", "jmany"}); break;
    case 5: case 6: a["mut"] = s({"flip", "trunc", "append", "zero", "b64trunc", "b64junk", "b64pad", "b64pad3", "padonly", "pad1", "ws", "crlf", "empty", "nul", "nulhead", "garbage", "derraw", "huge"}); break;
    case 7: a["id"] = pl(); a["tls"] = pl(); break; // another pledge's request over one's own TLS certificate
    case 8: a["tls"] = s({"none", "pnosn", "pexp", "pfut", "selfp0", "evil", "ppre", "rp0", "pi0", "underp0", "pshort"}); break;
    case 9: a["nocerts"] = "1"; break;
    case 10: a["id"] = s({"pi0", "pi1", "ppre", "pnosn", "pexp", "pshort"}); a["tls"] = a["id"]; if (c(0.5)) a["add"] = "mfrint"; break;
    case 11: a["crt"] = "0"; a["nonce"] = s({"none", "x", "auto"}); break;
    case 12: a["tls"] = s({"p0cms", "p0", "ppre"}); a["id"] = s({"p0", "ppre"}); break;
    }
    return a;
  }
  KV badrvr() {
    KV a; a["p"] = pl();
    switch (n(0, 11)) {
    case 10: a["cf"] = s(forms()); if (c(0.3)) a["cf2"] = s({"regbcms", "p1", "rregcms", "regcmsexp"}); break;
    case 11: a["p_cf"] = s(forms()); if (c(0.3)) a["p_cf2"] = s({"p1", "regcms", "rp0", "pexp"}); break;
    case 0: a["cms"] = s({"rregcms", "evil", "regbcms", "regcmsexp", "p0", "masacms", "regcmsca", "regtls", "domca"}); break;
    case 1: a["ser"] = s({"none", "SN-9999", "SN-1037", "SN-1000X", "SN-100", "sn-1000"}); break;
    case 2: a["prior"] = s({"none", "junk", "empty", "self"}); break;
    case 3: a["jm"] = c(0.4) ? "val" : s({"dupser", "numser", "unknown", "nested", "badtime", "badb64", "emptynonce", "dupnonce", "expires", "drc", "drcbad", "bigser", "esc", "root", "rootprefix", "rootempty", "jtrunc", "jgarbage", "jempty", "jarr", "jnull", "jdeep", "jkeyonly", "jkeytrail", "jarrval", "jflat", "jtwo", "jws", "jbig", "jmany", "jmany"}); break;
    case 4: a["mut"] = s({"flip", "trunc", "append", "zero", "b64trunc", "b64junk", "b64pad", "b64pad3", "padonly", "pad1", "ws", "crlf", "empty", "nul", "nulhead", "garbage", "derraw", "huge"}); break;
    case 5: a["p_cms"] = s({"rp0", "evil", "selfp0", "underp0", "pexp", "pfut", "regcms", "p1"}); break;
    case 6: a["p_ser"] = s({"none", "SN-9999", "SN-1037", "SN-1000X", "sn-1000"}); break;
    case 7: a["p_jm"] = c(0.4) ? "val" : s({"dupser", "numser", "jempty", "jgarbage", "root", "jarr", "badb64", "jtrunc", "esc", "jkeyonly"}); break;
    case 8: a["p_mut"] = s({"flip", "trunc", "append", "zero"}); break;
    case 9: { static const char *q[] = {"nocerts", "p_nocerts"}; a[q[n(0, 1)]] = "1"; break; }
    }
    return a;
  }
  KV badtls() { KV a; a["tls"] = s({"none", "p0", "evil", "selfp0", "regtlsexp", "regtlsfut", "rregtls", "regbtls", "masatls", "domca", "regtls2", "pexp"}); return a; }
  // clients that come back with the TLS session of an earlier connection, the server's clock possibly moved or the server restarted in between
  void resume(int64_t t, double moved) {
    std::string to = s({"masa", "masa", "reg"}), id = to == "masa" ? s({"regtlsshort", "regtlsshort", "regtls"}) : s({"p0", "p1", "pshort", "none"});
    std::string v = s({"0", "2", "3"}), kind = to == "masa" ? s({"crvr", "cget"}) : s({"cpvr", "cget"}), key = "s" + std::to_string(t);
    for (int k = 0, m = (int)n(2, 3); k < m; k++) {
      KV a; a["to"] = to; a["p"] = "p0"; a["tls"] = k && c(0.15) ? s({"none", "evil"}) : id; a["sess"] = k && c(0.1) ? "other" : key; if (v != "0") a["tlsv"] = v;
      if (kind == "cget") { a["m"] = s({"GET", "POST"}); a["path"] = s({"/.well-known/brski/voucher_status", "/.well-known/est/cacerts", "/.well-known/brski/requestauditlog"}); }
      p.op(t, kind, a);
      t += n(400, 900);
      if (c(moved)) { p.fault(t, "clock", {{"host", to}, {"d", std::to_string((moved > 0.5 ? i({-4, -2, 2, 4, -900, 900, 4000}) : i({-4, -2, 2, 4})) * 86400)}}); t += 50; }
    }
  }
  void raw(int k, int64_t span) {
    for (int j = 0; j < k; j++) {
      KV a; a["to"] = s({"reg", "reg", "masa"});
      a["mode"] = s({"connect", "tcpidle", "tcpjunk", "tcphttp", "tcphello", "idle", "half", "halfhold", "noread", "badlen", "neglen", "biglen", "nolen", "chunk", "chunkbad", "chunkneg", "pipeline", "longuri", "longhdr", "manyhdr", "duphdr", "badline", "badver", "http10", "method", "path", "expect", "range", "multipart", "form", "gzip", "junk", "nulpath", "renego", "keep"});
      a["holdms"] = std::to_string(n(10, 8000));
      if (c(0.3)) a["path"] = s({"/.well-known/est/simpleenroll", "/.well-known/brski/voucher_status", "/nothing"});
      if (c(0.3)) a["end"] = "abort";
      if (a["to"] == "reg" && c(0.2)) a["tls"] = s({"none", "evil", "p3", "pnosn"});
      p.op(n(0, span), "raw", a);
    }
  }
  void bad(int k, int64_t span) {
    for (int j = 0; j < k; j++) {
      KV a; std::string kind;
      switch (n(0, 3)) {
      case 0: kind = "cpvr"; a = badpvr(); break;
      case 1: kind = "crvr"; a = badrvr(); break;
      case 2: kind = "cenrol"; a["p"] = pl(); a["ev"] = s({"ok", "ca", "nosn", "issued", "key", "inj"}); a["mut"] = s({"", "flip", "trunc", "append", "zero", "b64trunc", "b64junk", "b64pad", "padonly", "pad1", "ws", "empty", "nul", "garbage", "derraw", "huge"}); if (c(0.3)) a["tls"] = s({"pnosn", "none", "evil", "p3", "selfp0"}); break;
      case 3: kind = s({"cpvr", "crvr", "cenrol"}); a["p"] = pl(); a["lit"] = s({"=", "==", "===", "====", "A", "AA", "AAA", "AAAA", "A=", "A==", "A===", "AA=A", "AA==AA==", "%", "MIIB", "________", "AAAA====", "====AAAA", "QQ==", "Q", "=A==", "AA=", "AAAAA"}); break;
      }
      if (c(0.2)) a["end"] = "abort";
      if (c(0.15)) a["times"] = std::to_string(n(2, 4));
      if (c(0.15)) { a["dripms"] = std::to_string(i({1, 20, 200})); a["dripn"] = std::to_string(i({1, 50, 500})); if (a["dripn"] == "1") a["dripms"] = "1"; }
      p.op(n(0, span), kind, a);
    }
  }
  // ---- faults
  void connfaults(int k) {
    for (int j = 0; j < k; j++) {
      KV a; a["to"] = s({"reg", "masa"}); a["nth"] = std::to_string(n(0, 8)); a["dir"] = std::to_string(n(0, 1));
      a["after"] = std::to_string(i({0, 1, 100, (int)n(0, 2500), (int)n(0, 6000)}));
      a["act"] = s({"rst", "rst", "fin", "stall", "hole", "flip", "refuse", "timeout"});
      a["dur"] = std::to_string(i({100, 1500, 4500, 6000, 20000}));
      p.fault(0, "conn", a);
    }
  }
  void crashes(int k, int64_t span) {
    for (int j = 0; j < k; j++) {
      KV a; a["srv"] = s({"reg", "reg", "masa"}); a["down"] = std::to_string(n(1, 1500));
      if (c(0.4)) { a["n"] = std::to_string(i({10, 200, 3000, 20000, (int)n(1, 60000)})); p.fault(n(0, span), "bbkill", a); }
      else p.fault(n(0, span), s({"crash", "crash", "power"}), a);
    }
  }
  void misc(int k, int64_t span) {
    for (int j = 0; j < k; j++) {
      KV a;
      switch (n(0, 6)) {
      case 6: a["host"] = c(0.6) ? "h" + pl() : s({"reg", "masa"}); a["nth"] = std::to_string(c(0.5) ? n(0, 12) : n(0, 60)); a["count"] = std::to_string(i({1, 1, 2, 50})); p.fault(c(0.5) ? 0 : n(0, span), "rand", a); break;
      case 0: a["a"] = s({"reg", "reg", "masa"}); a["b"] = a["a"] == "reg" ? s({"masa", "h" + pl()}) : "reg"; a["dur"] = std::to_string(n(50, 7000)); p.fault(n(0, span), "part", a); break;
      case 1: a["srv"] = s({"reg", "masa"}); a["dur"] = std::to_string(i({50, 500, 3000, 7000})); p.fault(n(0, span), "pause", a); break;
      case 2: a["host"] = s({"reg", "masa"}); a["d"] = std::to_string(i({-86400, -3600, -5, 5, 3600, 86400})); p.fault(n(0, span), "clock", a); break;
      case 3: a["host"] = s({"reg", "masa"}); a["ms"] = std::to_string(i({5, 50, 400})); a["dur"] = std::to_string(n(200, 4000)); p.fault(n(0, span), "slow", a); break;
      case 4: a["srv"] = s({"reg", "masa"}); a["spare"] = std::to_string(n(0, 6)); a["dur"] = std::to_string(n(100, 4000)); p.fault(n(0, span), "fdlimit", a); break;
      case 5: a["srv"] = s({"reg", "masa"}); a["at"] = std::to_string(i({0, 5, (int)n(0, 200), (int)n(0, 2000)})); a["len"] = std::to_string(i({1, 1, 3, 50})); p.fault(n(0, span), "alloc", a); break;
      }
    }
  }
  VS server_files(const std::string &h) {
    if (h == "masa") return {"ldevid.crt", "/cms.crt", "/cms.key", "/vs0", "/pvs0"};
    return {"/tls.crt", "/tls.key", "/tlsca.crt", "/tlsca.key", "/cms.crt", "/cms.key", "/vs0"};
  }
  void filefaults(int k, int64_t span) {
    for (int j = 0; j < k; j++) {
      KV a; a["host"] = s({"reg", "masa"}); a["path"] = s(server_files(a["host"]));
      if (c(0.25)) { a["dur"] = std::to_string(n(50, 3000)); p.fault(n(0, span), "rmfile", a); continue; }
      a["op"] = s({"o", "o", "r", "s", "k", "x", "c"}); a["nth"] = std::to_string(n(0, 3)); a["count"] = std::to_string(i({1, 1, 2, 5, -1}));
      a["err"] = std::to_string(i({5, 13, 2, 24, 12})); a["arg"] = std::to_string(n(0, 4000)); a["kind"] = "io_" + a["op"];
      if (a["count"] == "-1") a["dur"] = std::to_string(n(100, 3000));
      p.fault(n(0, span), "file", a);
    }
  }
  void chainvars() { // topologies with intermediate and alternative certificates; the honest exchange still succeeds
    if (c(0.15)) { set("reg.cms", "regcms2"); set(c(0.5) ? "masa.vc" : "reg.add", "regcmsint"); }
    if (c(0.15)) { set("masa.cms", "masacms2"); if (c(0.5)) set("masa.add", "masaint"); else set("pl.vc", "masaint"); }
    if (c(0.15)) set("masa.pvs", "mfrca+evilca");
    if (c(0.15)) set("reg.vs", "dombca+mfrca");
    if (c(0.1)) set("masa.vs", "regcmsca+regbcmsca");
    if (c(0.1)) set("pl.vs", "masaca+evilca");
    if (c(0.1)) set("reg.vc", "mfrint");
    if (c(0.08) && !p.set.count("reg.cms")) set("reg.cms", "regcmsrsa");
    if (c(0.08) && !p.set.count("masa.cms")) set("masa.cms", "masacmsrsa");
    if (c(0.08)) set("reg.ca", s({"domint", "domrsaca", "dombig"}));
    if (c(0.05)) set("reg.tls", "regtlsrsa");
    else if (c(0.05)) { set("reg.tls", "regtlsbig"); set("masa.ldev", "dombig"); set("masa.clica", "dombig"); }
  }
  void ncpu() { if (c(0.3)) set("ncpu", s({"1", "2", "16"})); }
};
static const VS VBEH = {"ok", "ok", "swapser", "preser", "extser", "lcser", "swapnonce", "prenonce", "extnonce", "flipnonce", "tailnonce", "tailnonce", "pinb", "pinevil", "pinlook", "pinee", "pinother", "siglook", "sigevil", "sigreg", "sigpledge", "sigint", "sigintc", "sigexp", "emptynonce", "nononce", "addnonce", "logged", "pinjunk", "pinbad", "pintrunc", "pinempty", "nopin", "numser", "noser", "expired", "nocerts", "replay", "tamper",
  "c:two", "c:twoorder", "c:nosig", "c:data", "c:digest", "c:detached", "c:noattr", "c:keyid", "c:ndef", "c:etype", "c:sha512", "j:val", "j:val", "j:val", "j:dupser", "j:dupnonce", "j:unknown", "j:nested", "j:root", "j:rootprefix", "j:rootempty", "j:jtrunc", "j:jgarbage", "j:jempty", "j:jarr", "j:jnull", "j:jkeyonly", "j:jkeytrail", "j:jarrval", "j:jflat", "j:jtwo", "j:jmany", "j:jmany", "j:jws", "j:esc", "j:badb64", "j:badtime", "j:emptynonce",
  "m:flip", "m:flip", "m:flip", "m:trunc", "m:append", "m:zero", "m:b64trunc", "m:b64junk", "m:b64pad", "m:padonly", "m:pad1", "m:ws", "m:empty", "m:nul", "m:garbage", "m:derraw"};
static const VS HBEH = {"st400", "st403", "st404", "st500", "st502", "st503", "st204", "st301", "st302", "st304", "drop", "stall", "late", "slow", "rawgarbage", "halfhead", "biglen", "neglen", "badstatus", "nolen", "chunked", "half", "cont", "ok201", "empty200", "chunkcut", "chunkcut", "chunknoend", "e400", "e401", "e404", "e500", "e503"};

static void g_b01(Gen &g) {
  g.calm(); if (g.c(0.3)) { g.sched(); g.net(); }
  g.set("quiet", "0");
  int mode = (int)g.n(0, 5);
  auto behs = [&](int k, double http) { std::string b; for (int i = 0; i < k; i++) b += (i ? "," : "") + (g.c(http) ? g.s(HBEH) : g.s(VBEH)); return b; };
  if (mode == 0 || mode == 1) { // rogue or broken MASA behind a real registrar
    g.set("masa", "fake"); g.set("masa.beh", behs((int)g.n(1, 5), 0.15));
    g.pledges((int)g.n(1, 4), g.c(0.5) ? 50 : 4000, {"preq", "preq", "sign"});
  } else if (mode == 2) { // hostile registrar
    g.set("masa", "none"); g.set("reg", "fake"); g.set("reg.tls", g.s({"regtls", "regtls", "eviltls", "rregtls", "regtls2", "domca", "regtlsexp", "regbtls"}));
    g.set("reg.beh", behs((int)g.n(1, 5), 0.15)); g.set("reg.first", g.s({"400", "200", "404", "204"}));
    g.pledges((int)g.n(1, 4), 3000, {"preq", "preq", "sign"});
  } else if (mode == 3) { // man in the middle: later connections of the pledge reach an impostor
    g.set("evil", "1"); g.set("evil.tls", g.s({"eviltls", "rregtls", "regbtls", "regtls2"})); g.set("evil.beh", behs((int)g.n(1, 3), 0.1));
    if (g.c(0.4)) { g.set("masa", "fake"); g.set("masa.beh", behs(2, 0)); }
    g.pledges((int)g.n(1, 3), 2000, {"preq", "sign", "sign"});
    for (int k = 0; k < 2; k++) g.p.fault(0, "conn", {{"to", "reg"}, {"nth", std::to_string(g.n(0, 4))}, {"act", "route"}, {"arg", "evil"}});
    if (g.c(0.3)) g.set("reg.first", "400");
  } else if (mode == 4) { // the stand-alone verification command
    for (int k = (int)g.n(2, 6), i = 0; i < k; i++) {
      KV a; std::string b = g.s(VBEH); a["beh"] = b; a["rtls"] = g.s({"regtls", "regtls", "regtls", "regtls2", "eviltls", "rregtls", "regbtls", "domca"});
      if (g.c(0.2)) a["vs"] = g.s({"rmasaca", "masaca+evilca", "evilca", "none", "masacms"});
      if (g.c(0.2)) a["vc"] = g.s({"masaint", "masacms", "rmasaca"});
      if (g.c(0.25)) a["nonce"] = g.s({"none", "b:A===", "abc"});
      if (g.c(0.2)) a["ser"] = g.s({"none", "SN-1037", "SN-100"});
      if (g.c(0.2)) a["vser"] = g.s({"SN-1000", "SN-10001", "SN-1037"});
      if (g.c(0.3)) a["out"] = "0";
      bool good = (b == "ok") && a["rtls"] != "eviltls" && a["rtls"] != "rregtls" && a["rtls"] != "regbtls" && !a.count("ser") && !a.count("vser") && (!a.count("vs") || a["vs"] == "masaca+evilca") && (!a.count("nonce") || a["nonce"] != "b:A===");
      if (good) a["x"] = "1";
      g.cmd("vmasa", g.pl(), g.n(0, 500), a);
    }
    g.set("clean", "1");
  } else { // everything real, configuration and network varied
    g.chainvars(); g.set("clean", "1");
    KV a; a["x"] = "1";
    g.pledges((int)g.n(1, 4), 1000, {"preq", "sign"}, a);
    if (g.c(0.5)) { g.set("pl.vs", g.s({"rmasaca", "evilca", "mfrca"})); g.set("pl.vc", ""); for (auto &l : g.p.lines) l.a["x"] = "0"; }
    else if (g.c(0.4)) { g.set("masa.ldev", g.s({"dombca", "evilca", "rdomca", "regtls"})); for (auto &l : g.p.lines) l.a["x"] = g.p.set["masa.ldev"] == "regtls" ? "" : "0"; }
    else if (g.c(0.4)) { g.connfaults(2); g.set("clean", "0"); for (auto &l : g.p.lines) l.a.erase("x"); }
    for (auto &l : g.p.lines) if (l.get("x") == "") l.a.erase("x");
  }
}
static void g_b02(Gen &g) {
  g.sched(); g.net(); g.set("quiet", "0"); g.set("reg", "none"); g.set("clean", "1"); g.ncpu();
  if (g.c(0.3)) { g.set("masa.exp", g.s({"2031-05-06T07:08:09Z", "2027-01-15T23:59:59Z", "2040-02-29T00:00:00Z", "2028-12-31T12:30:01Z"})); }
  if (g.c(0.2)) g.set("masa.ldev", g.s({"dombca", "regtls"}));
  if (g.c(0.2)) g.set("masa.pvs", g.s({"mfrca+evilca", "dombca+mfrca"}));
  if (g.c(0.2)) { g.set("masa.vs", "regcmsca+regbcmsca"); }
  if (g.c(0.2)) { g.set("masa.cms", "masacms2"); g.set("masa.add", "masaint"); }
  int k = (int)g.n(4, 14);
  for (int i = 0; i < k; i++) {
    KV a = g.c(0.5) ? g.badrvr() : KV{{"p", g.pl()}};
    if (g.c(0.1)) { for (auto &e : g.badrvr()) a[e.first] = e.second; }
    if (g.c(0.2)) a["nonce"] = "none";
    if (g.c(0.15)) { a["p_id"] = g.s({"pi0", "pi1", "ppre", "p3"}); if (a["p_id"][1] == 'i' && g.c(0.7)) a["p_add"] = "mfrint"; }
    if (g.c(0.1)) a["cms"] = g.s({"regcms2", "regcms"}), a["add"] = "regcmsint";
    if (g.c(0.1)) a["times"] = std::to_string(g.n(2, 4));
    g.p.op(g.n(0, g.c(0.5) ? 5 : 800), "crvr", a);
  }
}
static void g_b03(Gen &g) {
  g.sched(); g.net(); g.set("quiet", "0"); g.ncpu();
  g.set("clean", "1");
  if (g.c(0.25)) { g.set("masa", "fake"); g.set("masa.beh", "ok"); }
  g.chainvars();
  if (g.c(0.15)) { g.set("regb", "node"); }
  int k = (int)g.n(3, 10);
  for (int i = 0; i < k; i++) {
    KV a = g.c(0.65) ? g.badpvr() : KV{{"p", g.pl()}};
    if (g.c(0.1)) for (auto &e : g.badpvr()) a[e.first] = e.second;
    if (g.c(0.2)) a["nonce"] = "none";
    if (g.c(0.1)) a["times"] = std::to_string(g.n(2, 3));
    if (g.c(0.15)) a["crt"] = "0";
    g.p.op(g.n(0, g.c(0.5) ? 5 : 800), "cpvr", a);
  }
  if (g.c(0.3)) g.pledges((int)g.n(1, 2), 500, {"preq", "sign"}, {{"x", "1"}});
}
static void g_b04(Gen &g) {
  g.sched(); g.net(); g.set("quiet", "0"); g.set("clean", "1"); g.ncpu();
  if (g.c(0.3)) g.chainvars();
  int64_t span = g.i({0, 3, 30, 300});
  int kind = (int)g.n(0, 3);
  if (kind == 0) g.pledges((int)g.n(2, 7), span, {"preq", "sign"}, {{"x", "1"}});
  else if (kind == 1) g.clients((int)g.n(4, 12), span, true);
  else if (kind == 2) { g.pledges((int)g.n(1, 4), span, {"preq", "sign", "sign"}, {{"x", "1"}}); g.clients((int)g.n(2, 6), span, true); }
  else { // two registrars of different domains? one MASA per domain: B refuses what A may do
    g.pledges((int)g.n(1, 3), span, {"preq", "sign"}, {{"x", "1"}});
    g.clients((int)g.n(1, 4), span, true);
    for (int i = (int)g.n(1, 4); i > 0; i--) { KV a = g.c(0.5) ? g.badpvr() : g.badrvr(); bool pv = a.count("prox") || a.count("asr"); g.p.op(g.n(0, span), pv || g.c(0.5) ? "cpvr" : "crvr", a); }
  }
}
static void g_b05(Gen &g) {
  g.sched(); g.net(); g.set("quiet", "0");
  int mode = (int)g.n(0, 4);
  auto behs = [&](int k) { std::string b; for (int i = 0; i < k; i++) b += (i ? "," : "") + (g.c(0.8) ? g.s(HBEH) : g.s(VBEH)); return b; };
  if (mode <= 1) { g.set("masa", "fake"); g.set("masa.beh", behs((int)g.n(1, 5))); }
  else if (mode == 2) { g.set("reg", "fake"); g.set("masa", "none"); bool en = g.c(0.4); if (en) { g.set("reg.beh", "ok," + g.s(HBEH)); g.set("reg.first", "400"); g.pledges(1, 0, {"sign"}); return; } g.set("reg.beh", behs((int)g.n(1, 4))); g.set("reg.first", g.s({"400", "400", "200", "drop", "stall", "500"})); }
  else if (mode == 3) { if (g.c(0.5)) { g.set("masa", "none"); g.set("masa.reach", "0"); } else g.set("masa.name", "no.such.name"), g.set("masa.reach", "0"); }
  else { // the real MASA refuses: it does not trust this registrar, or files are missing
    if (g.c(0.3)) g.set("masa.vs", g.s({"rregcmsca", "evilca"})); else if (g.c(0.3)) g.set("masa.pvs", g.s({"rmfrca", "evilca"})); else if (g.c(0.3)) g.set("masa.clica", g.s({"evilca", "dombca", "rdomca"}));
    else { KV a; a["host"] = "masa"; a["path"] = g.s(g.server_files("masa")); a["count"] = "-1"; a["op"] = g.s({"o", "x"}); a["kind"] = "io"; g.p.fault(0, "file", a); }
  }
  g.pledges((int)g.n(1, 3), g.i({0, 500, 6000}), {"preq", "preq", "sign"});
  if (mode != 2) g.clients((int)g.n(1, 5), 3000, false, "cpvr");
  if (g.c(0.5)) g.connfaults((int)g.n(1, 3));
  if (g.c(0.2)) g.crashes(1, 300);
  if (g.c(0.2)) g.misc(1, 300);
}
static void g_b06(Gen &g) {
  g.sched(); g.net(g.c(0.3)); g.ncpu();
  if (g.c(0.2)) { // the commands against hostile peers
    g.set("quiet", "0");
    if (g.c(0.5)) { g.set("masa", "none"); g.set("reg", "fake"); g.set("reg.tls", g.s({"regtls", "domca", "eviltls", "p0", "pnosn"})); std::string b; for (int i = 0; i < 4; i++) b += (i ? "," : "") + (g.c(0.4) ? g.s(HBEH) : g.s(VBEH)); g.set("reg.beh", b); g.set("reg.first", g.s({"400", "200", "drop", "500"})); g.pledges((int)g.n(1, 4), 1000, {"preq", "sign"}); }
    else for (int k = (int)g.n(2, 8); k > 0; k--) { KV a; a["beh"] = g.s(VBEH); if (g.c(0.3)) a["nonce"] = g.s({"none", "b:A===", "b:====", "b:A"}); if (g.c(0.1)) a["vs"] = "none"; if (g.c(0.1)) a["ser"] = "none"; if (g.c(0.3)) a["out"] = "0"; g.cmd("vmasa", g.pl(), g.n(0, 300), a); }
    return;
  }
  if (g.c(0.4)) g.set("quiet", "0");
  int64_t span = g.i({0, 50, 1500});
  g.set("clean", "1"); g.set("settle", "12");
  g.raw((int)g.n(0, 6), span);
  g.bad((int)g.n(2, 10), span);
  if (g.c(0.3)) { g.clients((int)g.n(1, 3), span, false); }
  if (g.c(0.15)) { g.connfaults((int)g.n(1, 4)); g.set("clean", "0"); }
  if (g.c(0.15)) g.set("masa", "fake"), g.set("masa.beh", g.s(HBEH) + "," + g.s(VBEH)), g.set("quiet", "0"), g.set("clean", "0");
}
static void g_b07(Gen &g) {
  g.sched(); g.net(); g.ncpu();
  int64_t span = g.i({100, 1500, 5000});
  g.set("tornok", "1");
  if (g.c(0.7)) g.pledges((int)g.n(1, 4), span, {"preq", "sign"});
  if (g.c(0.6)) g.clients((int)g.n(1, 6), span, false);
  if (g.c(0.3)) g.raw((int)g.n(1, 10), span);
  if (g.c(0.3)) g.bad((int)g.n(1, 6), span);
  if (g.c(0.5)) g.connfaults((int)g.n(1, 5));
  if (g.c(0.4)) g.crashes((int)g.n(1, 3), span);
  if (g.c(0.5)) g.misc((int)g.n(1, 4), span);
  if (g.c(0.3)) g.filefaults((int)g.n(1, 3), span);
  if (g.c(0.15)) for (int i = 0; i < 16; i++) g.p.op(g.n(0, 100), "raw", {{"to", g.s({"reg", "masa"})}, {"mode", g.s({"idle", "tcpidle", "halfhold", "tcphello", "noread"})}, {"holdms", std::to_string(g.n(1000, 20000))}});
  else if (g.c(0.2)) { // clients that go silent and never come back, at least as many as a server has workers
    std::string to = g.s({"reg", "reg", "masa"}), mode = g.s({"", "tcphello", "tcpidle", "idle", "noread"});
    int k = (int)g.i({12, 20, 30});
    g.set("settle", "45");
    for (int i = 0; i < k; i++) g.p.op(g.n(0, 300), "raw", {{"to", to}, {"mode", mode != "" ? mode : g.s({"idle", "tcpidle", "halfhold", "tcphello", "noread"})}, {"holdms", "3600000"}, {"bg", "1"}});
  }
}
static void g_b08(Gen &g) {
  g.sched(); g.net(); g.set("quiet", "0"); g.ncpu();
  int mode = (int)g.n(0, 3);
  if (mode == 0) { g.set("clean", "1"); g.chainvars(); g.pledges((int)g.n(1, 5), g.i({0, 30, 1000}), {"sign"}, {{"x", "1"}}); g.clients((int)g.n(0, 5), 500, true, "cenrol"); }
  else if (mode == 1) { // strange enrolment replies
    g.set("masa", "none"); g.set("reg", "fake"); std::string b; for (int i = 0; i < 4; i++) b += (i ? "," : "") + (g.c(0.4) ? std::string("ok") : g.c(0.5) ? g.s(HBEH) : g.s({"m:flip", "m:trunc", "m:garbage", "m:zero", "m:b64trunc", "m:empty", "m:append", "m:derraw"})); g.set("reg.beh", b); g.pledges((int)g.n(1, 3), 1000, {"sign"}); }
  else if (mode == 2) { g.set("clean", "1"); if (g.c(0.4)) g.set("reg.ca", g.s({"domint", "domint", "domrsaca", "dombig"})); for (int i = (int)g.n(3, 9); i > 0; i--) { KV a; a["p"] = g.pl(); a["ev"] = g.s({"ok", "ok", "ca", "nosn", "issued", "key", "inj"}); a["mut"] = g.c(0.6) ? "" : g.s({"flip", "trunc", "append", "b64trunc", "b64junk", "b64pad", "ws", "empty", "garbage"}); if (g.c(0.2)) a["times"] = "2"; g.p.op(g.n(0, 300), "cenrol", a); } }
  else { g.set("tornok", "1"); g.pledges((int)g.n(1, 4), 1000, {"sign"}); if (g.c(0.6)) g.crashes((int)g.n(1, 2), 800); if (g.c(0.6)) g.connfaults((int)g.n(1, 4)); if (g.c(0.6)) g.misc((int)g.n(1, 3), 800); if (g.c(0.3)) g.filefaults(1, 800); }
}
static void g_b09(Gen &g) {
  g.calm(); if (g.c(0.4)) { g.sched(); g.net(); }
  g.set("quiet", "0");
  int mode = (int)g.n(0, 3);
  if (mode == 0) { // the connection for the enrolment reaches someone else
    g.set("evil", "1"); g.set("evil.tls", g.s({"eviltls", "rregtls", "regbtls", "selfp0", "regtls2"})); g.set("evil.beh", "ok");
    int k = (int)g.n(1, 3);
    g.pledges(k, 1000, {"sign"});
    for (int j = 0; j < k; j++) for (auto &l : g.p.lines) if (l.t == 'o' && g.c(0.8)) { g.p.fault(0, "conn", {{"to", "reg"}, {"from", "h" + l.get("p")}, {"nth", std::to_string(g.i({2, 2, 2, 0, 1}))}, {"act", "route"}, {"arg", "evil"}}); break; }
  } else if (mode == 1) { // restart under another identity between voucher and enrolment
    g.set("masa", "fake"); g.set("masa.beh", g.s({"ok", "pinb", "pinevil", "pinlook", "pinee", "pinother", "ok,pinb"}));
    g.pledges((int)g.n(1, 3), 1000, {"sign"});
  } else if (mode == 2) {
    g.set("masa", "none"); g.set("reg", "fake"); g.set("reg.tls", g.s({"regtls", "eviltls", "rregtls", "regtlsexp", "regtlsfut", "domca"}));
    g.set("reg.beh", g.s(VBEH) + "," + g.s(VBEH)); g.pledges((int)g.n(1, 3), 1000, {"sign"});
  } else { g.set("verbose", g.c(0.5) ? "1" : "0"); g.pledges((int)g.n(1, 3), 300, {"sign"}, {{"x", "1"}}); g.set("clean", "1"); }
}
static void g_b10(Gen &g) {
  g.sched(); g.net(); g.ncpu(); g.set("quiet", "0");
  if (g.c(0.4)) g.set("auditpre", std::to_string(g.i({1, 1, 1, 40, 3000, 50000})));
  int64_t span = g.i({0, 5, 200, 2000});
  bool faulty = g.c(0.5);
  if (!faulty) g.set("clean", "1");
  g.clients((int)g.n(2, 12), span, !faulty, "cenrol");
  if (g.c(0.3)) g.pledges((int)g.n(1, 3), span, {"sign"});
  if (g.c(0.3)) for (int i = (int)g.n(1, 4); i > 0; i--) { KV a; a["p"] = g.pl(); a["ev"] = g.s({"issued", "key", "nosn", "ok", "inj", "inj", "sn64", "longsn", "utf8"}); a["mut"] = g.s({"", "flip", "trunc", "b64trunc", "garbage", "empty"}); if (g.c(0.3)) a["tls"] = g.s({"pnosn", "p3", "evil"}); g.p.op(g.n(0, span), "cenrol", a); }
  if (g.c(0.2)) g.set("regb", "node");
  if (faulty) {
    if (g.c(0.5)) g.crashes((int)g.n(1, 3), span + 100);
    if (g.c(0.4)) g.connfaults((int)g.n(1, 3));
    if (g.c(0.3)) g.filefaults(1, span);
    if (g.c(0.3)) { KV a; a["host"] = "reg"; a["path"] = "/var/log"; a["op"] = g.s({"o", "c", "w"}); a["nth"] = std::to_string(g.n(0, 3)); a["count"] = std::to_string(g.i({1, 2, -1})); a["err"] = std::to_string(g.i({5, 13, 28, 24})); a["kind"] = "log_" + a["op"]; g.p.fault(-1, "file", a); if (g.c(0.4)) g.p.fault(0, "slow", {{"host", "reg"}, {"ms", std::to_string(g.i({1, 5, 50, 400}))}, {"dur", "3000"}}); g.set("tornok", "1"); }
    if (g.c(0.3)) g.misc(1, span);
    if (g.c(0.2)) { KV a{{"host", "reg"}, {"free", std::to_string(g.n(0, 300))}}; if (g.c(0.6)) a["dur"] = std::to_string(g.i({1, 50, 500})); g.p.fault(g.n(0, span), "diskfull", a); g.set("tornok", "1"); }
  } else if (g.c(0.4)) g.p.fault(0, "slow", {{"host", "reg"}, {"ms", std::to_string(g.i({5, 50, 400}))}, {"dur", "3000"}});
}
static void g_b11(Gen &g) {
  g.calm(); g.set("leak", "1"); g.set("account", "1");
  if (g.c(0.3)) g.net();
  int k = (int)g.n(0, 2);
  for (int i = 0; i < k; i++) switch (g.n(0, 4)) {
    case 0: g.clients(1, 0, false); break;
    case 1: g.bad(1, 0); break;
    case 2: g.raw(1, 0); break;
    case 3: { g.clients(1, 0, false, g.s({"cpvr", "crvr", "cenrol"})); Line &l = g.p.lines.back(); g.p.fault(0, "conn", {{"to", l.kind == "crvr" ? "masa" : "reg"}, {"from", "c" + std::to_string(l.id)}, {"nth", "*"}, {"dir", std::to_string(g.n(0, 1))}, {"after", std::to_string(g.n(0, 4000))}, {"act", g.s({"rst", "fin"})}}); break; }
    case 4: g.clients(1, 0, false, "cpvr"); break;
    }
  { // every way to be refused in turn, so that a number of consecutive seeds passes all of them
    struct Way { const char *kind; KV a; };
    static const std::vector<Way> ways = {
        {"cpvr", {{"ser", "none"}}}, {"cpvr", {{"ser", "SN-9999"}}}, {"cpvr", {{"asr", "none"}}}, {"cpvr", {{"asr", "verified"}}}, {"cpvr", {{"prox", "none"}}}, {"cpvr", {{"prox", "regtls2"}}}, {"cpvr", {{"prox", "junk"}}},
        {"cpvr", {{"cms", "rp0"}}}, {"cpvr", {{"cms", "evil"}}}, {"cpvr", {{"nocerts", "1"}}}, {"cpvr", {{"crt", "0"}}}, {"cpvr", {{"mut", "b64pad"}}}, {"cpvr", {{"mut", "trunc"}}}, {"cpvr", {{"mut", "flip"}}}, {"cpvr", {{"mut", "empty"}}},
        {"cpvr", {{"jm", "jgarbage"}}}, {"cpvr", {{"jm", "badtime"}}}, {"cpvr", {{"jm", "badassert"}}}, {"cpvr", {{"jm", "badb64"}}}, {"cpvr", {{"jm", "jempty"}}}, {"cpvr", {{"cf", "two"}}}, {"cpvr", {{"cf", "nosig"}}}, {"cpvr", {{"cf", "data"}}},
        {"cpvr", {{"jm", "root"}}}, {"cpvr", {{"jm", "rootprefix"}}}, {"cpvr", {{"jm", "rootempty"}}}, {"cpvr", {{"jm", "jarr"}}}, {"cpvr", {{"jm", "jnull"}}}, {"cpvr", {{"jm", "jkeyonly"}}}, {"cpvr", {{"jm", "jdeep"}}}, {"cpvr", {{"jm", "numser"}}}, {"crvr", {{"jm", "rootempty"}}}, {"crvr", {{"p_jm", "rootempty"}}},
        {"cpvr", {{"tls", "none"}}}, {"cpvr", {{"tls", "pnosn"}, {"id", "pnosn"}}}, {"cpvr", {{"lit", "A==="}}}, {"cpvr", {{"nonce", "none"}}},
        {"crvr", {{"ser", "none"}}}, {"crvr", {{"ser", "SN-9999"}}}, {"crvr", {{"prior", "none"}}}, {"crvr", {{"prior", "junk"}}}, {"crvr", {{"prior", "empty"}}}, {"crvr", {{"prior", "self"}}}, {"crvr", {{"cms", "rregcms"}}}, {"crvr", {{"nocerts", "1"}}},
        {"crvr", {{"p_cms", "rp0"}}}, {"crvr", {{"p_ser", "none"}}}, {"crvr", {{"p_ser", "SN-9999"}}}, {"crvr", {{"p_jm", "jgarbage"}}}, {"crvr", {{"p_mut", "flip"}}}, {"crvr", {{"p_nocerts", "1"}}}, {"crvr", {{"mut", "b64pad"}}}, {"crvr", {{"jm", "badtime"}}}, {"crvr", {{"jm", "jempty"}}}, {"crvr", {{"lit", "A=="}}}, {"crvr", {{"nonce", "none"}}},
        {"cenrol", {{"ev", "ca"}}}, {"cenrol", {{"ev", "nosn"}}}, {"cenrol", {{"ev", "issued"}}}, {"cenrol", {{"ev", "key"}}}, {"cenrol", {{"ev", "inj"}}}, {"cenrol", {{"mut", "b64pad"}}}, {"cenrol", {{"mut", "trunc"}}}, {"cenrol", {{"mut", "garbage"}}}, {"cenrol", {{"mut", "empty"}}}, {"cenrol", {{"tls", "pnosn"}}}, {"cenrol", {{"tls", "p3"}}}, {"cenrol", {{"lit", "==="}}}};
    const Way &w = ways[g.p.seed % ways.size()]; KV a = w.a; a["p"] = g.pl(); g.p.op(0, w.kind, a);
  }
  double what = (double)g.n(0, 999) / 1000;
  if (what < 0.4) { // the registrar's connections to the MASA fail in some way
    g.clients(1, 0, false, "cpvr");
    if (what < 0.25) { g.set("masa", what < 0.03 ? "none" : "fake"); g.set("masa.beh", g.c(0.8) ? g.s(HBEH) : g.s(VBEH)); }
    else g.p.fault(0, "conn", {{"to", "masa"}, {"from", "reg"}, {"nth", g.s({"*", "*", "0", "3"})}, {"dir", std::to_string(g.n(0, 1))}, {"after", std::to_string(g.c(0.3) ? 0 : g.n(0, 6000))}, {"act", g.s({"rst", "fin", "refuse", "flip"})}});
  }
  for (auto &l : g.p.lines) if (l.t == 'o') { l.a.erase("holdms"); if (l.num("holdms") > 3000) l.a["holdms"] = "500"; }
  if (g.c(0.25)) { std::string h = g.s({"reg", "masa"}); g.p.fault(0, "file", {{"host", h}, {"path", g.s(g.server_files(h))}, {"op", g.s({"o", "x", "s", "k"})}, {"count", "-1"}, {"arg", std::to_string(g.n(0, 900))}, {"kind", "io"}}); }
  if (g.c(0.2)) g.set("verbose", "1");
}
static void g_b12(Gen &g) {
  g.sched(); if (g.c(0.5)) g.net();
  int mode = (int)g.n(0, 2);
  if (mode <= 1) { // servers
    int64_t span = g.i({20, 300, 1500});
    g.filefaults((int)g.n(1, 4), span);
    g.clients((int)g.n(2, 8), span, false);
    if (g.c(0.3)) g.pledges((int)g.n(1, 2), span, {"preq", "sign"});
    if (g.c(0.15)) for (auto &l : g.p.lines) if (l.t == 'f' && l.kind == "file" && l.get("count") != "-1") l.ms = -1;
  } else { // commands
    g.set("quiet", "0");
    for (int k = (int)g.n(1, 3); k > 0; k--) {
      std::string kind = g.s({"preq", "sign", "epvr", "vmasa", "serial", "preq"}), pid = "p" + std::to_string(k);
      KV a; a["beh"] = "ok"; if (g.c(0.3)) a["out"] = "0"; if (g.c(0.2)) a["vc"] = "masaint"; if (g.c(0.2)) a["add"] = "mfrint";
      g.cmd(kind, pid, g.n(0, 50), a);
      if (g.c(0.85)) {
        KV f; f["host"] = "h" + pid; f["path"] = g.s({"config.ini", "idev.crt", "idev.key", "cms.crt", "cms.key", "vs0", "vc0", "add0", "regtls.crt"});
        f["op"] = g.s({"o", "o", "r", "s", "k", "x"}); f["nth"] = f["path"] == "config.ini" ? "0" : std::to_string(g.n(0, 2)); f["count"] = f["path"] == "config.ini" ? "-1" : std::to_string(g.i({1, -1})); f["err"] = std::to_string(g.i({5, 13, 2, 24})); f["arg"] = std::to_string(g.n(0, 3000)); f["kind"] = "io_" + f["op"];
        g.p.fault(-1, "file", f);
      }
    }
  }
}
static void g_b13(Gen &g) {
  g.calm(); g.set("quiet", "0");
  for (int k = (int)g.n(1, 3); k > 0; k--) {
    std::string kind = g.s({"preq", "sign", "sign", "epvr", "vmasa"}), pid = "p" + std::to_string(k);
    KV a; a["beh"] = "ok"; if (g.c(0.15)) a["nonce"] = "none";
    bool so = g.c(0.15);
    if (so) { a["out"] = "0"; if (g.c(0.8)) a["sout"] = std::to_string(g.c(0.3) ? g.n(0, 20) : g.n(0, 3000)); if (g.c(0.3)) kind = "serial"; }
    else {
      if (g.c(0.15)) a["olen"] = std::to_string(g.c(0.7) ? g.n(244, 262) : g.n(300, 1500));
      if (g.c(0.2)) a["pre"] = g.s({"domca", "regtls", "mfrca"});
    }
    g.cmd(kind, pid, g.n(0, 50), a);
    int f = (int)g.n(0, 3);
    if (f == 0 || so) continue;
    std::string h = "h" + pid;
    if (f == 1) g.p.fault(g.n(0, 60), "diskfull", {{"host", h}, {"free", std::to_string(g.n(0, 3500))}});
    else { KV b; b["host"] = h; b["path"] = g.s({"/out/", ".crt", ".key", ".smime"}); if (b["path"] != "/out/") b["path"] = "/out/op" + std::to_string(g.p.lines.back().id) + b["path"]; b["op"] = g.s({"o", "w", "c", "w", "c"}); b["nth"] = std::to_string(g.i({0, 0, 1, 2})); b["count"] = std::to_string(g.i({1, -1})); b["err"] = std::to_string(g.i({5, 28, 13, 122})); b["kind"] = "out_" + b["op"]; b["arg"] = std::to_string(g.n(0, 2000)); g.p.fault(-1, "file", b); }
  }
  if (g.c(0.3)) g.p.k.shortio = 400;
  for (auto &l : g.p.lines) if (l.t == 'f' && l.kind == "diskfull") l.ms = std::max<int64_t>(l.ms, 0);
}
static void g_b14(Gen &g) {
  g.set("reg", "none"); g.set("masa", "none"); g.set("quiet", "0"); g.set("account", "1");
  int k = (int)g.n(1, 2);
  for (int i = 0; i < k; i++) {
    KV a; a["fn"] = std::to_string(g.c(0.06) ? g.n(10, 11) : g.n(0, 9)); a["p"] = g.pl();
    a["from"] = std::to_string(g.c(0.5) ? g.n(0, 60) : g.n(0, 500)); a["cnt"] = g.c(0.5) ? "12" : "5"; a["len"] = std::to_string(g.i({1, 1, 1, 2, 1000000}));
    a["step"] = std::to_string(g.i({1, 1, 3, 17}));
    if (g.c(0.3)) a["nonce"] = "none";
    if (g.c(0.3)) a["add"] = "mfrint+mfrca";
    if (g.c(0.3)) a["vc"] = "mfrint+regcmsint+masaint";
    if (g.c(0.2)) a["bad"] = "1";
    if (g.c(0.2)) a["jsn"] = "1";
    g.p.op(0, "lib", a);
  }
}
static void g_b15(Gen &g) {
  g.sched(); g.net(); g.set("quiet", "0"); g.set("verbose", g.c(0.8) ? "1" : "0"); g.set("clean", "1"); g.ncpu();
  if (g.c(0.6)) g.p.k.budget = g.i({400, 150, 1500});
  int64_t span = g.i({0, 0, 10, 300});
  g.clients((int)g.n(3, 8), span, false);
  g.bad((int)g.n(0, 4), span);
  if (g.c(0.3)) g.pledges((int)g.n(1, 3), span, {"preq", "sign", "epvr"}, {{"v", g.p.s("verbose")}});
  if (g.c(0.3)) { g.set("tz.reg", std::to_string(g.i({3600, -18000, 20700}))); }
  if (g.c(0.2)) { g.crashes(1, 100); g.set("clean", "0"); g.set("tornok", "1"); }
}
static void g_b16(Gen &g) {
  g.calm(); if (g.c(0.4)) g.net();
  g.set("quiet", "0");
  int k = (int)g.n(2, 6);
  bool same = g.c(0.5);
  g.pledges(k, same ? g.i({0, 50, 400}) : 5000, {"sign"});
  for (int i = 0; i < 7; i++) if (g.c(0.4)) g.set("clk.hp" + std::to_string(i), std::to_string(g.i({0, -1, -2, 1, -3600, 5, 3600})));
  if (g.c(0.3)) g.crashes(1, 500), g.set("tornok", "1");
  if (g.c(0.3)) for (int i = (int)g.n(1, 3); i > 0; i--) g.p.fault(0, "rand", {{"host", g.c(0.9) ? "h" + g.pl() : "reg"}, {"nth", std::to_string(g.c(0.5) ? g.n(0, 12) : g.n(0, 60))}, {"count", std::to_string(g.i({1, 1, 2, 50}))}});
  else if (g.c(0.2)) { std::string nth = std::to_string(g.n(0, 5)); for (int i = 0; i < 8; i++) g.p.fault(0, "rand", {{"host", "hp" + std::to_string(i)}, {"nth", nth}, {"count", "1"}}); } // the same draw fails everywhere
  if (g.c(0.4)) { auto lines = g.p.lines; for (auto &l : lines) if (l.t == 'o' && g.c(0.5)) g.cmd("sign", l.get("p"), l.ms + g.i({0, 300, 1000, 2500})); }
  if (g.c(0.3)) g.p.fault(g.n(100, 1500), "clock", {{"host", "h" + g.pl()}, {"d", std::to_string(g.i({-1, -2, -3, -60}))}});
}
static void g_b17(Gen &g) {
  g.sched(); g.net(); g.set("quiet", "0"); g.set("clean", "1");
  for (auto *h : {"reg", "masa"}) { if (g.c(0.7)) g.set(std::string("tz.") + h, std::to_string(g.i({0, 3600, -18000, 20700, 50400, -43200}))); if (g.c(0.3)) g.set(std::string("clk.") + h, std::to_string(g.i({-5, 5, 86400, -86400, 3600, 7777777, -14 * 86400}))); }
  int64_t span = g.i({0, 10, 1000, 5000});
  g.pledges((int)g.n(1, 4), span, {"preq", "sign", "epvr", "epvr"});
  for (auto &l : g.p.lines) { if (g.c(0.2)) l.a["created"] = g.s({"2026-11-19T20:06:55Z", "2027-02-28T23:59:59Z", "2024-02-29T12:00:00Z", "2030-12-31T00:00:00Z", "2027-01-01T12:30:00Z"}); g.set("tz.h" + l.get("p"), std::to_string(g.i({0, 3600, -18000, 20700, 50400}))); if (g.c(0.2)) g.set("clk.h" + l.get("p"), std::to_string(g.i({-60, 60, 86400, -14 * 86400}))); if (g.c(0.06)) { l.a["created"] = g.s({"2026-11-19T20:06:55+02:00", "2026-11-19T20:06:55-05:30", "2026-12-31T20:06:55-08:00"}); l.a.erase("x"); } }
  g.clients((int)g.n(1, 5), span, true, g.s({"cpvr", "cenrol"}));
  if (g.c(0.3)) g.p.fault(g.n(0, span), "clock", {{"host", "reg"}, {"d", std::to_string(g.i({-3600, 3600, 60, -60}))}});
  if (g.c(0.3)) g.p.fault(g.n(0, span), "tz", {{"host", "reg"}, {"off", std::to_string(g.i({0, 3600, 7200, -3600}))}});
  if (g.c(0.3)) g.p.fault(0, "slow", {{"host", "reg"}, {"ms", std::to_string(g.i({50, 900}))}, {"dur", "4000"}});
  if (g.c(0.2)) g.set("masa.exp", g.s({"2030-12-31T23:59:59Z", "2029-12-31T00:00:00Z", "2028-01-01T13:00:00Z", "2036-12-30T12:00:00Z"}));
  else if (g.c(0.05)) { g.set("masa.exp", g.s({"2031-05-06T07:08:09+02:00", "2031-05-06T07:08:09-05:00"})); g.set("clean", "0"); for (auto &l : g.p.lines) { l.a.erase("x"); l.a.erase("xs"); } }
}
static void g_b18(Gen &g) {
  g.sched(); g.net(); g.set("quiet", "0"); g.set("clean", "1");
  int64_t span = g.i({0, 20, 500});
  if (g.c(0.2)) g.set("masa.clica", g.s({"domca", "rdomca", "dombca"}));
  for (int k = (int)g.n(2, 8); k > 0; k--) {
    KV a = g.badtls(); a["to"] = g.s({"masa", "masa", "reg"}); a["p"] = g.pl();
    std::string kind = a["to"] == "masa" ? g.s({"crvr", "cget", "raw"}) : g.s({"cpvr", "cenrol", "cget", "raw"});
    if (kind == "cget") { a["m"] = g.s({"GET", "POST"}); a["path"] = g.s({"/.well-known/brski/voucher_status", "/", "/.well-known/est/cacerts", "/.well-known/brski/requestauditlog"}); }
    if (kind == "raw") { a["mode"] = g.s({"nolen", "badline", "keep", "method", "path", "pipeline", "tcphttp"}); }
    if (g.c(0.3)) a["chain"] = g.s({"domca", "evilca", "dombca", "mfrca"});
    if (g.c(0.3)) a["tlsv"] = g.s({"2", "3"});
    g.p.op(g.n(0, span), kind, a);
  }
  if (g.c(0.3)) g.resume(span + 6000, 0.5);
  if (g.p.s("masa.clica", "domca") == "domca") g.clients((int)g.n(1, 3), span, true, g.s({"crvr", "cpvr"}));
  if (g.c(0.3)) { g.set("clk.masa", std::to_string(g.i({-200, 200, -400, 4000}) * 86400)); for (auto &l : g.p.lines) { l.a.erase("xs"); l.a.erase("x"); } g.set("clean", "0"); }
}
static void g_b19(Gen &g) {
  g.calm(); if (g.c(0.4)) g.sched();
  g.set("quiet", "0"); g.set("clean", "1");
  // certificates with narrow windows around the epoch; clocks are moved across their limits between requests
  VS ids = {"pshort", "pshort", "pfut", "pexp", "p0"};
  std::vector<int> d = {-3, -2, 2, 3, 0, -800, 4000};
  if (g.c(0.5)) g.set("clk.reg", std::to_string(g.i(d) * 86400));
  if (g.c(0.5)) g.set("clk.masa", std::to_string(g.i(d) * 86400));
  int t = 0;
  for (int k = (int)g.n(3, 7); k > 0; k--) {
    std::string id = g.s(ids);
    if (g.c(0.6)) g.p.op(t, "cpvr", {{"p", id}, {"tls", id}});
    else g.p.op(t, "crvr", {{"p", id}, {"cms", g.s({"regcms", "regcms", "regcmsexp"})}});
    t += (int)g.n(300, 900);
    if (g.c(0.7)) { g.p.fault(t, "clock", {{"host", g.s({"reg", "masa"})}, {"d", std::to_string(g.i({-4, -2, -1, 1, 2, 4, -900, 900, 4000}) * 86400)}}); t += 50; }
  }
  if (g.c(0.3)) g.resume(t, 0.9);
  if (g.c(0.4)) { // the pledge side
    g.set("masa.cms", g.s({"masacms", "masacmsexp"}));
    std::string pid = g.pl();
    g.set("clk.h" + pid, std::to_string(g.i({0, -100, -600, 5000}) * 86400));
    KV a; g.cmd(g.s({"preq", "sign"}), pid, g.n(0, t), a);
  }
  if (g.c(0.3)) { KV a; a["beh"] = g.s({"ok", "sigexp"}); std::string pid = g.pl(); g.set("clk.h" + pid, std::to_string(g.i({0, -100, -600, 5000}) * 86400)); g.cmd("vmasa", pid, 100, a); }
}
static void g_b20(Gen &g) {
  g.calm(); if (g.c(0.3)) g.sched();
  g.set("quiet", "1"); g.set("nowait", "1"); g.set("settle", "1");
  std::string n = g.s({"reg", "masa"});
  g.set("verbose", g.c(0.3) ? "1" : "0");
  if (g.c(0.15)) g.set(n + ".occupied", "1");
  else if (g.c(0.75)) g.set(n + ".cfgmut", n == "masa" ? g.s({"nocert", "nokey", "missingcert", "missingkey", "badcert", "badkey", "wrongkey", "badaddr", "badname", "noconfig", "emptyaddr", "missingca", "badca", "nofile", "portzero", "porttext", "portbig", "portneg", "noport"})
                                                         : g.s({"nocert", "nokey", "missingcert", "missingkey", "badcert", "badkey", "wrongkey", "badaddr", "badname", "noconfig", "emptyaddr", "nofile", "portzero", "porttext", "portbig", "portneg", "noport"}));
  else { KV a; a["host"] = n; a["path"] = g.s({"config.ini", "/tls.crt", "/tls.key", "clica.crt"}); a["op"] = g.s({"o", "r", "s", "x", "k"}); a["nth"] = a["path"] == "config.ini" ? "0" : std::to_string(g.n(0, 1)); a["count"] = "-1"; a["arg"] = std::to_string(g.n(0, 2000)); a["kind"] = "start"; a["dur"] = "100000000"; g.p.fault(-1, "file", a); g.set("startfault", "1"); }
  g.set("qskip", "1");
  if (g.c(0.3)) g.p.op(g.n(0, 100), "raw", {{"to", n}, {"mode", g.s({"connect", "tcphttp", "tcpjunk"})}});
}
static void g_b21(Gen &g) {
  g.net(true); g.p.k.yieldpm = g.i({50, 200, 500}); g.set("quiet", "0"); g.set("pair", "1"); g.set("clean", "1");
  g.p.k.budget = g.i({0, 30000});
  int64_t span = g.i({0, 200, 2000});
  // one conversation at a time per client; different clients may overlap
  g.clients((int)g.n(0, 3), span, false);
  for (int i = (int)g.n(0, 3); i > 0; i--) { KV a = g.c(0.5) ? g.badpvr() : g.badrvr(); std::string k = a.count("p_cms") || a.count("prior") || a.count("p_ser") || a.count("p_jm") || a.count("p_mut") ? "crvr" : "cpvr"; if (k == "cpvr" && a.count("mut") && a["mut"] == "huge" && g.p.k.maxseg < 100) continue; if (a.count("jm") && (a["jm"] == "jbig" || a["jm"] == "bigser" ) && g.p.k.maxseg < 60) continue; g.p.op(g.n(0, span), k, a); }
  g.pledges((int)g.n(0, 2), span, {"preq", "sign"}, {{"x", "1"}});
  if (g.c(0.4)) for (auto &l : g.p.lines) if (l.kind != "preq" && l.kind != "sign" && g.c(0.5)) { l.a["dripn"] = std::to_string(g.i({1, 10, 300})); l.a["dripms"] = l.a["dripn"] == "1" ? "1" : std::to_string(g.i({1, 30})); }
  for (auto &l : g.p.lines) l.a.erase("holdms");
  if (g.p.lines.empty()) g.clients(2, span, true);
}
Plan gen_plan(const std::string &prop, uint64_t seed, const std::string &tier) {
  Gen g;
  g.deep = tier == "thorough";
  uint64_t h = 1469598103934665603ull; for (char c : prop) h = (h ^ (unsigned char)c) * 1099511628211ull;
  g.r.seed(seed * 1000003 + h % 1000003);
  g.p.prop = prop; g.p.seed = seed; g.p.k.seed = seed * 7919 + 13;
  typedef void (*F)(Gen &);
  static const std::map<std::string, F> m = {{"B01", g_b01}, {"B02", g_b02}, {"B03", g_b03}, {"B04", g_b04}, {"B05", g_b05}, {"B06", g_b06}, {"B07", g_b07}, {"B08", g_b08}, {"B09", g_b09}, {"B10", g_b10}, {"B11", g_b11}, {"B12", g_b12}, {"B13", g_b13}, {"B14", g_b14}, {"B15", g_b15}, {"B16", g_b16}, {"B17", g_b17}, {"B18", g_b18}, {"B19", g_b19}, {"B20", g_b20}, {"B21", g_b21}};
  auto i = m.find(prop);
  if (i != m.end()) i->second(g);
  return g.p;
}
} // namespace world
