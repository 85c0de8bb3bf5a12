// Oracles: checks over the recorded history, the disks, the exits and the outputs of one run.
#include "world.h"
#include <algorithm>
#include <openssl/cms.h>
#include <openssl/err.h>
#include <openssl/pem.h>

namespace world {
enum Dec { REJ, UNK, ACC };
static const char *BV = "/.well-known/brski/requestvoucher";
static const char *SE = "/.well-known/est/simpleenroll";

static void vm(const std::string &props, const std::string &text) {
  size_t i = 0;
  while (i < props.size()) {
    size_t e = props.find(',', i);
    if (e == std::string::npos) e = props.size();
    v(props.substr(i, e - i), "%s", text.substr(0, 900).c_str());
    i = e + 1;
  }
}
Time clock_at(Host *h, Time t) { // offset of a host's clock at a moment
  auto i = W->clk.find(h);
  if (i == W->clk.end() || i->second.empty()) return h->clock_off;
  Time o = i->second[0].second;
  for (auto &e : i->second) if (e.first <= t) o = e.second;
  return o;
}
static int64_t secs(Host *h, Time t) { return (S->epoch + t + clock_at(h, t)) / SEC; }
static bool within(Host *h, int64_t x, Time a, Time b) { // x is a reading of h's clock some time in [a,b]
  int64_t lo = std::min(secs(h, a), secs(h, b)), hi = std::max(secs(h, a), secs(h, b));
  auto i = W->clk.find(h);
  if (i != W->clk.end()) {
    Time prev = 0; bool first = true;
    for (auto &e : i->second) {
      if (e.first >= a && e.first <= b) {
        for (Time o : {first ? e.second : prev, e.second}) { int64_t q = (S->epoch + e.first + o) / SEC; lo = std::min(lo, q); hi = std::max(hi, q); }
      }
      prev = e.second; first = false;
    }
  }
  return x >= lo - 1 && x <= hi + 1;
}
static std::string nul_trim(const std::string &s) { size_t n = s.find('\0'); return n == std::string::npos ? s : s.substr(0, n); }
// 1 strict, 0 unusual text that may decode, -1 cannot decode to anything
static int dec_body(const std::string &body, std::string *der) {
  std::string s = nul_trim(body);
  der->clear();
  if (!s.empty() && s.find('\n') == std::string::npos && s.find('\r') == std::string::npos && unb64(s, der)) return 1;
  std::string f;
  for (char c : s) if (isalnum((unsigned char)c) || c == '+' || c == '/' || c == '=') f += c;
  if (f.empty()) return -1;
  size_t e = f.find('='); // decoding ends with the first padded group
  if (e != std::string::npos) f.resize(std::min(f.size(), (e / 4 + 1) * 4));
  while (f.size() % 4) f += '=';
  if (!unb64(f, der)) der->clear();
  return 0;
}
// every reading of a body that a tolerant receiver may make (bytes outside the alphabet are skipped, or end it)
static std::vector<std::string> dec_all(const std::string &body) {
  std::vector<std::string> r; std::string d;
  if (dec_body(body, &d) >= 0 && !d.empty()) r.push_back(d);
  std::string f; for (char c : body) if (c) f += c;
  if (f != body && dec_body(f, &d) >= 0 && !d.empty() && (r.empty() || r[0] != d)) r.push_back(d);
  return r;
}
static bool der_cert(const std::string &d) {
  const unsigned char *p = (const unsigned char *)d.data();
  X509 *x = d2i_X509(nullptr, &p, (long)d.size()); ERR_clear_error();
  if (!x) return false;
  X509_free(x); return true;
}
static std::string R(const Req &q) { // registrar instance name
  return q.sp->role;
}
static std::vector<Ident *> pv_store(const std::string &role) { return role == "masa" ? idlist(W->plan.s("masa.pvs", "mfrca")) : idlist(W->plan.s(role + ".vs", "mfrca")); }
static std::vector<Ident *> pv_certs(const std::string &role) { return role == "masa" ? idlist(W->plan.s("masa.pvc", "")) : idlist(W->plan.s(role + ".vc", "")); }
static Ident *reg_tls(const std::string &role) { return I(W->plan.s(role + ".tls", role == "regb" ? "regbtls" : "regtls")); }
static Ident *reg_ca(const std::string &role) { return I(W->plan.s(role + ".ca", role == "regb" ? "dombca" : "domca")); }
static Ident *reg_cms(const std::string &role) { return I(W->plan.s(role + ".cms", role == "regb" ? "regbcms" : "regcms")); }

static Dec verify2(const std::string &der, const std::vector<Ident *> &st, const std::vector<Ident *> &ic, Host *h, Time a, Time b, std::string *content) {
  std::string c1, c2;
  // no trust anchors configured: the signer's certificate is not checked, only the signature
  bool o1 = cms_verify(der, st, ic, secs(h, a), &c1), o2 = cms_verify(der, st, ic, secs(h, b), &c2);
  if (content) *content = o1 ? c1 : c2;
  if (o1 != o2) return UNK;
  return o1 ? ACC : REJ;
}
static const char *KEYS[] = {"created-on", "expires-on", "assertion", "serial-number", "idevid-issuer", "pinned-domain-cert", "domain-cert-revocation-checks", "nonce", "last-renewal-date", "prior-signed-voucher-request", "proximity-registrar-cert"};
struct Doc { // parsed voucher document with a judgement of how canonical it is
  Json j; bool canon = false; std::string text;
};
static Doc doc(const std::string &text) {
  Doc d; d.text = text; d.j = parse_voucher(text);
  d.canon = d.j.ok && text.find('\\') == std::string::npos && text.find('\0') == std::string::npos && text.size() < 60000 && d.j.kv.size() < 60;
  if (d.canon)
    for (auto &e : d.j.kv) {
      bool known = false;
      for (auto *k : KEYS) known |= e.first == k;
      if (!known || d.j.count(e.first) != 1) d.canon = false;
      if (e.first == "domain-cert-revocation-checks") { if (d.j.isstr[e.first] || (e.second != "true" && e.second != "false")) d.canon = false; }
      else if (!d.j.isstr[e.first]) d.canon = false;
      std::string tmp;
      if (e.first == "created-on" || e.first == "expires-on" || e.first == "last-renewal-date") { if (parse_iso(e.second) < 0) d.canon = false; }
      else if (e.first == "assertion") { if (e.second != "proximity" && e.second != "verified" && e.second != "logged") d.canon = false; }
      else if (e.first != "serial-number" && e.first != "domain-cert-revocation-checks") { if (e.second.empty() || !unb64(e.second, &tmp)) d.canon = false; }
    }
  return d;
}
// value of a field: 1 exactly one clean value, 0 unclear, -1 certainly absent
static int field(const Doc &d, const std::string &k, std::string *val) {
  val->clear();
  if (!d.j.ok) return d.text.find(k) == std::string::npos && d.text.find('\\') == std::string::npos ? -1 : 0;
  int n = d.j.count(k);
  if (n == 0) return d.text.find('\\') == std::string::npos ? -1 : 0;
  *val = d.j.get(k);
  return n == 1 && d.canon ? 1 : 0;
}
// could the field equal want?  ACC certainly, REJ certainly not, UNK unclear
static Dec field_is(const Doc &d, const std::string &k, const std::string &want, bool b) {
  std::string x;
  int f = field(d, k, &x);
  if (f < 0) return REJ;
  if (f == 1) { std::string raw; if (b) { if (!unb64(x, &raw)) return UNK; x = raw; } return x == want ? ACC : REJ; }
  if (d.j.ok && d.text.find('\\') == std::string::npos) { // every candidate value differs
    bool any = false;
    for (auto &e : d.j.kv) if (e.first == k) {
      if (!b) any |= e.second == want;
      else { std::string f; for (char c : e.second) if (isalnum((unsigned char)c) || c == '+' || c == '/') f += c; std::string w = b64(want); while (!w.empty() && w.back() == '=') w.pop_back(); any |= f == w; }
    }
    return any ? UNK : REJ;
  }
  return UNK;
}
static Dec meet(Dec a, Dec b) { return a < b ? a : b; }
static Dec pvr_dec(const std::string &role, const std::string &der, const std::string &client, Host *h, Time a, Time b, std::string *why) {
  std::string c;
  Dec d = verify2(der, pv_store(role), pv_certs(role), h, a, b, &c);
  if (d == REJ) { *why = "signature"; return REJ; }
  Doc x = doc(c);
  std::string ser = subject_serial(client);
  if (ser.empty()) { *why = "client certificate without serial"; return REJ; }
  Dec e = field_is(x, "serial-number", ser, false);
  if (e == REJ) { *why = "serial-number"; return REJ; }
  d = meet(d, e);
  e = field_is(x, "proximity-registrar-cert", reg_tls(role)->der, true);
  if (e == REJ) { *why = "proximity certificate"; return REJ; }
  d = meet(d, e);
  e = field_is(x, "assertion", "proximity", false);
  if (e == REJ) { *why = "assertion"; return REJ; }
  d = meet(d, e);
  if (!x.canon) d = meet(d, UNK);
  return d;
}
struct RVR { bool parsed = false; Doc d; std::string prior; bool has_prior = false; std::string nonce; int nf = 0; std::string serial; };
static Dec rvr_dec(const std::string &der, Host *h, Time a, Time b, RVR *r, std::string *why) {
  std::string c;
  Dec d = verify2(der, idlist(W->plan.s("masa.vs", "regcmsca")), idlist(W->plan.s("masa.vc", "")), h, a, b, &c);
  if (d == REJ) { *why = "registrar signature"; return REJ; }
  r->d = doc(c); r->parsed = r->d.j.ok;
  int f = field(r->d, "serial-number", &r->serial);
  if (f < 0 || (f == 1 && r->serial.empty())) { *why = "no serial-number"; return REJ; }
  std::string p;
  int g = field(r->d, "prior-signed-voucher-request", &p);
  if (g < 0 || (g == 1 && p.empty())) { *why = "no prior request"; return REJ; }
  if (g != 1 || !unb64(p, &r->prior)) return UNK;
  r->has_prior = true;
  std::string pc;
  Dec e = verify2(r->prior, pv_store("masa"), pv_certs("masa"), h, a, b, &pc);
  if (e == REJ) { *why = "pledge signature"; return REJ; }
  d = meet(d, e);
  Doc pd = doc(pc);
  if (f == 1) {
    e = field_is(pd, "serial-number", r->serial, false);
    if (e == REJ) { *why = "serial numbers differ"; return REJ; }
    d = meet(d, e);
  } else d = meet(d, UNK);
  std::string n;
  r->nf = field(r->d, "nonce", &n);
  if (r->nf == 1) unb64(n, &r->nonce);
  if (!r->d.canon || !pd.canon) d = meet(d, UNK);
  return d;
}
static std::string tail(const std::string &p) { return p.size() > 24 ? p.substr(p.size() - 24) : p; }

// ------------------------------------------------------------------ collected history
struct Fwd { Proc *rp; Req q; std::string der; bool ok = false; Doc d; std::string prior; };
static std::vector<Req> rq, mq;
static std::vector<Fwd> fw;
static std::map<int, const Line *> rawconn;
static bool clean; // nothing was injected that may make an honest exchange fail
static std::string hexs(const std::string &s) { return hex(s).substr(0, 24); }

static void collect() {
  rq.clear(); mq.clear(); fw.clear(); rawconn.clear();
  for (auto *r : W->ops) if (r->l->kind == "raw" && r->conn >= 0) rawconn[r->conn] = r->l;
  for (auto &q : requests("")) {
    Req x = q; x.raw = rawconn.count(q.conn);
    if (q.sp->role == "masa") mq.push_back(x);
    else if (q.sp->role == "reg" || q.sp->role == "regb") rq.push_back(x);
  }
  for (auto *p : S->procs)
    if (p->node && (p->role == "reg" || p->role == "regb"))
      for (auto &q : client_requests(p)) {
        Fwd f; f.rp = p; f.q = q;
        if (q.q.path != BV) { fw.push_back(f); continue; }
        std::string c;
        if (dec_body(q.q.body, &f.der) == 1 && cms_verify(f.der, {}, {}, 0, &c)) {
          f.d = doc(c); std::string p;
          f.ok = field(f.d, "prior-signed-voucher-request", &p) == 1 && unb64(p, &f.prior);
        }
        fw.push_back(f);
      }
}
static bool soft() { return clean; }

// ------------------------------------------------------------------ registrar voucher requests: B03 B04 B05
static void ck_registrar() {
  std::map<std::string, int> allowed; int unk = 0;
  for (auto &q : rq) {
    if (q.raw || q.q.method != "POST" || q.q.path != BV) continue;
    std::string der, why;
    int b = dec_body(q.q.body, &der);
    Host *h = q.sp->host;
    Time end = q.replied ? q.tr : (q.sp->exited ? q.sp->t_end : S->now);
    Dec d = b < 0 ? REJ : b == 0 ? UNK : pvr_dec(R(q), der, q.client, h, q.tq, end, &why);
    if (b < 0) why = "body";
    if (b == 0 && q.client.empty()) d = REJ;
    if (d != REJ) { if (b == 1) allowed[der]++; else unk++; }
    W->stats[d == REJ ? "pvr_reject" : d == UNK ? "pvr_unclear" : "pvr_accept"]++;
    if (!q.replied) continue;
    bool isv = false; { std::string x; isv = dec_body(q.r.body, &x) >= 0 && x.size() > 100 && cms_verify(x, {}, {}, 0, nullptr); }
    if (d == REJ && q.r.status < 400)
      vm("B03,B04,B05", "registrar answered " + std::to_string(q.r.status) + " to a pledge request it must refuse (" + why + "), conn " + std::to_string(q.conn));
    if (d == REJ && isv) vm("B03", "registrar returned a voucher for a refused request (" + why + ")");
    if (q.r.status >= 400) {
      if (isv) vm("B05", "error reply of the registrar carries a voucher");
      if (d == ACC && soft()) {
        // the outcome must be explained by the MASA
        bool okm = false, masa_bad = W->plan.s("masa", "node") != "node";
        for (auto &f : fw) if (f.ok && f.prior == der && f.q.replied && f.q.r.status >= 400) masa_bad = true;
        for (auto &f : fw) if (f.ok && f.prior == der && f.q.replied && f.q.r.status / 100 == 2) okm = true;
        bool clockplay = false;
        for (auto &e : W->plan.set) if (e.first.compare(0, 4, "clk.") == 0) clockplay = true;
        if (!W->clk.empty()) clockplay = true;
        if (okm && !masa_bad) vm("B03,B04,B05,B21,B12,B19", "registrar answered " + std::to_string(q.r.status) + " although the MASA issued the voucher for this request");
        else if (!masa_bad && !clockplay && W->plan.s("masa.reach", "1") == "1" && I(W->plan.s("masa.clica", "domca")) == I(W->plan.s("reg.tls", "regtls"))->issuer) vm("B03,B04,B12,B21", "registrar answered " + std::to_string(q.r.status) + " to a valid pledge request: " + q.r.body.substr(0, 60));
        else if (!masa_bad && clockplay && q.r.status != 502) vm("B19,B03", "registrar answered " + std::to_string(q.r.status) + " to a pledge request valid at its clock");
      }
      continue;
    }
    if (q.r.status / 100 == 3) vm("B05", "registrar answered a voucher request with status " + std::to_string(q.r.status));
    // success: the body is what the MASA returned for this very request
    bool any = false, same = false, empty = q.r.body.empty();
    for (auto &f : fw) {
      if (!f.q.replied || f.q.r.status / 100 != 2 || f.q.q.path != BV) continue;
      if (b == 1 && f.ok && f.prior != der) continue;
      any = true;
      same |= nul_trim(f.q.r.body) == nul_trim(q.r.body);
    }
    if (!any) vm("B05", "registrar answered " + std::to_string(q.r.status) + (empty ? " with an empty body" : "") + " without a voucher from the MASA for that request");
    else if (empty) vm("B05", "registrar answered success with an empty body");
    else if (!same) vm("B04,B05", "registrar's success reply is not the MASA's reply for that pledge request (conn " + std::to_string(q.conn) + ")");
  }
  // what the MASA saw
  std::map<std::string, int> sent; std::set<std::string> bodies;
  for (auto &f : fw) {
    Host *h = f.rp->host; std::string role = f.rp->role;
    W->stats["rvr"]++;
    if (f.q.q.method != "POST" || f.q.q.path != BV) { vm("B03", "registrar sent an unexpected request to the MASA: " + f.q.q.method + " " + f.q.q.path); continue; }
    if (!f.ok) { vm("B03", "registrar forwarded a request that does not decode to a signed voucher request with a prior request"); continue; }
    std::string signer, c;
    int64_t ts = secs(h, f.q.tq);
    if (!cms_verify(f.der, {}, {}, 0, &c, &signer) || signer != reg_cms(role)->der) vm("B03", "forwarded request is not signed by the registrar's signing certificate");
    std::string pc;
    Time early = std::max<Time>(0, f.q.tq - 10 * SEC);
    if (verify2(f.prior, pv_store(role), pv_certs(role), h, early, f.q.tq, &pc) == REJ) { vm("B03,B19", "registrar forwarded a pledge request that does not verify"); continue; }
    Doc pd = doc(pc);
    std::string ser; int sf = field(f.d, "serial-number", &ser);
    if (sf != 1) vm("B03", "forwarded request without serial number");
    else if (field_is(pd, "serial-number", ser, false) == REJ) vm("B03,B04", "forwarded serial number " + ser + " is not the pledge request's");
    if (field_is(pd, "assertion", "proximity", false) == REJ) vm("B03", "forwarded a request without proximity assertion");
    if (field_is(pd, "proximity-registrar-cert", reg_tls(role)->der, true) == REJ) vm("B03", "forwarded a request naming another registrar certificate");
    std::string n1, n2; int a = field(pd, "nonce", &n1), b = field(f.d, "nonce", &n2);
    std::string r1, r2; unb64(n1, &r1); unb64(n2, &r2);
    if (a == 1 && (b != 1 || r1 != r2)) vm("B03,B04", "forwarded nonce differs from the pledge's");
    if (a == -1 && b == 1 && !r2.empty()) vm("B03,B04", "forwarded request carries a nonce the pledge did not send");
    std::string iss, is2; int fi = field(f.d, "idevid-issuer", &iss); unb64(iss, &is2);
    // some client with this serial number and issuer asked with exactly this request
    bool src = false, issok = false; Time tq = -1; bool timeok = false; std::string crt; int fc = field(f.d, "created-on", &crt); int64_t ct = parse_iso(crt);
    for (auto &q : rq) {
      if (q.raw || q.q.path != BV || q.sp != f.rp || q.sq > f.q.sq) continue;
      std::string der; int bb = dec_body(q.q.body, &der);
      if (bb == 1 && der != f.prior) continue;
      if (bb < 0) continue;
      if (subject_serial(q.client) != ser) continue;
      src = true; tq = std::max(tq, q.tq);
      if (fi == 1 && issuer_oneline(q.client) == is2) issok = true;
      if (fc == 1 && within(h, ct, q.tq, f.q.tq)) timeok = true;
    }
    if (!src) vm("B03,B04", "the MASA received a request (serial " + ser + ") no client with that serial number made");
    else {
      if (!issok) vm("B03,B04", "forwarded issuer is not the issuer of the pledge's TLS certificate");
      if (!timeok) vm("B17,B03", "registrar request created-on " + crt + " is not the time of forwarding (" + iso_time(ts) + ")");
    }
    if (bodies.insert(f.q.q.body).second) sent[f.prior]++; // the HTTP client repeats a request whose connection was closed
  }
  for (auto &e : sent) if (e.second > allowed[e.first] + unk) vm("B03", "the MASA was contacted more often than valid pledge requests were made");
}
// ------------------------------------------------------------------ MASA: B02 B18
static void ck_masa() {
  Plan &P = W->plan;
  for (auto &q : mq) {
    if (q.q.method != "POST" || q.q.path != BV) continue;
    if (q.raw) { if (q.replied && q.r.status < 400) { std::string x; if (dec_body(q.r.body, &x) >= 0 && x.size() > 100) vm("B02", "MASA answered a malformed request with a voucher"); } continue; }
    std::string der, why; int b = dec_body(q.q.body, &der);
    RVR r; Time end = q.replied ? q.tr : S->now;
    Dec d = b < 0 ? REJ : rvr_dec(der, q.sp->host, q.tq, end, &r, &why);
    if (b < 0) why = "body";
    if (b == 0) { RVR t; d = UNK; }
    W->stats[d == REJ ? "rvr_reject" : d == UNK ? "rvr_unclear" : "rvr_accept"]++;
    if (!q.replied) continue;
    std::string vd, vc, signer; bool isv = dec_body(q.r.body, &vd) >= 0 && vd.size() > 100 && cms_verify(vd, {}, {}, 0, &vc, &signer);
    if (q.r.status >= 400) {
      if (isv) vm("B02", "MASA error reply carries a voucher");
      if (d == ACC && soft()) vm("B02,B04,B12,B19,B21", "MASA answered " + std::to_string(q.r.status) + " to a valid request pair");
      continue;
    }
    if (d == REJ) { vm(why.find("signature") != std::string::npos ? "B02,B19" : "B02", "MASA issued a voucher for a request it must refuse (" + why + ")"); }
    if (!isv) { vm("B02,B05", "MASA answered " + std::to_string(q.r.status) + " without a signed voucher"); continue; }
    if (signer != I(P.s("masa.cms", "masacms"))->der) vm("B02", "voucher is not signed by the MASA's certificate");
    if (b != 1) continue;
    Doc x = doc(vc);
    std::string t, raw;
    if (r.d.canon && field_is(x, "serial-number", r.serial, false) != ACC) vm("B02,B04", "voucher names serial '" + x.j.get("serial-number") + "', requested '" + r.serial + "'");
    int nf = field(x, "nonce", &t); unb64(t, &raw);
    if (r.nf == 1 && (nf != 1 || raw != r.nonce)) vm("B02,B04", "voucher nonce differs from the request's");
    if (r.nf == -1 && nf != -1) vm("B02,B04", "voucher carries a nonce the request does not have");
    if (field_is(x, "assertion", "proximity", false) != ACC) vm("B02", "voucher assertion is '" + x.j.get("assertion") + "'");
    if (field_is(x, "pinned-domain-cert", I(P.s("masa.ldev", "domca"))->der, true) != ACC) vm("B02,B04", "voucher does not pin the configured domain certificate");
    if (parse_instant(x.j.get("expires-on")) != parse_instant(P.s("masa.exp", "2031-05-06T07:08:09Z"))) vm("B02,B17", "voucher expires on '" + x.j.get("expires-on") + "'");
    for (auto &e : x.j.kv) if (e.first == "prior-signed-voucher-request" || e.first == "proximity-registrar-cert" || e.first == "idevid-issuer") vm("B02", "voucher carries " + e.first);
  }
  for (auto &c : conns) {
    if (!c->sp || !c->sp->node) continue;
    const std::string &role = c->sp->role;
    if (role != "masa" && role != "reg" && role != "regb") continue;
    bool out = false; for (auto &t : c->tap[1][1]) out |= !t.data.empty();
    bool in = !c->tap[1][0].empty();
    if (role == "masa") {
      bool tls_ok = false;
      if (!c->client_cert_der.empty()) {
        Time a = c->t_conn, b = in ? c->tap[1][0].front().t : S->now;
        std::string ca = I(P.s("masa.clica", "domca"))->der;
        tls_ok = chain_ok(c->client_cert_der, {ca}, secs(c->sh, a)) || chain_ok(c->client_cert_der, {ca}, secs(c->sh, b));
      }
      if (out && !tls_ok) vm("B18", std::string("MASA answered a client ") + (c->client_cert_der.empty() ? "without certificate" : "whose certificate the registrar CA did not issue or that is not valid now"));
      else if (in && !tls_ok) vm("B18", "MASA completed a TLS session with an unauthenticated client");
      W->stats[tls_ok ? "tls_auth_ok" : "tls_auth_bad"]++;
    } else if (out && c->client_cert_der.empty()) vm("B18", "registrar answered a client that presented no certificate");
  }
}
// ------------------------------------------------------------------ enrolment at the registrar: B08 B10 B16
static std::string part(X509 *x, const std::string &what) {
  unsigned char *o = nullptr; int l = 0; std::string r;
  if (what == "subject") l = i2d_X509_NAME(X509_get_subject_name(x), &o);
  else if (what == "pubkey") l = i2d_X509_PUBKEY(X509_get_X509_PUBKEY(x), &o);
  else if (what == "serial") l = i2d_ASN1_INTEGER(X509_get_serialNumber(x), &o);
  else if (what == "validity") { l = i2d_ASN1_TIME(X509_get0_notBefore(x), &o); r.assign((char *)o, l); OPENSSL_free(o); o = nullptr; l = i2d_ASN1_TIME(X509_get0_notAfter(x), &o); }
  else if (what == "extensions") { l = i2d_X509_EXTENSIONS((X509_EXTENSIONS *)X509_get0_extensions(x), &o); }
  if (l > 0) r.append((char *)o, l);
  OPENSSL_free(o);
  return r;
}
static X509 *px(const std::string &d) { const unsigned char *p = (const unsigned char *)d.data(); X509 *x = d2i_X509(nullptr, &p, (long)d.size()); ERR_clear_error(); return x; }
// is out the registrar's certificate for the submitted one?
static std::string issued_bad(const std::string &sub, const std::string &out, Ident *ca) {
  X509 *a = px(sub), *b = px(out);
  std::string r;
  if (!b) r = "reply is not a certificate";
  else if (!a) r = "a certificate was issued for something that is no certificate";
  else {
    for (auto *w : {"subject", "pubkey", "serial", "validity", "extensions"}) if (part(a, w) != part(b, w)) { r = std::string(w) + " differs from the submitted certificate"; break; }
    if (r.empty() && X509_NAME_cmp(X509_get_issuer_name(b), X509_get_subject_name(ca->x))) r = "issuer is not the registrar CA";
    if (r.empty() && X509_verify(b, ca->k) != 1) r = "signature does not verify under the registrar CA";
  }
  if (a) X509_free(a); if (b) X509_free(b); ERR_clear_error();
  return r;
}
struct Audit { int64_t t; std::string xs, s, lx, ls; };
static bool parse_audit(const std::string &l, Audit *a) {
  size_t i = 0;
  auto lit = [&](const char *s) { size_t n = strlen(s); if (l.compare(i, n, s)) return false; i += n; return true; };
  auto run = [&](const char *set, std::string *o, size_t max) { size_t e = i; while (e < l.size() && strchr(set, l[e]) && l[e]) e++; *o = l.substr(i, e - i); i = e; return !o->empty() && o->size() <= max; };
  auto quoted = [&](std::string *o) { if (!lit("\"")) return false; size_t e = l.find('"', i); if (e == std::string::npos) return false; *o = l.substr(i, e - i); i = e + 1; return true; };
  std::string t; const char *H = "0123456789abcdef";
  if (!run("0123456789", &t, 19) || !lit(" 0x") || !run(H, &a->xs, 40) || !lit(" ") || !quoted(&a->s) || !lit(" 0x") || !run(H, &a->lx, 40) || !lit(" ") || !quoted(&a->ls) || i != l.size()) return false;
  a->t = strtoll(t.c_str(), nullptr, 10);
  return true;
}
static std::string low_serial(const std::string &der) { std::string h = cert_serial_hex(der); std::string o; for (char c : h) o += (char)tolower(c); while (o.size() > 1 && o[0] == '0') o.erase(0, 1); return o; }
// what an audit line has to say about a certificate; how oversized numbers and unprintable text are written is left open
struct AuditId {
  std::string x, s; bool anyx = false, anys = false;
  void set(const std::string &der) {
    std::string h = cert_serial_hex(der);
    x = low_serial(der); anyx = h.empty() || h[0] == '-' || x.size() > 16;
    s = subject_serial(der);
    for (unsigned char c : s) if (c < 32 || c == 127 || c == '"' || c == '\\') anys = true;
    if (s.empty()) { X509 *c = nullptr; const unsigned char *p = (const unsigned char *)der.data(); c = d2i_X509(nullptr, &p, (long)der.size()); if (c && X509_NAME_get_index_by_NID(X509_get_subject_name(c), NID_serialNumber, -1) >= 0) anys = true; X509_free(c); ERR_clear_error(); s = "NULL"; }
  }
  bool is(const std::string &lx, const std::string &ls) const { return (anyx || lx == x) && (anys || ls == s); }
};
static void ck_enrol() {
  std::map<std::string, std::string> serials, subs, keys; // issued serial -> submitted key
  std::map<std::string, int> expect, possible; // audit keys
  struct Ex { bool known; AuditId by, of; Req *q; bool ok; Host *h; bool is(const Audit &a) const { return !known || (by.is(a.xs, a.s) && of.is(a.lx, a.ls)); } };
  std::vector<Ex> ex;
  std::set<std::string> good; // certificates submitted as they were made, not altered
  for (auto *r : W->ops) if (r->l->kind == "cenrol" && r->l->get("mut").empty() && !r->l->has("lit")) good.insert(r->sent);
  for (auto &q : rq) {
    if (q.raw || q.q.method != "POST" || q.q.path != SE) continue;
    std::string sub, out; int b = dec_body(q.q.body, &sub);
    bool cert = der_cert(sub);
    W->stats[cert ? "enrol_valid" : "enrol_invalid"]++;
    Ex x{cert && b == 1, {}, {}, &q, q.replied && q.r.status == 200, q.sp->host};
    if (x.known) { x.by.set(q.client); x.of.set(sub); }
    if (b >= 0) ex.push_back(x);
    if (!q.replied) continue;
    if (q.r.status / 100 == 2) {
      if (b < 0 || (b == 1 && !cert)) { vm("B08", "registrar answered success to an enrolment of something that is no certificate"); continue; }
      if (q.r.status != 200) vm("B08", "enrolment answered with status " + std::to_string(q.r.status));
      int rb = dec_body(q.r.body, &out);
      std::string bad = rb != 1 ? "reply is not base64" : b == 1 ? issued_bad(sub, out, reg_ca(R(q))) : "";
      if (!bad.empty()) vm("B08,B04", "enrolment reply: " + bad + " (conn " + std::to_string(q.conn) + ")");
      if (b == 1 && rb == 1) {
        std::string s = low_serial(out), pk = pubkey_of_cert(out), kk = std::string(R(q)) + s;
        bool node = q.cp && q.cp->node; // made by the program's own enrolment command
        if (node) {
          if (serials.count(kk) && serials[kk] != pk + std::to_string(q.cp->id)) vm("B16", "two issued certificates share the serial number " + s);
          serials[kk] = pk + std::to_string(q.cp->id);
          if (keys.count(pk) && keys[pk] != std::to_string(q.cp->id)) vm("B16", "two pledges generated the same key");
          keys[pk] = std::to_string(q.cp->id);
          std::string sn = subject_serial(out);
          if (subs.count(sn) && subs[sn] != std::to_string(q.cp->id)) vm("B16", "two pledges generated the same subject identifier");
          subs[sn] = std::to_string(q.cp->id);
        }
      }
    } else if ([&]() { std::string o; return dec_body(q.r.body, &o) >= 0 && der_cert(o) && (!cert || o != sub); }()) vm("B10,B08", "enrolment refused with status " + std::to_string(q.r.status) + " but the reply carries a certificate");
    else if (q.r.status < 400) vm("B08,B05", "enrolment answered with status " + std::to_string(q.r.status));
    else if (cert && b == 1 && soft() && ((q.cp && q.cp->node) || good.count(sub))) vm("B08,B04,B12,B21", "registrar refused a valid enrolment with status " + std::to_string(q.r.status));
  }
  // serial numbers of attempts that were submitted, even when they failed
  // audit logs
  for (std::string n : {"reg", "regb"}) {
    Host *h = host(n);
    auto i = h->fs.find("/var/log/brski-registrar.log");
    std::string data = i == h->fs.end() ? "" : i->second->data;
    std::string pre = n == "reg" && W->plan.s("auditpre") != "" ? audit_pre() : "";
    if (data.compare(0, pre.size(), pre)) { vm("B10", "earlier audit lines were lost or changed"); continue; }
    data = data.substr(pre.size());
    // a line is only ever torn where the process was killed while the disk was refusing a part of it
    bool tornok = false;
    if (W->plan.s("tornok") == "1") for (auto *p : W->srv[n].all) tornok |= p->exited && p->exitcode == 137;
    std::vector<std::pair<Audit, size_t>> lines; size_t off = 0; bool bad = false; // with end offset
    while (off < data.size()) {
      size_t e = data.find('\n', off);
      if (e == std::string::npos) { if (!tornok) vm("B10", "the last audit line is incomplete: " + data.substr(off)); bad = true; break; }
      Audit a;
      if (!parse_audit(data.substr(off, e - off), &a)) { if (!tornok) vm("B10", "torn audit line: " + data.substr(off, e - off).substr(0, 200)); bad = true; }
      else lines.push_back({a, pre.size() + e + 1});
      off = e + 1;
    }
    if (bad && tornok) continue;
    W->stats["audit_lines"] += lines.size();
    std::vector<bool> used(lines.size(), false);
    auto wrote = [&](size_t end) -> const WLog * { if (i == h->fs.end()) return nullptr; for (auto &w : i->second->wlog) if (w.size >= end) return &w; return nullptr; };
    // which line may belong to which request; then a matching that covers every answered enrolment and every line
    std::vector<std::vector<int>> cand(ex.size()), back(lines.size());
    for (size_t x = 0; x < ex.size(); x++) {
      auto &e = ex[x];
      if (e.h != h) continue;
      for (size_t k = 0; k < lines.size(); k++) {
        Audit &a = lines[k].first;
        if (!e.is(a)) continue;
        const WLog *w = wrote(lines[k].second);
        if (w && w->seq < e.q->sq) continue;         // written before the request was complete
        Time end = e.q->replied ? e.q->tr : e.q->sp->exited ? e.q->sp->t_end : S->now;
        if (e.ok && w && w->seq > e.q->sr) continue; // after the reply
        if (w && !within(h, a.t, std::max(e.q->tq, w->t - 15 * SEC), std::min(end, w->t))) continue;
        cand[x].push_back((int)k); back[k].push_back((int)x);
      }
    }
    std::vector<int> me(ex.size(), -1), ml(lines.size(), -1);
    std::vector<char> seen;
    std::function<bool(int)> aug = [&](int x) { for (int k : cand[x]) if (!seen[k]) { seen[k] = 1; if (ml[k] < 0 || aug(ml[k])) { ml[k] = x; me[x] = k; return true; } } return false; };
    std::function<bool(int)> augl = [&](int k) { for (int x : back[k]) if (!seen[x]) { seen[x] = 1; if (me[x] < 0 || augl(me[x])) { me[x] = k; ml[k] = x; return true; } } return false; };
    for (size_t x = 0; x < ex.size(); x++) {
      auto &e = ex[x];
      if (e.h != h || !e.ok) continue;
      seen.assign(lines.size(), 0);
      if (aug((int)x)) continue;
      std::string near;
      for (size_t k = 0; k < lines.size(); k++) { Audit &a = lines[k].first; if (e.known && e.is(a)) near = " (a line with these serial numbers exists, but with time " + std::to_string(a.t) + " or written too late)"; }
      vm(near.empty() ? "B10" : "B10,B17", "enrolment on conn " + std::to_string(e.q->conn) + " answered with success has no audit line of its own" + near);
    }
    for (size_t k = 0; k < lines.size(); k++) if (ml[k] < 0) { seen.assign(ex.size(), 0); augl((int)k); }
    for (size_t k = 0; k < lines.size(); k++) used[k] = ml[k] >= 0;
    for (size_t k = 0; k < lines.size(); k++) if (!used[k]) vm("B10", "audit line without an enrolment: " + lines[k].first.xs + " " + lines[k].first.s + " " + lines[k].first.lx + " " + lines[k].first.ls);
  }
}
// ------------------------------------------------------------------ pledge commands: B01 B05 B08 B09 B13 B17
struct Vou { bool ok = false; std::string pin; std::string why; };
static Vou good_voucher(OpRes *r, const std::string &der, const std::string &server_cert, Time a, Time b) {
  Vou x; std::string c;
  auto vs = idlist(r->l->get("vs", W->plan.s("pl.vs", "masaca"))), vc = idlist(r->l->get("vc", W->plan.s("pl.vc", "")));
  if (verify2(der, vs, vc, r->h, a, b, &c) == REJ) { x.why = "signature"; return x; }
  Doc d = doc(c);
  if (field_is(d, "serial-number", r->serial, false) == REJ || r->serial.empty()) { x.why = "serial number"; return x; }
  if (!r->nonce.empty() && field_is(d, "nonce", r->nonce, true) == REJ) { x.why = "nonce"; return x; }
  if (r->l->get("nonce").compare(0, 2, "b:") == 0) { x.why = "configured nonce is invalid"; return x; }
  std::string p; int f = field(d, "pinned-domain-cert", &p);
  if (f < 0) { x.why = "no pinned certificate"; return x; }
  if (!d.j.ok) { // authentic, but not strictly a voucher document (trailing data...): take what it pins
    size_t k = c.find("\"pinned-domain-cert\"");
    if (k != std::string::npos && (k = c.find('"', c.find(':', k))) != std::string::npos) p = c.substr(k + 1, c.find('"', k + 1) - k - 1);
  }
  if (!unb64(p, &x.pin)) { // several or odd encodings: take what decodes
    std::string q; for (char ch : p) if (isalnum((unsigned char)ch) || ch == '+' || ch == '/' || ch == '=') q += ch;
    if (!unb64(q, &x.pin)) x.pin.clear();
  }
  if (x.pin.empty() || !der_cert(x.pin)) { x.why = "pinned certificate does not parse"; return x; }
  if (!chain_ok(server_cert, {x.pin}, 0, false)) { x.why = "registrar certificate does not chain to the pinned certificate"; return x; }
  x.ok = true;
  return x;
}
static void ck_commands() {
  for (auto *r : W->ops) {
    if (!r->proc) continue;
    Proc *p = r->proc; const std::string &k = r->l->kind;
    std::string id = "op" + std::to_string(r->l->id) + " " + k;
    if (!p->exited) { if (W->stats["finished"] == 0) vm("B05,B06", id + " did not end within the time limit"); continue; }
    bool ok = p->exitcode == 0;
    W->stats[ok ? "cmd_ok" : "cmd_fail"]++;
    std::string f_crt, f_key, f_smime; bool h_crt = false, h_key = false, h_smime = false;
    if (!r->out.empty()) { h_crt = fs_get(r->h, r->out + ".crt", &f_crt); h_key = fs_get(r->h, r->out + ".key", &f_key); h_smime = fs_get(r->h, r->out + ".smime", &f_smime); }
    if (!r->pre.empty()) { h_crt = h_crt && f_crt != r->pre; h_key = h_key && f_key != r->pre; h_smime = h_smime && f_smime != r->pre; } // left by an earlier run
    std::vector<std::string> ol; { std::string x; for (char c : p->out) if (c == '\n') { ol.push_back(x); x.clear(); } else x += c; if (!x.empty()) ol.push_back(x); }
    std::string want = r->l->get("x");
    if (want == "1" && !ok && soft()) vm("B04,B07,B08,B12,B19,B21", id + " must succeed but exited with " + std::to_string(p->exitcode));
    if (want == "0" && ok) vm("B01,B05,B09,B12,B19,B20", id + " must fail but reported success");
    auto cr = client_requests(p);
    if (k == "preq" || k == "sign" || k == "vmasa") {
      Vou best; std::string whys; std::vector<std::string> pins;
      uint64_t vseq = ~0ull; bool anyresp = false;
      if (k == "vmasa") {
        auto ders = dec_all(r->sent.empty() ? "" : p->in);
        ders.push_back(r->sent);
        for (auto &der : ders) {
          Vou x = good_voucher(r, der, I(r->l->get("rtls", "regtls"))->der, p->t_start, p->t_end);
          if (x.ok) { best = x; pins.push_back(x.pin); }
          else whys += x.why + ";";
        }
        vseq = 0;
      } else
        for (auto &q : cr) {
          if (!q.replied || q.r.status >= 400 || q.q.path != BV) continue;
          anyresp = true;
          for (auto &der : dec_all(q.r.body)) {
            Vou x = good_voucher(r, der, conns[q.conn]->server_cert_der, q.tr, p->t_end);
            if (x.ok) { best = x; pins.push_back(x.pin); vseq = std::min(vseq, q.sr); }
            else whys += x.why + ";";
          }
        }
      if (ok && !best.ok) vm(anyresp || k == "vmasa" ? "B01" : "B01,B05", id + " reported success without a valid voucher (" + whys + ")");
      // emitted certificate
      std::string em; bool has = false;
      if (k != "sign") {
        if (!r->out.empty()) { has = h_crt && pem_to_der_cert(f_crt, &em); }
        else if (!ol.empty()) { has = unb64(ol[0], &em) && der_cert(em); }
        if (has && !best.ok) vm("B01", id + " emitted a domain certificate without a valid voucher (" + whys + ")");
        if (has && best.ok && std::find(pins.begin(), pins.end(), em) == pins.end()) vm("B01,B04,B13", id + " emitted a certificate that is not the pinned one");
        if (ok && !has) vm("B13,B01", id + " reported success but its output certificate is missing or incomplete");
        if (ok && r->out.empty() && ol.size() != 1) vm("B01", id + " printed unexpected output");
        if (!ok && r->out.empty() && !p->out.empty() && p->out_left < 0) vm("B01,B05", id + " failed but printed output");
      } else {
        std::string c, kpub;
        std::string keyder;
        if (!r->out.empty()) {
          has = h_crt && pem_to_der_cert(f_crt, &c);
          kpub = h_key ? pubkey_of_keypem(f_key) : "";
          BIO *b = BIO_new_mem_buf(f_key.data(), (int)f_key.size()); EVP_PKEY *pk = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr); BIO_free(b); ERR_clear_error();
          if (pk) { unsigned char *o = nullptr; int l = i2d_PrivateKey(pk, &o); keyder.assign((char *)o, l > 0 ? l : 0); OPENSSL_free(o); EVP_PKEY_free(pk); }
        } else if (ol.size() >= 2) {
          has = unb64(ol[0], &c) && der_cert(c);
          if (unb64(ol[1], &keyder)) { const unsigned char *pp = (const unsigned char *)keyder.data(); EVP_PKEY *pk = d2i_AutoPrivateKey(nullptr, &pp, (long)keyder.size()); ERR_clear_error(); if (pk) { unsigned char *o = nullptr; int l = i2d_PUBKEY(pk, &o); kpub.assign((char *)o, l > 0 ? l : 0); OPENSSL_free(o); EVP_PKEY_free(pk); } }
        }
        if (ok && (!has || kpub.empty())) vm("B13,B08", id + " reported success but certificate or key output is missing or incomplete");
        if (ok && has && !kpub.empty() && pubkey_of_cert(c) != kpub) vm("B08", id + ": certificate and key do not match");
        if (!ok && r->out.empty() && !p->out.empty() && p->out_left < 0) vm("B01,B05", id + " failed but printed output");
        // what was submitted, over which connection
        std::string sub, rep; bool enr = false;
        for (auto &cn : conns) {
          if (cn->cp != p) continue;
          std::string w = cn->plain(0, 1);
          if (w.find("simpleenroll") == std::string::npos) continue;
          enr = true;
          uint64_t s0 = cn->tap[0][1].empty() ? 0 : cn->tap[0][1].front().seq;
          bool auth = false;
          for (auto &pin : pins) auth |= chain_ok(cn->server_cert_der, {pin}, 0, false);
          if (pins.empty() || s0 < vseq) vm("B09", id + " submitted its certificate without a valid voucher (" + whys + ")");
          else if (!auth) vm("B09", id + " submitted its certificate to a server the pinned certificate does not authenticate");
        }
        bool regnode = false, refused = false, granted = false; std::string role;
        for (auto &q : cr) if (q.q.path == SE) {
          if (q.replied) (q.r.status >= 400 ? refused : granted) = true;
          regnode = q.sp && q.sp->node; if (regnode) role = q.sp->role;
          dec_body(q.q.body, &sub);
          if (q.replied && q.r.status < 400) dec_body(q.r.body, &rep);
        }
        if (ok && refused && !granted) vm("B05,B08", id + " reported success although the registrar answered the enrolment with an error");
        if (ok && !enr) vm("B08,B09", id + " reported success without submitting a certificate");
        if (ok && has) {
          if (!rep.empty() && rep.compare(0, c.size(), c)) vm("B08,B13", id + ": the output certificate is not the one the registrar returned");
          if (regnode && !sub.empty()) { std::string bad = issued_bad(sub, c, reg_ca(role)); if (!bad.empty()) vm("B08,B04", id + ": " + bad); }
          if (!sub.empty() && pubkey_of_cert(sub) != pubkey_of_cert(c)) vm("B08,B04", id + ": certificate is for another key");
          X509 *x = px(c); if (x) { if (X509_check_ca(x) > 0) vm("B08", id + ": the issued certificate is a CA"); X509_free(x); }
        }
        if (!keyder.empty()) { // the private key stays at home
          std::string scal; size_t z = keyder.find(std::string("\x04\x20", 2)); if (z != std::string::npos && z + 34 <= keyder.size()) scal = keyder.substr(z + 2, 32);
          std::string e0 = b64(keyder).substr(0, 60);
          for (auto &cn : conns) if (cn->cp == p) {
            std::string w = cn->plain(0, 1);
            bool leak = !scal.empty() && w.find(scal) != std::string::npos;
            for (auto &q : parse_all(w, true)) { std::string d; if (dec_body(q.body, &d) >= 0 && !scal.empty() && d.find(scal) != std::string::npos) leak = true; }
            if (leak || w.find(e0) != std::string::npos) vm("B09", id + " sent its private key");
          }
          if (!scal.empty() && p->err.find(e0) != std::string::npos) vm("B09", id + " logged its private key");
        }
      }
      // what the pledge sent
      for (auto &q : cr) {
        if (q.q.path != BV || q.q.body.empty()) continue;
        std::string der, c; dec_body(q.q.body, &der);
        if (!cms_verify(der, {}, {}, 0, &c)) { vm("B13", id + " sent a request that is no signed voucher request"); continue; }
        Doc d = doc(c); std::string t; int f = field(d, "created-on", &t);
        if (!r->l->has("created")) { if (f == 1 && !within(r->h, parse_iso(t), p->t_start, q.tq)) vm("B17", id + ": created-on " + t + " is not the current time " + iso_time(secs(r->h, q.tq))); }
        else if (f == 1 && parse_instant(r->l->get("created")) >= 0 && parse_instant(t) != parse_instant(r->l->get("created"))) vm("B17", id + ": created-on " + t + " is not the configured " + r->l->get("created"));
        if (!r->serial.empty() && field_is(d, "serial-number", r->serial, false) == REJ) vm("B04", id + ": request names another serial number");
        std::string prox = conns[q.conn]->server_cert_der;
        (void)prox;
      }
    }
    if (k == "epvr" && ok) {
      std::string der, c;
      if (!r->out.empty()) {
        BIO *b = BIO_new_mem_buf(f_smime.data(), (int)f_smime.size()), *cont = nullptr;
        CMS_ContentInfo *ci = SMIME_read_CMS(b, &cont);
        if (ci) { unsigned char *o = nullptr; int l = i2d_CMS_ContentInfo(ci, &o); if (l > 0) der.assign((char *)o, l); OPENSSL_free(o); CMS_ContentInfo_free(ci); }
        BIO_free(b); if (cont) BIO_free(cont); ERR_clear_error();
        // a complete S/MIME file ends with an empty line after the base64 text
        if (!h_smime || der.empty()) { vm("B13", id + " reported success but its output file is missing or incomplete"); continue; }
      } else if (ol.empty() || !unb64(ol[0], &der)) { vm("B13", id + " reported success but printed no request"); continue; }
      std::string signer;
      if (!cms_verify(der, {}, {}, 0, &c, &signer)) { vm("B13", id + ": the written request does not verify"); continue; }
      Doc d = doc(c); std::string t;
      if (field_is(d, "serial-number", r->serial, false) != ACC) vm("B13", id + ": the written request names another serial number");
      if (!r->nonce.empty() && field_is(d, "nonce", r->nonce, true) != ACC) vm("B13", id + ": the written request has another nonce");
      if (field_is(d, "proximity-registrar-cert", I(r->l->get("rtls", "regtls"))->der, true) != ACC) vm("B13", id + ": the written request names another registrar");
      if (r->l->has("created") && parse_instant(r->l->get("created")) >= 0 && field(d, "created-on", &t) == 1 && parse_instant(t) != parse_instant(r->l->get("created"))) vm("B17", id + ": created-on " + t + " is not the configured " + r->l->get("created"));
      if (!r->l->has("created") && field(d, "created-on", &t) == 1 && !within(r->h, parse_iso(t), p->t_start, p->t_end)) vm("B17", id + ": created-on " + t + " is not the current time");
    }
    if (k == "serial") {
      if (ok && p->out != I(r->ident)->serial) vm("B13", id + " printed '" + p->out + "'");
    }
    // failed opens or closes of a file the command needs cannot end in success
    for (auto &fh : S->fhits) if (fh.pid == p->id && ok) {
      if (fh.fatal && fh.op != 'c' && fh.op != 'w' && fh.path.find("/out/") == std::string::npos) vm("B12", id + " reported success although " + fh.path + " could not be read");
      if (fh.path.find("/out/") != std::string::npos && (fh.op == 'o' || fh.op == 'c' || fh.op == 'w')) {
        // success is only acceptable when the file is complete all the same: checked above for content
        W->stats["outfault_ok"]++;
      }
    }
    if (!ok && p->exitcode >= 128 && p->exitcode != 137) vm("CRASH", id + " died with " + std::to_string(p->exitcode));
  }
}
// ------------------------------------------------------------------ file faults while serving: B12
static void ck_filefaults() {
  for (auto &fh : S->fhits) {
    if (!fh.fatal || fh.op == 'c' || fh.op == 'w' || fh.path.find("/var/log") != std::string::npos) continue;
    for (auto *qs : {&rq, &mq})
      for (auto &q : *qs)
        if (q.replied && q.rtid == fh.tid && q.sp->id == fh.pid && fh.seq > q.sq && fh.seq < q.sr && q.r.status < 400)
          vm("B12", q.sp->role + " answered " + std::to_string(q.r.status) + " although " + fh.path + " could not be read for that request");
  }
}
// ------------------------------------------------------------------ servers: B06 B07 B20
static bool start_failed(Proc *p);
static void ck_servers() {
  for (auto &e : W->srv) {
    Server1 &s = e.second;
    if (!s.want) continue;
    std::string mut = W->plan.s(e.first + ".cfgmut", "") + (W->plan.s(e.first + ".occupied") == "1" ? "occupied" : "");
    for (Proc *p : s.all) {
      if (!p->exited) continue;
      if (p->exitcode == 137 && p->killpending) continue;
      if (!mut.empty()) { if (p->exitcode == 0) vm("B20", e.first + " (" + mut + ") exited with success without serving"); continue; }
      if (p->exitcode == 137) continue;
      if (W->plan.s("startfault") == "1") { if (p->exitcode == 0) vm("B20", e.first + " exited with success without serving"); continue; }
      if (start_failed(p)) continue;
      vm("B06,B07,B20", e.first + " exited with status " + std::to_string(p->exitcode) + " while serving");
    }
    if (!s.proc->exited && (!mut.empty() || W->plan.s("startfault") == "1") && W->stats["probe_" + e.first] == 0) vm("B20", e.first + " (" + mut + ") neither serves nor exits");
  }
  // replies: at most one per request, in order; and every complete one is answered while nothing is wrong
  for (auto &c : conns) {
    if (!c->sp || !c->sp->node) continue;
    const std::string &role = c->sp->role;
    if (role != "masa" && role != "reg" && role != "regb") continue;
    auto q = parse_all(c->plain(1, 0), true), r = parse_all(c->plain(1, 1), false);
    bool raw = rawconn.count(c->id);
    if (!raw && r.size() > q.size()) { for (int w = 0; w < 2; w++) { std::string t = c->plain(1, w); tr("conn %d %s %zu bytes", c->id, w ? "out" : "in", t.size()); for (size_t k = 0; k < t.size(); k += 200) tr("  | %s", t.substr(k, 200).c_str()); } }
    size_t part = c->plain(1, 0).size() > (q.empty() ? 0 : q.back().used) && !r.empty() && r.back().status >= 400; // a request that never became complete may be refused
    if (!raw && r.size() > q.size() + part) vm("B06,B04", role + " sent " + std::to_string(r.size()) + " replies to " + std::to_string(q.size()) + " requests on one connection (conn " + std::to_string(c->id) + ")");
    if (raw) continue;
    for (size_t i = 0; i < r.size() && i < q.size(); i++) {
      if (r[i].status < 400) continue;
      std::string der;
      if (r[i].body.size() > 200 && unb64(r[i].body, &der) && der.size() > 100 && der[0] == 0x30) vm("B04,B05", role + " answered " + std::to_string(r[i].status) + " with a signed object or certificate as the body (conn " + std::to_string(c->id) + ")");
      if (role == "masa" || q[i].path != "/.well-known/brski/requestvoucher") continue;
      std::string h = "\n" + r[i].headers; for (auto &ch : h) ch = (char)tolower(ch);
      size_t n = 0, p = 0, at = 0; while ((p = h.find("\ncontent-type:", p)) != std::string::npos) at = p, n++, p++;
      if (n != 1 || h.substr(at, 40).find("text/plain") == std::string::npos) vm("B05", role + " answered " + std::to_string(r[i].status) + " to a voucher request with " + (n == 1 ? "a content type other than plain text" : std::to_string(n) + " content types") + " (conn " + std::to_string(c->id) + ")");
      W->stats["plain_errors"]++;
    }
    const Line *l = nullptr; OpRes *res = nullptr;
    for (auto *o : W->ops) if (o->conn == c->id) { l = o->l; res = o; }
    bool untouched = soft() && !c->faulted && c->d[0].faults.empty() && c->d[1].faults.empty();
    if (untouched && q.size() > r.size() && !c->sp->exited && (!l || (!l->has("end") && !l->has("abortms"))) && W->stats["finished"]) {
      if (!(c->cp && c->cp->exited && c->cp->exitcode == 137) && !S->counts.count("slow_disk")) vm("B06", role + " left a complete request unanswered (conn " + std::to_string(c->id) + ")");
    }
    if (l && res && res->done && untouched && l->get("x") == "r" && res->status < 100) vm("B06,B07", role + " did not answer op" + std::to_string(l->id));
  }
  for (auto *r : W->ops) {
    if (r->proc || !r->done) continue;
    std::string w = r->l->get("xs");
    if (!w.empty() && soft() && std::to_string(r->status) != w) vm("B04,B06,B19,B21,B02,B03,B18", "op" + std::to_string(r->l->id) + " " + r->l->kind + " got status " + std::to_string(r->status) + ", expected " + w);
  }
}
// ------------------------------------------------------------------ logs: B15
static void ck_logs() {
  bool verbose = W->plan.s("verbose", "0") == "1";
  for (auto *p : S->procs) {
    if (!p->node || p->role == "lib") continue;
    bool v1 = std::find(p->args.begin(), p->args.end(), "-d") != p->args.end();
    if (!v1) { if (!p->err.empty()) vm("B15", p->role + " runs without -d but wrote to its log: " + p->err.substr(0, 100)); continue; }
    if (!verbose) continue;
    // positions of writes, to know when a line was completed
    size_t off = 0; std::vector<std::pair<size_t, const LogWrite *>> ends; size_t n = 0;
    for (auto &w : p->errw) { n += w.data.size(); ends.push_back({n, &w}); }
    std::string e = p->err; bool killed = p->exitcode == 137;
    int cnt = 0; size_t wi = 0;
    while (off < e.size()) {
      size_t nl = e.find('\n', off);
      if (nl == std::string::npos) { if (!killed && p->exited) vm("B15", p->role + ": incomplete last log line"); break; }
      std::string l = e.substr(off, nl - off);
      while (wi < ends.size() && ends[wi].first <= off) wi++;
      const LogWrite *w0 = wi < ends.size() ? ends[wi].second : nullptr;
      size_t wj = wi; while (wj < ends.size() && ends[wj].first <= nl) wj++;
      const LogWrite *w1 = wj < ends.size() ? ends[wj].second : w0;
      off = nl + 1;
      cnt++;
      int Y, M, D, h, m, s, ms, k = 0; char lev[16];
      std::string plain; for (size_t i = 0; i < l.size(); i++) { if (l[i] == 27) { size_t q = l.find('m', i); if (q == std::string::npos) break; i = q; } else plain += l[i]; }
      char file[256]; int line;
      bool okf = sscanf(plain.c_str(), "%4d-%2d-%2d %2d:%2d:%2d.%3d %15[A-Z] %255[^:]:%d: %n", &Y, &M, &D, &h, &m, &s, &ms, lev, file, &line, &k) == 10 && k > 0;
      static const char *levs[] = {"TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL"};
      bool okl = false; for (auto *x : levs) okl |= okf && !strcmp(x, lev);
      // no second header inside the line
      bool second = false;
      if (okf) { std::string rest = plain.substr(k); for (auto *x : levs) { size_t q = rest.find(std::string(" ") + x + " "); if (q != std::string::npos && rest.find(".cpp:") + rest.find(".c:") != 2 * std::string::npos && q >= 23 && rest[q - 4] == '.') second = true; } }
      if (!okf || !okl || second) { vm("B15", p->role + ": malformed log line: " + l.substr(0, 160)); break; }
      if (w0 && w1 && W->clk.count(p->host) == 0) { // the stamp is the moment of the call (local time)
        struct tm tm{}; tm.tm_year = Y - 1900; tm.tm_mon = M - 1; tm.tm_mday = D; tm.tm_hour = h; tm.tm_min = m; tm.tm_sec = s;
        int64_t t = (int64_t)timegm(&tm) - w1->tz, now = (S->epoch + w1->t + w1->off) / SEC, before = (S->epoch + w0->t + w0->off) / SEC;
        if (W->plan.s("logtime", "1") == "1" && (t > now + 1 || t < before - 30)) { vm("B15,B17", p->role + ": log line stamped " + plain.substr(0, 23) + " was written at " + iso_time(now)); break; }
      }
    }
    W->stats["log_lines"] += cnt;
  }
}

// ------------------------------------------------------------------ the end phase: B07, B20, B11
static bool cmd_done(OpRes *r) { return r->proc->exited; }
static void fresh_pledge(const std::string &when) {
  static std::vector<std::unique_ptr<Line>> keep;
  for (std::string k : {"preq", "sign"}) {
    auto l = std::make_unique<Line>(); l->t = 'o'; l->id = 900 + (int)keep.size(); l->ms = 0; l->kind = k; l->a = {{"p", W->plan.s("qp", "p7")}, {"host", "hquiet"}, {"v", "0"}};
    OpRes *r = run_cmd(*l);
    keep.push_back(std::move(l));
    bool done = wait_for([r]() { return cmd_done(r); }, 60 * SEC, 20 * MS);
    if (!done) vm("B07,B06,B12,B19", "after the faults stopped " + when + ", a fresh pledge's " + k + " did not finish within 60 s");
    else if (r->proc->exitcode != 0) vm("B07,B06,B12,B19", "after the faults stopped " + when + ", a fresh pledge's " + k + " failed (exit " + std::to_string(r->proc->exitcode) + ")");
    else W->stats["recovered"]++;
  }
}
// it gave up before serving because a file it needs could not be read then
static bool start_failed(Proc *p) {
  if (!p->exited || p->exitcode != 1 || p->t_end - p->t_start > SEC) return false;
  for (auto &fh : S->fhits) if (fh.pid == p->id) return true;
  for (int id : S->randhits) if (id == p->id) return true;
  for (auto &m : W->missing) if (m.first == p->host && p->t_end >= m.second.first && p->t_start <= m.second.second) return true;
  return false;
}
void leak_phase();
void quiet_phase() {
  Plan &P = W->plan;
  if (P.s("leak") == "1") { leak_phase(); return; }
  // start-up checks
  for (std::string n : {"masa", "reg", "regb"}) {
    Server1 &s = server(n);
    if (!s.want) continue;
    std::string mut = P.s(n + ".cfgmut", "");
    if (mut.empty() && P.s(n + ".occupied") != "1" && P.s("startfault") != "1") continue;
    wait_for([&]() { return s.proc->exited || port_listening(host(n), srv_port(n)); }, 30 * SEC, 10 * MS);
    if (!s.proc->exited && P.s(n + ".occupied") != "1" && port_listening(host(n), srv_port(n))) W->stats["probe_" + n] = 1;
  }
  if (P.s("quiet", "1") == "0" || P.s("qskip") == "1") return;
  heal_all(); W->healed = true;
  for (auto &f : W->restore) f();
  S->k.losspm = 0; S->k.eintr = 0; S->k.window = std::max(S->k.window, 16384); S->k.maxseg = std::max(S->k.maxseg, 536);
  S->randfaults.clear();
  for (auto &f : S->ffaults) f.count = f.fired; // no more file faults
  for (auto &f : cfaults) f.used = true;
  for (auto &c : conns) for (int d = 0; d < 2; d++) for (auto &f : c->d[d].faults) f->used = true;
  for (auto &e : S->hosts) {
    Host *h = e.second;
    h->disk_free = -1; h->slow_disk = 0;
    if (h->clock_off) { if (W->clk[h].empty()) W->clk[h].push_back({0, h->clock_off}); h->clock_off = 0; W->clk[h].push_back({S->now, 0}); }
  }
  for (auto &c : conns) for (int d = 0; d < 2; d++) c->d[d].stall_until = std::min(c->d[d].stall_until, S->now);
  W->faulty = true;
  for (std::string n : {"masa", "reg", "regb"}) {
    Server1 &s = server(n);
    if (!s.want) continue;
    s.proc->fdlimit = 1024; s.proc->fail_at = -1; s.proc->kill_bb = -1; s.proc->thread_fail = -1;
    if (s.proc->paused_until > S->now) sleep_until(s.proc->paused_until);
    if (s.proc->exited && (s.proc->exitcode == 137 || start_failed(s.proc))) start_server(n, true);
  }
  // connections that clients abandoned time out within this period
  sleep_for((P.s("settle") != "" ? atoi(P.s("settle").c_str()) : 12) * SEC);
  if (P.s("masa", "node") == "node" && P.s("reg", "node") == "node") fresh_pledge("");
}

void evaluate() {
  Plan &P = W->plan;
  for (auto &e : S->hosts) { auto &c = W->clk[e.second]; if (c.empty()) W->clk.erase(e.second); }
  // offsets before the first change
  clean = P.s("clean") == "1";
  collect();
  ck_registrar();
  ck_masa();
  ck_enrol();
  ck_commands();
  ck_filefaults();
  ck_servers();
  ck_logs();
}
} // namespace world
