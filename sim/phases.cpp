// Library calls under allocation failure (B14) and resource accounting over repeated rounds (B11).
#include "world.h"
#include <algorithm>
#include <cstring>
#include <dlfcn.h>
#include <openssl/cms.h>
#include <openssl/err.h>

namespace sim { std::map<std::string, int64_t> live_sites(Proc *p); extern bool account; }
struct SlIn { const uint8_t *p; size_t n; };
struct SlInputs { SlIn v[24]; };
typedef std::vector<std::pair<std::string, std::string>> Emitted;
static thread_local Emitted *g_emit = nullptr;
extern "C" __attribute__((visibility("default"))) void sl_window(int on) {
  using namespace sim;
  Proc *p = cproc();
  p->alloc_count_on = on;
}
extern "C" __attribute__((visibility("default"))) void sl_emit(const char *tag, const void *p, size_t n) {
  sim::InSim g;
  if (g_emit) g_emit->push_back({tag, std::string((const char *)p, n)});
}

namespace world {
void v(const std::string &prop, const char *fmt, ...);
std::string make_voucher(const std::string &serial, const std::string &nonce, bool has_nonce, const std::string &b, Rng &r, std::string *der_out);
static const char *FN[] = {"sign_pledge_voucher_request", "sign_voucher_request", "sign_masa_pledge_voucher", "verify_masa_pledge_voucher", "deserialize_voucher+serialize_voucher", "verify_cms_voucher", "voucher attributes+sign_cms_voucher", "crypto_sign_cms", "key and certificate generation+crypto_sign_cert", "crypto_getcert_meta+issuer+serial", "base64 codecs", "array lists"};
static const int NFN = 12;

// what a result says, independent of signature randomness
static std::string norm_cms(const std::string &der) {
  std::string c, signer;
  if (!cms_verify(der, {}, {}, 0, &c, &signer)) return "!BAD CMS";
  std::vector<std::string> certs;
  const unsigned char *p = (const unsigned char *)der.data();
  CMS_ContentInfo *ci = d2i_CMS_ContentInfo(nullptr, &p, (long)der.size());
  STACK_OF(X509) *st = ci ? CMS_get1_certs(ci) : nullptr;
  for (int i = 0; st && i < sk_X509_num(st); i++) { unsigned char *o = nullptr; int l = i2d_X509(sk_X509_value(st, i), &o); certs.push_back(std::string((char *)o, l)); OPENSSL_free(o); }
  sk_X509_pop_free(st, X509_free); CMS_ContentInfo_free(ci); ERR_clear_error();
  std::sort(certs.begin(), certs.end());
  // an embedded signed document is compared as is; the voucher text is the content
  std::string r = "content " + c + " signer " + hex(signer);
  for (auto &x : certs) r += " cert " + hex(x);
  return r;
}
static std::string normalise(const Emitted &e) {
  std::string r;
  std::string key;
  for (auto &x : e) {
    if (x.first == "cms") r += norm_cms(x.second);
    else if (x.first == "newkey") { const unsigned char *p = (const unsigned char *)x.second.data(); EVP_PKEY *k = d2i_AutoPrivateKey(nullptr, &p, (long)x.second.size()); ERR_clear_error(); if (!k) r += "!BAD KEY"; else { unsigned char *o = nullptr; int l = i2d_PUBKEY(k, &o); key.assign((char *)o, l); OPENSSL_free(o); EVP_PKEY_free(k); } }
    else if (x.first == "newcert") {
      const unsigned char *p = (const unsigned char *)x.second.data();
      X509 *c = d2i_X509(nullptr, &p, (long)x.second.size()); ERR_clear_error();
      if (!c) { r += "!BAD CERT"; continue; }
      r += pubkey_of_cert(x.second) == key ? "match " : "WRONG KEY ";
      r += subject_serial(x.second) + " " + issuer_oneline(x.second) + " " + cert_serial_hex(x.second) + " " + std::to_string(X509_verify(c, I("domca")->k));
      char b[256]; X509_NAME_oneline(X509_get_subject_name(c), b, sizeof b); r += b;
      r += " ca" + std::to_string(X509_check_ca(c));
      X509_free(c); ERR_clear_error();
    } else r += x.first + "=" + hex(x.second);
    r += "\n";
  }
  return r;
}
static void put_list(std::string *o, const std::string &ids) {
  for (auto *i : idlist(ids)) { uint32_t k = (uint32_t)i->der.size(); o->append((char *)&k, 4); *o += i->der; }
}
void lib_ops(const Line &l, OpRes *r) {
  Host *h = host("hlib");
  if (!h) h = add_host("hlib", "10.0.3.1");
  r->h = h;
  const Line *lp = &l;
  r->proc = spawn_node(h, "lib", {}, "", [lp, r]() -> int {
    const Line &l = *lp;
    Proc *p = cproc();
    auto run = (int (*)(int, SlInputs *, SlIn *))dlsym(p->inst->handle, "sl_run");
    std::vector<std::string> keep(24), lk(5);
    SlInputs in; SlIn lists[5];
    int fn = (int)l.num("fn") % NFN;
    {
      InSim g;
      std::string id = l.get("p", "p0"), body;
      Ident *pi = I(id);
      bool bad = l.get("bad") == "1";
      Rng rn; rn.seed(W->plan.seed * 91 + l.id);
      std::string nonce = l.get("nonce", "auto");
      if (nonce == "auto") { nonce.clear(); int n = 4 + (int)rn.below(28); for (int i = 0; i < n; i++) nonce += (char)rn.below(256); } else if (nonce == "none") nonce.clear();
      Line q; q.id = l.id; q.kind = "cpvr"; q.a = {{"p", id}, {"host", "hlib"}};
      if (l.has("add") && fn != 0) q.a["add"] = "mfrint";
      if (nonce.empty()) q.a["nonce"] = "none";
      std::string pvr, rvr;
      body_for(q, &pvr);
      q.kind = "crvr"; body_for(q, &rvr);
      std::string vou; { Rng r2; r2.seed(7); make_voucher(pi->serial, nonce, !nonce.empty(), bad ? "swapser" : "ok", r2, &vou); }
      Ident *sg = fn == 1 || fn == 7 ? I("regcms") : fn == 2 ? I("masacms") : pi;
      keep[0] = sg->der; keep[1] = sg->keyder; keep[2] = I("regtls")->der; keep[3] = nonce; keep[4] = pi->serial; keep[4].push_back('\0');
      keep[5] = fn == 1 || fn == 5 ? pvr : fn == 2 ? rvr : vou;
      keep[6] = "C = IE, CN = x";
      keep[7] = l.get("jsn") == "1" ? "{\"ietf-voucher:voucher\":{\"created-on\":\"2027-01-15T08:00:00Z\",\"nonce\":\"AAECAw==\",\"assertion\":\"proximity\",\"proximity-registrar-cert\":\"" + b64(I("regtls")->der) + "\",\"serial-number\":\"" + pi->serial + "\"}}"
                                    : "{\"ietf-voucher:voucher\":{\"created-on\":\"2027-01-15T08:00:00Z\",\"expires-on\":\"2031-01-15T08:00:00Z\",\"assertion\":\"logged\",\"serial-number\":\"" + pi->serial + "\",\"idevid-issuer\":\"AAEC\",\"pinned-domain-cert\":\"" + b64(I("domca")->der) + "\",\"domain-cert-revocation-checks\":true,\"nonce\":\"AAECAw==\",\"last-renewal-date\":\"2030-01-15T08:00:00Z\",\"prior-signed-voucher-request\":\"" + b64(pvr) + "\"}}";
      if (bad && fn == 4) keep[7].resize(keep[7].size() - 1 - rn.below(keep[7].size() / 2));
      keep[8] = pi->der; keep[9] = pi->keyder;
      Ident *mc = fn == 8 ? I("domca") : I("masacms");
      keep[10] = mc->der; keep[11] = mc->keyder; keep[12] = I("domca")->der;
      keep[13] = "message content " + nonce;
      for (int i = 0; i < 24; i++) in.v[i] = {(const uint8_t *)keep[i].data(), keep[i].size()};
      in.v[4].n = keep[4].size() - 1;
      if (l.has("add")) put_list(&lk[0], l.get("add"));
      std::string vstore = fn == 2 ? "regcmsca" : fn == 3 ? "masaca" : "mfrca";
      if (bad) vstore = fn == 3 ? vstore : "evilca";
      put_list(&lk[1], l.get("vc")); put_list(&lk[2], vstore + (l.has("vc") ? "+dombca" : ""));
      put_list(&lk[3], l.get("vc")); put_list(&lk[4], bad && fn == 1 ? "evilca" : "mfrca");
      for (int i = 0; i < 5; i++) lists[i] = {(const uint8_t *)lk[i].data(), lk[i].size()};
    }
    auto one = [&](int64_t k, Emitted *e, int64_t *n) -> int {
      { InSim g; ERR_clear_error(); p->alloc_ctr = 0; p->fail_at = k; p->fail_len = l.num("len", 1); p->alloc_fired = 0; e->clear(); g_emit = e; }
      int rc = run(fn, &in, lists);
      { InSim g; g_emit = nullptr; p->fail_at = -1; *n = p->alloc_ctr; ERR_clear_error(); }
      return rc;
    };
    Emitted e; int64_t n = 0; std::string base;
    int rc0 = one(-1, &e, &n);
    { InSim g; base = rc0 ? normalise(e) : ""; W->stats["lib_fn" + std::to_string(fn)]++; }
    if (base.find("!BAD ") != std::string::npos) { InSim g; v("B14", "%s reported success with a malformed result: %.200s", FN[fn], base.c_str()); }
    if (!rc0 && l.get("bad") != "1") { InSim g; v("B14", "%s failed although nothing was wrong (a valid request)", FN[fn]); }
    for (int w = 0; w < 2; w++) { int64_t l0 = p->live_n; one(-1, &e, &n); { InSim g; int64_t d = p->live_n - l0; if (w == 1 && d > 0) { int64_t l1 = p->live_n; one(-1, &e, &n); if (p->live_n > l1) v("B14", "%s leaks %ld allocations per call%s", FN[fn], (long)(p->live_n - l1), rc0 ? "" : " (on its failure path)"); } } }
    int64_t N = n, k = N ? l.num("from") % N : 0;
    W->stats["lib_allocs"] += N;
    for (int64_t c = 0; c < l.num("cnt", 12) && N > 0; c++, k = (k + l.num("step", 1)) % N) {
      int64_t l0 = p->live_n;
      int rc = one(k, &e, &n);
      int64_t fired = p->alloc_fired;
      InSim g;
      mix(fired * 31 + rc);
      if (!fired) continue;
      W->stats["lib_failures"]++;
      W->stats[rc ? "lib_survived" : "lib_failed"]++;
      if (rc && !rc0) v("B14", "%s succeeded with allocation %ld failing although it fails otherwise", FN[fn], (long)k);
      else if (rc) { std::string s = normalise(e); if (s != base) v("B14", "%s with allocation %ld failing reported success with a different result", FN[fn], (long)k); }
      if (p->live_n > l0) { // persistent?
        int64_t g1, g2;
        int64_t a = p->live_n;
        auto before = live_sites(p);
        cur->insim--; one(k, &e, &n); cur->insim++;
        g1 = p->live_n - a; a = p->live_n;
        cur->insim--; one(k, &e, &n); cur->insim++;
        g2 = p->live_n - a;
        auto after = live_sites(p);
        std::string sites; for (auto &s : after) if (s.second > before[s.first]) sites += " " + s.first;
        if (g1 > 0 && g2 > 0) v("B14", "%s with allocation %ld failing leaks %ld allocations (from%s)", FN[fn], (long)k, (long)g2, sites.c_str());
      }
    }
    int rc = one(-1, &e, &n);
    InSim g;
    if (rc != rc0 || (rc && normalise(e) != base)) v("B14", "%s does not work normally after allocation failures", FN[fn]);
    return 0;
  });
  r->proc->ncpu = 1;
}

// ------------------------------------------------------------------ B11
void start_op(const Line &l);
bool all_done();
static std::vector<std::unique_ptr<Line>> kept;
static void round_of(int copies) {
  for (auto &l : W->plan.lines) {
    if (l.t != 'o') continue;
    for (int c = 0; c < copies; c++) {
      start_op(l);
      if (copies == 1) { wait_for(all_done, 400 * SEC, 20 * MS); }
    }
  }
  wait_for(all_done, 400 * SEC, 20 * MS);
}
void leak_phase() {
  // pool threads are warmed up by concurrent work
  auto settle = []() { sleep_for(13 * SEC); };
  for (int i = 0; i < 2; i++) {
    for (auto *n : {"reg", "masa"}) {
      if (!server(n).want) continue;
      for (int c = 0; c < 8; c++) {
        auto l = std::make_unique<Line>(); l->t = 'o'; l->id = 700 + (int)kept.size(); l->ms = 0; l->kind = "cget"; l->a = {{"to", n}, {"tls", std::string(n) == "masa" ? "regtls" : "p5"}, {"m", "POST"}, {"path", "/.well-known/brski/voucher_status"}, {"holdms", "300"}, {"host", "w" + std::to_string(c)}};
        start_op(*l); kept.push_back(std::move(l));
      }
    }
    wait_for(all_done, 60 * SEC, 20 * MS);
    round_of(8);
    settle();
  }
  struct Q { int64_t n, b; size_t fds; int threads; };
  std::map<std::string, std::vector<Q>> h;
  std::map<std::string, std::map<std::string, int64_t>> s0;
  auto snap = [&]() { for (auto *n : {"reg", "masa"}) { Proc *p = server(n).proc; if (server(n).want && p && !p->exited) h[n].push_back({p->live_n, p->live_b, p->fds.size(), p->live_threads}); } };
  snap();
  for (auto *n : {"reg", "masa"}) if (server(n).want && !server(n).proc->exited) s0[n] = live_sites(server(n).proc);
  // A thread of the pool that takes its first request keeps some memory of the TLS library; there are 8 threads, hence growth
  // in 14 rounds in a row has another reason. The long series is only run when the short one is suspicious.
  int R = 6;
  for (int i = 0; i < R; i++) {
    round_of(1); settle(); snap();
    if (i + 1 == 6 && R == 6)
      for (auto &e : h) {
        int up = 0, fup = 0, tup = 0; auto &q = e.second;
        for (size_t k = 1; k < q.size(); k++) { up += q[k].n > q[k - 1].n; fup += q[k].fds > q[k - 1].fds; tup += q[k].threads > q[k - 1].threads; }
        if (up == 6 || fup == 6 || tup == 6) R = 14;
      }
  }
  for (auto &e : h) {
    auto &q = e.second;
    if ((int)q.size() < R + 1) continue;
    int up = 0, fup = 0, tup = 0;
    for (int i = 1; i <= R; i++) { up += q[i].n > q[i - 1].n; fup += q[i].fds > q[i - 1].fds; tup += q[i].threads > q[i - 1].threads; }
    std::string sites;
    if (up == R) {
      for (auto &s : live_sites(server(e.first).proc)) if (s.second - s0[e.first][s.first] >= R) sites += " " + s.first + ":+" + std::to_string(s.second - s0[e.first][s.first]);
      v("B11", "%s: live allocations grew in every one of %d repetitions of the same requests (%ld -> %ld, %ld bytes;%s)", e.first.c_str(), R, (long)q[0].n, (long)q[R].n, (long)(q[R].b - q[0].b), sites.c_str());
    }
    if (fup == R) v("B11", "%s: open descriptors grew in every one of %d repetitions (%zu -> %zu)", e.first.c_str(), R, q[0].fds, q[R].fds);
    if (tup == R) v("B11", "%s: threads grew in every one of %d repetitions", e.first.c_str(), R);
    W->stats["leak_rounds"] += R;
  }
}
} // namespace world
