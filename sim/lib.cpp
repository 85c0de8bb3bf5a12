#include "lib.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <openssl/bio.h>
#include <openssl/cms.h>
#include <openssl/ec.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/x509v3.h>
#include <sys/socket.h>
#include <unistd.h>

using namespace sim;
namespace lib {
static std::map<std::string, Ident *> reg;
Ident *I(const std::string &n) {
  auto i = reg.find(n);
  if (i == reg.end()) { fprintf(stderr, "no identity %s\n", n.c_str()); ::abort(); }
  return i->second;
}
bool hasI(const std::string &n) { return reg.count(n); }
static std::string biostr(BIO *b) { char *p; long n = BIO_get_mem_data(b, &p); std::string s(p, n); BIO_free(b); return s; }

Ident *mkident(const std::string &name, const CertSpec &c) {
  auto *id = new Ident();
  id->name = name; id->issuer = c.issuer;
  if (c.key) { id->k = c.key; EVP_PKEY_up_ref(c.key); }
  else if (c.rsa) id->k = EVP_RSA_gen(2048);
  else id->k = EVP_EC_gen("P-256");
  X509 *x = id->x = X509_new();
  X509_set_version(x, 2);
  static long next = 1000;
  ASN1_INTEGER_set_uint64(X509_get_serialNumber(x), c.serial ? (uint64_t)c.serial : name == "p1" ? 0xfedcba9876543210ull : name == "p2" ? 0x123456789aull : name == "p5" ? 0x7fffffffull : (uint64_t)next++);
  const time_t ep = 1800000000;
  ASN1_TIME_set(X509_getm_notBefore(x), ep + c.nb * 86400);
  ASN1_TIME_set(X509_getm_notAfter(x), ep + c.na * 86400);
  X509_NAME *n = X509_get_subject_name(x);
  for (auto &s : c.subject) {
    X509_NAME_add_entry_by_txt(n, s.first.c_str(), s.second.find_first_of("\"\\\n\r") == std::string::npos ? MBSTRING_UTF8 : V_ASN1_UTF8STRING, (const unsigned char *)s.second.c_str(), -1, -1, 0);
    if (s.first == "serialNumber") id->serial = s.second;
  }
  X509_set_issuer_name(x, c.issuer ? X509_get_subject_name(c.issuer->x) : n);
  X509_set_pubkey(x, id->k);
  X509V3_CTX v; X509V3_set_ctx(&v, c.issuer ? c.issuer->x : x, x, nullptr, nullptr, 0);
  auto ext = [&](int nid, const char *val) {
    X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, &v, nid, val);
    if (e) { X509_add_ext(x, e, -1); X509_EXTENSION_free(e); }
  };
  ext(NID_basic_constraints, c.ca ? "critical,CA:TRUE" : "CA:FALSE");
  ext(NID_subject_key_identifier, "hash");
  if (c.issuer) ext(NID_authority_key_identifier, "keyid:always");
  if (!c.san.empty()) ext(NID_subject_alt_name, c.san.c_str());
  X509_sign(x, c.issuer ? c.issuer->k : id->k, EVP_sha256());
  unsigned char *o = nullptr;
  int l = i2d_X509(x, &o); id->der.assign((char *)o, l); OPENSSL_free(o);
  BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_X509(b, x); id->pem = biostr(b);
  b = BIO_new(BIO_s_mem()); PEM_write_bio_PrivateKey(b, id->k, nullptr, nullptr, 0, nullptr, nullptr); id->keypem = biostr(b);
  o = nullptr; l = i2d_PrivateKey(id->k, &o); id->keyder.assign((char *)o, l); OPENSSL_free(o);
  reg[name] = id;
  return id;
}

void build_pki() {
  auto ca = [](const std::string &n, const std::string &cn, Ident *iss = nullptr, int64_t nb = -365, int64_t na = 3650) {
    CertSpec c; c.subject = {{"C", "IE"}, {"CN", cn}}; c.issuer = iss; c.ca = true; c.nb = nb; c.na = na; return mkident(n, c); };
  auto ee = [](const std::string &n, const std::string &cn, Ident *iss, const std::string &sn = "", const std::string &san = "", int64_t nb = -365, int64_t na = 3650, bool rsa = false) {
    CertSpec c; c.subject = {{"C", "IE"}, {"CN", cn}}; if (!sn.empty()) c.subject.push_back({"serialNumber", sn});
    c.issuer = iss; c.san = san; c.nb = nb; c.na = na; c.rsa = rsa; return mkident(n, c); };
  ca("mfrca", "Mfr Root CA");
  ca("mfrint", "Mfr Issuing CA", I("mfrca"));
  for (int i = 0; i < 8; i++)
    ee("p" + std::to_string(i), "pledge " + std::to_string(i), I("mfrca"), "SN-" + std::to_string(1000 + i * 37), "", -365, 3650, i == 3);
  ee("pi0", "pledge under intermediate", I("mfrint"), "SN-7001");
  ee("pi1", "pledge under intermediate 1", I("mfrint"), "SN-7002");
  ee("pexp", "expired pledge", I("mfrca"), "SN-8001", "", -700, -1);
  ee("pfut", "future pledge", I("mfrca"), "SN-8002", "", 1, 3650);
  ee("pnosn", "pledge without serial", I("mfrca"));
  ee("pshort", "pledge valid one day", I("mfrca"), "SN-8003", "", -1, 1);
  // longer and prefix serial numbers
  ee("ppre", "prefix pledge", I("mfrca"), "SN-1000X");
  // separate CMS signing certificate for pledges (same CA)
  ee("p0cms", "pledge 0 cms", I("mfrca"), "SN-1000");
  // manufacturer MASA
  ca("masaca", "MASA CMS CA");
  ee("masacms", "MASA signer", I("masaca"));
  ca("masaint", "MASA Issuing CA", I("masaca"));
  ee("masacms2", "MASA signer two", I("masaint"));
  ee("masacmsexp", "MASA signer expired", I("masaca"), "", "", -700, -1);
  ca("masatlsca", "MASA TLS CA");
  ee("masatls", "masa.sim", I("masatlsca"), "", "DNS:masa.sim,IP:10.0.0.2");
  // registrar (domain A)
  ca("domca", "Domain A Registrar TLS CA");
  ee("regtls", "registrar.sim", I("domca"), "", "DNS:registrar.sim,IP:10.0.0.1");
  ee("regtls2", "registrar two", I("domca"), "", "IP:10.0.0.4");
  ca("regcmsca", "Domain A CMS CA");
  ee("regcms", "Registrar A signer", I("regcmsca"));
  ca("regcmsint", "Domain A CMS Issuing CA", I("regcmsca"));
  ee("regcms2", "Registrar A signer two", I("regcmsint"));
  ee("regcmsexp", "Registrar A signer expired", I("regcmsca"), "", "", -700, -1);
  ee("regtlsexp", "registrar expired", I("domca"), "", "IP:10.0.0.1", -700, -1);
  ee("regtlsshort", "registrar valid one day", I("domca"), "", "IP:10.0.0.1", -1, 1);
  ee("regtlsfut", "registrar future", I("domca"), "", "IP:10.0.0.1", 1, 3650);
  // domain B
  ca("dombca", "Domain B Registrar TLS CA");
  ee("regbtls", "registrar-b.sim", I("dombca"), "", "DNS:registrar-b.sim,IP:10.0.0.5");
  ca("regbcmsca", "Domain B CMS CA");
  ee("regbcms", "Registrar B signer", I("regbcmsca"));
  // rogue look-alikes: same names, other keys
  ca("rmfrca", "Mfr Root CA");
  ee("rp0", "pledge 0", I("rmfrca"), "SN-1000");
  ca("rdomca", "Domain A Registrar TLS CA");
  ee("rregtls", "registrar.sim", I("rdomca"), "", "DNS:registrar.sim,IP:10.0.0.1");
  ca("rmasaca", "MASA CMS CA");
  ee("rmasacms", "MASA signer", I("rmasaca"));
  ca("rregcmsca", "Domain A CMS CA");
  ee("rregcms", "Registrar A signer", I("rregcmsca"));
  ca("evilca", "Evil CA");
  ee("eviltls", "evil.sim", I("evilca"), "", "IP:10.0.0.9");
  ee("evil", "evil signer", I("evilca"), "SN-1000");
  { CertSpec c; c.subject = {{"C", "IE"}, {"CN", "selfsigned"}, {"serialNumber", "SN-1000"}}; mkident("selfp0", c); }
  // CA key used as a signer and an end entity with a CA-like role
  { CertSpec c; c.subject = {{"C", "IE"}, {"CN", "Mfr fake sub"}}; c.issuer = I("p0"); mkident("underp0", c); }
  // an issuing CA below another, RSA keys in every role, a domain CA with a large certificate
  ca("domint", "Domain A Issuing CA", I("domca"));
  auto rsaee = [](const std::string &n, const std::string &cn, Ident *iss, const std::string &san = "") { CertSpec c; c.subject = {{"C", "IE"}, {"CN", cn}}; c.issuer = iss; c.san = san; c.rsa = true; c.nb = -365; c.na = 3650; return mkident(n, c); };
  { CertSpec c; c.subject = {{"C", "IE"}, {"CN", "Domain A RSA CA"}}; c.ca = true; c.rsa = true; c.nb = -365; c.na = 3650; mkident("domrsaca", c); }
  { CertSpec c; c.subject = {{"C", "IE"}, {"CN", "Domain A large CA"}}; c.ca = true; c.rsa = true; c.nb = -365; c.na = 3650; for (int i = 0; i < 60; i++) c.san += std::string(i ? "," : "") + "DNS:name-" + std::to_string(i) + ".of.the.domain.with.many.names.example"; mkident("dombig", c); }
  rsaee("regcmsrsa", "Registrar A RSA signer", I("regcmsca"));
  rsaee("masacmsrsa", "MASA RSA signer", I("masaca"));
  rsaee("regtlsrsa", "registrar.sim", I("domca"), "DNS:registrar.sim,IP:10.0.0.1");
  rsaee("regtlsbig", "registrar.sim", I("dombig"), "DNS:registrar.sim,IP:10.0.0.1");
}

std::string b64(const std::string &s) {
  static const char *t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    unsigned v = (unsigned char)s[i] << 16 | (i + 1 < s.size() ? (unsigned char)s[i + 1] << 8 : 0) | (i + 2 < s.size() ? (unsigned char)s[i + 2] : 0);
    o += t[v >> 18]; o += t[v >> 12 & 63];
    o += i + 1 < s.size() ? t[v >> 6 & 63] : '=';
    o += i + 2 < s.size() ? t[v & 63] : '=';
  }
  return o;
}
bool unb64(const std::string &s, std::string *out) {
  out->clear();
  std::string q;
  for (char c : s) if (c != '\n' && c != '\r') q += c;
  if (q.size() % 4) return false;
  auto val = [](char c) -> int {
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    if (c == '+') return 62;
    if (c == '/') return 63;
    return -1;
  };
  for (size_t i = 0; i < q.size(); i += 4) {
    int pad = 0, v[4];
    for (int j = 0; j < 4; j++) {
      if (q[i + j] == '=' && i + 4 == q.size() && j >= 2) { pad++; v[j] = 0; }
      else { if (pad) return false; v[j] = val(q[i + j]); if (v[j] < 0) return false; }
    }
    unsigned x = v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3];
    *out += (char)(x >> 16);
    if (pad < 2) *out += (char)(x >> 8);
    if (pad < 1) *out += (char)x;
  }
  return true;
}
std::string hex(const std::string &s) { std::string o; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); o += b; } return o; }

// minimal strict JSON reader for {"root":{...flat...}}
struct JP {
  const std::string &s; size_t i = 0; bool bad = false;
  void ws() { while (i < s.size() && strchr(" \t\r\n", s[i])) i++; }
  bool eat(char c) { ws(); if (i < s.size() && s[i] == c) { i++; return true; } return false; }
  std::string str() {
    ws(); std::string o;
    if (i >= s.size() || s[i] != '"') { bad = true; return o; }
    i++;
    while (i < s.size() && s[i] != '"') {
      char c = s[i++];
      if (c == '\\' && i < s.size()) {
        char e = s[i++];
        switch (e) {
          case 'n': o += '\n'; break; case 't': o += '\t'; break; case 'r': o += '\r'; break;
          case 'b': o += '\b'; break; case 'f': o += '\f'; break;
          case 'u': { if (i + 4 > s.size()) { bad = true; return o; } unsigned v = strtoul(s.substr(i, 4).c_str(), nullptr, 16); i += 4; o += (char)v; break; }
          default: o += e;
        }
      } else o += c;
    }
    if (i >= s.size()) { bad = true; return o; }
    i++;
    return o;
  }
};
Json parse_voucher(const std::string &t) {
  Json j; JP p{t};
  if (!p.eat('{')) return j;
  if (p.str() != "ietf-voucher:voucher" || p.bad || !p.eat(':') || !p.eat('{')) return j;
  if (!p.eat('}')) {
    do {
      std::string k = p.str();
      if (p.bad || !p.eat(':')) return j;
      p.ws();
      if (p.i < t.size() && t[p.i] == '"') { j.isstr[k] = true; j.kv.push_back({k, p.str()}); }
      else { std::string v; while (p.i < t.size() && !strchr(",}] \n\t\r", t[p.i])) v += t[p.i++]; j.isstr[k] = false; j.kv.push_back({k, v}); if (v.empty()) return j; }
      if (p.bad) return j;
    } while (p.eat(','));
    if (!p.eat('}')) return j;
  }
  if (!p.eat('}')) return j;
  p.ws();
  j.ok = p.i == t.size();
  return j;
}
std::string VDoc::json(const char *root) const {
  std::string o = std::string("{\"") + root + "\":{";
  bool first = true;
  for (auto &e : kv) { if (!first) o += ","; first = false; o += "\"" + e.first + "\":" + e.second; }
  return o + "}}";
}
// form: other encodings and shapes of the same message, valid and invalid
std::string cms_sign(const std::string &data, Ident *s, const std::vector<Ident *> &extra, bool nocerts, const std::string &form, Ident *second) {
  BIO *in = BIO_new_mem_buf(data.data(), (int)data.size());
  STACK_OF(X509) *st = sk_X509_new_null();
  for (auto *e : extra) sk_X509_push(st, e->x);
  unsigned fl = CMS_BINARY | CMS_NOSMIMECAP;
  if (nocerts || form == "nocerts") fl |= CMS_NOCERTS;
  if (form == "noattr") fl |= CMS_NOATTR;
  if (form == "keyid") fl |= CMS_USE_KEYID;
  if (form == "detached") fl |= CMS_DETACHED;
  CMS_ContentInfo *c = nullptr;
  if (form == "data") c = CMS_data_create(in, fl);
  else if (form == "digest") c = CMS_digest_create(in, EVP_sha256(), fl);
  else if (form == "nosig") {
    c = CMS_sign(nullptr, nullptr, st, in, fl | CMS_PARTIAL);
    if (c) { CMS_add1_cert(c, s->x); CMS_final(c, in, nullptr, fl); }
  } else if (form == "two" || form == "twoorder" || form == "sha512" || form == "sha1" || form == "etype") {
    c = CMS_sign(nullptr, nullptr, st, in, fl | CMS_PARTIAL);
    if (c) {
      if (form == "etype") CMS_set1_eContentType(c, OBJ_nid2obj(NID_id_smime_ct_TSTInfo));
      if (form == "twoorder" && second) CMS_add1_signer(c, second->x, second->k, EVP_sha256(), fl);
      CMS_add1_signer(c, s->x, s->k, form == "sha512" ? EVP_sha512() : form == "sha1" ? EVP_sha1() : EVP_sha256(), fl);
      if (form == "two" && second) CMS_add1_signer(c, second->x, second->k, EVP_sha384(), fl);
      CMS_final(c, in, nullptr, fl);
    }
  } else c = CMS_sign(s->x, s->k, st, in, fl);
  BIO_free(in); sk_X509_free(st);
  if (!c) { ERR_clear_error(); return ""; }
  std::string r;
  if (form == "ndef") {
    BIO *o = BIO_new(BIO_s_mem());
    BIO *in2 = BIO_new_mem_buf(data.data(), (int)data.size());
    CMS_ContentInfo_free(c);
    c = CMS_sign(s->x, s->k, nullptr, in2, fl | CMS_STREAM);
    if (c && i2d_CMS_bio_stream(o, c, in2, fl | CMS_STREAM)) { char *d; long n = BIO_get_mem_data(o, &d); r.assign(d, n); }
    BIO_free(o); BIO_free(in2);
  } else {
    unsigned char *o = nullptr; int l = i2d_CMS_ContentInfo(c, &o);
    r.assign((char *)o, l > 0 ? l : 0);
    OPENSSL_free(o);
  }
  CMS_ContentInfo_free(c);
  ERR_clear_error();
  return r;
}
bool cms_verify(const std::string &der, const std::vector<Ident *> &anchors, const std::vector<Ident *> &inter, int64_t t, std::string *content, std::string *signer) {
  const unsigned char *p = (const unsigned char *)der.data();
  CMS_ContentInfo *c = d2i_CMS_ContentInfo(nullptr, &p, (long)der.size());
  if (!c) { ERR_clear_error(); return false; }
  X509_STORE *st = X509_STORE_new();
  for (auto *a : anchors) X509_STORE_add_cert(st, a->x);
  X509_VERIFY_PARAM *vp = X509_STORE_get0_param(st);
  X509_VERIFY_PARAM_set_time(vp, (time_t)t);
  STACK_OF(X509) *ic = sk_X509_new_null();
  for (auto *a : inter) sk_X509_push(ic, a->x);
  for (auto *a : inter) if (!CMS_add1_cert(c, a->x)) ERR_clear_error();
  BIO *o = BIO_new(BIO_s_mem());
  bool ok = CMS_verify(c, ic, st, nullptr, o, anchors.empty() ? CMS_NO_SIGNER_CERT_VERIFY : 0) == 1;
  if (ok && content) { char *d; long n = BIO_get_mem_data(o, &d); content->assign(d, n); }
  if (ok && signer) {
    STACK_OF(X509) *sg = CMS_get0_signers(c);
    if (sg && sk_X509_num(sg) > 0) { unsigned char *b = nullptr; int l = i2d_X509(sk_X509_value(sg, 0), &b); signer->assign((char *)b, l); OPENSSL_free(b); }
    sk_X509_free(sg);
  }
  BIO_free(o); sk_X509_free(ic); X509_STORE_free(st); CMS_ContentInfo_free(c);
  ERR_clear_error();
  return ok;
}
static X509 *derx(const std::string &d) { const unsigned char *p = (const unsigned char *)d.data(); X509 *x = d2i_X509(nullptr, &p, (long)d.size()); ERR_clear_error(); return x; }
bool chain_ok(const std::string &certder, const std::vector<std::string> &anchors, int64_t t, bool check_time) {
  X509 *x = derx(certder);
  if (!x) return false;
  X509_STORE *st = X509_STORE_new();
  for (auto &a : anchors) { X509 *y = derx(a); if (y) { X509_STORE_add_cert(st, y); X509_free(y); } }
  X509_VERIFY_PARAM *vp = X509_STORE_get0_param(st);
  unsigned long fl = X509_V_FLAG_PARTIAL_CHAIN;
  if (!check_time) fl |= X509_V_FLAG_NO_CHECK_TIME;
  X509_VERIFY_PARAM_set_flags(vp, fl);
  if (check_time) X509_VERIFY_PARAM_set_time(vp, (time_t)t);
  X509_STORE_CTX *c = X509_STORE_CTX_new();
  X509_STORE_CTX_init(c, st, x, nullptr);
  bool ok = X509_verify_cert(c) == 1;
  if (!ok) sim::tr("chain_ok: %s (%zu bytes)", X509_verify_cert_error_string(X509_STORE_CTX_get_error(c)), certder.size());
  X509_STORE_CTX_free(c); X509_STORE_free(st); X509_free(x);
  ERR_clear_error();
  return ok;
}
std::string iso_time(int64_t t) {
  struct tm tm; time_t x = t; gmtime_r(&x, &tm);
  char b[64]; strftime(b, sizeof b, "%Y-%m-%dT%H:%M:%SZ", &tm); return b;
}
int64_t parse_iso(const std::string &s) {
  struct tm tm{}; char z = 0; int n = 0;
  if (sscanf(s.c_str(), "%4d-%2d-%2dT%2d:%2d:%2d%c%n", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &z, &n) != 7 || z != 'Z' || n != (int)s.size()) return -1;
  tm.tm_year -= 1900; tm.tm_mon -= 1;
  int64_t t = timegm(&tm);
  return t >= 0 && iso_time(t) == s ? t : -1; // nothing that is no date of the calendar
}
int64_t parse_instant(const std::string &s) {
  int h, m;
  if (s.size() != 25 || (s[19] != '+' && s[19] != '-') || s[22] != ':' || sscanf(s.c_str() + 20, "%2d:%2d", &h, &m) != 2) return parse_iso(s);
  int64_t t = parse_iso(s.substr(0, 19) + "Z");
  return t < 0 ? t : t - (s[19] == '+' ? 1 : -1) * (h * 3600 + m * 60);
}
std::string subject_serial(const std::string &d) {
  X509 *x = derx(d); if (!x) return "";
  X509_NAME *n = X509_get_subject_name(x); int i = X509_NAME_get_index_by_NID(n, NID_serialNumber, -1);
  std::string r; unsigned char *u = nullptr;
  if (i >= 0 && ASN1_STRING_to_UTF8(&u, X509_NAME_ENTRY_get_data(X509_NAME_get_entry(n, i))) >= 0) r = (const char *)u;
  OPENSSL_free(u); ERR_clear_error();
  X509_free(x); return r;
}
std::string issuer_oneline(const std::string &d) {
  X509 *x = derx(d); if (!x) return "";
  BIO *b = BIO_new(BIO_s_mem()); X509_NAME_print_ex(b, X509_get_issuer_name(x), 0, XN_FLAG_ONELINE);
  X509_free(x); return biostr(b);
}
static std::string pubder(EVP_PKEY *k) { unsigned char *o = nullptr; int l = i2d_PUBKEY(k, &o); std::string r((char *)o, l > 0 ? l : 0); OPENSSL_free(o); return r; }
std::string pubkey_of_cert(const std::string &d) { X509 *x = derx(d); if (!x) return ""; std::string r = pubder(X509_get0_pubkey(x)); X509_free(x); return r; }
std::string pubkey_of_keypem(const std::string &pem) {
  BIO *b = BIO_new_mem_buf(pem.data(), (int)pem.size());
  EVP_PKEY *k = PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr);
  BIO_free(b); ERR_clear_error();
  if (!k) return "";
  std::string r = pubder(k); EVP_PKEY_free(k); return r;
}
bool pem_to_der_cert(const std::string &pem, std::string *der) {
  BIO *b = BIO_new_mem_buf(pem.data(), (int)pem.size());
  X509 *x = PEM_read_bio_X509(b, nullptr, nullptr, nullptr);
  BIO_free(b); ERR_clear_error();
  if (!x) return false;
  unsigned char *o = nullptr; int l = i2d_X509(x, &o); der->assign((char *)o, l); OPENSSL_free(o); X509_free(x);
  return true;
}
std::string cert_serial_hex(const std::string &d) {
  X509 *x = derx(d); if (!x) return "";
  BIGNUM *b = ASN1_INTEGER_to_BN(X509_get_serialNumber(x), nullptr);
  char *h = BN_bn2hex(b); std::string r = h; OPENSSL_free(h); BN_free(b); X509_free(x);
  return r;
}

// ---------------------------------------------------------------- http
static std::string lower(std::string s) { for (auto &c : s) c = (char)tolower(c); return s; }
std::string Http::header(const std::string &n) const {
  size_t i = 0; std::string want = lower(n);
  while (i < headers.size()) {
    size_t e = headers.find("\r\n", i); if (e == std::string::npos) e = headers.size();
    std::string l = headers.substr(i, e - i); size_t c = l.find(':');
    if (c != std::string::npos && lower(l.substr(0, c)) == want) { size_t v = l.find_first_not_of(" \t", c + 1); return v == std::string::npos ? "" : l.substr(v); }
    i = e + 2;
  }
  return "";
}
static bool body_of(Http &h, const std::string &s, size_t hdr, bool req) {
  std::string te = lower(h.header("Transfer-Encoding"));
  if (te == "chunked") {
    size_t i = hdr;
    for (;;) {
      size_t e = s.find("\r\n", i); if (e == std::string::npos) return false;
      size_t n = strtoul(s.substr(i, e - i).c_str(), nullptr, 16);
      i = e + 2;
      if (n > s.size() || i + n + 2 > s.size()) return false;
      if (n == 0) { h.used = i + 2; return true; }
      h.body += s.substr(i, n); i += n + 2;
    }
  }
  std::string cl = h.header("Content-Length");
  if (cl.empty()) {
    h.used = hdr;
    if (!req && h.status >= 200 && h.status != 204 && h.status != 304) { h.body = s.substr(hdr); h.used = s.size(); } // until close
    return true;
  }
  size_t n = strtoul(cl.c_str(), nullptr, 10);
  if (n > s.size() || s.size() < hdr + n) return false;
  h.body = s.substr(hdr, n); h.used = hdr + n;
  return true;
}
Http parse_request(const std::string &s, size_t off) {
  Http h; size_t e = s.find("\r\n\r\n", off); if (e == std::string::npos) return h;
  size_t l = s.find("\r\n", off); std::string line = s.substr(off, l - off);
  size_t a = line.find(' '), b = line.rfind(' '); if (a == std::string::npos || b <= a) return h;
  h.method = line.substr(0, a); h.path = line.substr(a + 1, b - a - 1); h.version = line.substr(b + 1);
  h.headers = l < e ? s.substr(l + 2, e - l - 2) : "";
  h.ok = body_of(h, s, e + 4, true);
  return h;
}
Http parse_response(const std::string &s, size_t off) {
  Http h; size_t e = s.find("\r\n\r\n", off); if (e == std::string::npos) return h;
  size_t l = s.find("\r\n", off); std::string line = s.substr(off, l - off);
  if (line.compare(0, 5, "HTTP/") || line.size() < 12) return h;
  h.status = atoi(line.c_str() + 9); h.version = line.substr(0, 8);
  h.headers = l < e ? s.substr(l + 2, e - l - 2) : "";
  h.ok = body_of(h, s, e + 4, false);
  return h;
}
std::vector<Http> parse_all(const std::string &s, bool req) {
  std::vector<Http> v; size_t off = 0;
  while (off < s.size()) {
    Http h = req ? parse_request(s, off) : parse_response(s, off);
    if (!h.ok || h.used <= off) break;
    // interim responses are not replies
    if (req || h.status != 100) v.push_back(h);
    off = h.used;
  }
  return v;
}

static std::map<std::string, SSL_SESSION *> sessions;
void forget_sessions() { for (auto &s : sessions) SSL_SESSION_free(s.second); sessions.clear(); }
static SSL_CTX *client_ctx(Ident *id, const std::vector<Ident *> &chain) {
  SSL_CTX *c = SSL_CTX_new(TLS_client_method());
  SSL_CTX_set_verify(c, SSL_VERIFY_NONE, nullptr);
  SSL_CTX_set_session_cache_mode(c, SSL_SESS_CACHE_OFF);
  if (id) { SSL_CTX_use_certificate(c, id->x); SSL_CTX_use_PrivateKey(c, id->k); for (auto *x : chain) { X509_up_ref(x->x); SSL_CTX_add_extra_chain_cert(c, x->x); } }
  return c;
}
bool Client::tcp(const std::string &ip, int port) {
  fd = ::socket(AF_INET, SOCK_STREAM, 0);
  if (fd < 0) return false;
  struct timeval tv; tv.tv_sec = timeout / SEC; tv.tv_usec = 0;
  setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  setsockopt(fd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof tv);
  sockaddr_in in{}; in.sin_family = AF_INET; in.sin_port = htons(port); inet_pton(AF_INET, ip.c_str(), &in.sin_addr);
  int r = ::connect(fd, (sockaddr *)&in, sizeof in);
  connid = conn_of_fd(fd);
  return r == 0;
}
bool Client::open(const std::string &ip, int port, Ident *id, const std::vector<Ident *> &chain) {
  if (!tcp(ip, port)) { close(); return false; }
  ctx = client_ctx(id, chain);
  if (tlsv == 2) SSL_CTX_set_max_proto_version(ctx, TLS1_2_VERSION);
  if (tlsv == 3) SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
  ssl = SSL_new(ctx);
  SSL_set_fd(ssl, fd);
  if (!sess.empty() && sessions.count(sess)) { SSL_set_session(ssl, sessions[sess]); resume_try = true; }
  int r;
  while ((r = SSL_connect(ssl)) <= 0 && SSL_get_error(ssl, r) == SSL_ERROR_WANT_READ && errno == EINTR) ;
  if (r != 1) { ERR_clear_error(); close(); return false; }
  resumed = SSL_session_reused(ssl);
  return true;
}
void Client::keep_session() {
  if (sess.empty() || !ssl) return;
  SSL_SESSION *x = SSL_get1_session(ssl);
  if (!x) return;
  if (!SSL_SESSION_is_resumable(x)) { SSL_SESSION_free(x); return; }
  auto &o = sessions[sess]; if (o) SSL_SESSION_free(o);
  o = x;
}
bool Client::write(const std::string &s) {
  if (!ssl) { size_t o = 0; while (o < s.size()) { ssize_t n = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL); if (n <= 0) return false; o += n; } return true; }
  size_t o = 0;
  while (o < s.size()) {
    int n = SSL_write(ssl, s.data() + o, (int)(s.size() - o));
    if (n <= 0) { if (SSL_get_error(ssl, n) == SSL_ERROR_WANT_WRITE && errno == EINTR) continue; ERR_clear_error(); return false; }
    o += n;
  }
  return true;
}
std::string Client::read_some() {
  char b[8192];
  for (int k = 0; k < 50; k++) {
    int n = ssl ? SSL_read(ssl, b, sizeof b) : (int)::recv(fd, b, sizeof b, 0);
    if (n > 0) return std::string(b, n);
    if (ssl && SSL_get_error(ssl, n) == SSL_ERROR_WANT_READ && errno == EINTR) continue;
    if (!ssl && n < 0 && errno == EINTR) continue;
    break;
  }
  ERR_clear_error();
  return "";
}
Http Client::response() {
  for (;;) {
    Http h = parse_response(buf);
    if (h.ok) { buf.erase(0, h.used); if (h.status == 100) continue; return h; }
    std::string s = read_some();
    if (s.empty()) { Http r; r.status = -1; return r; }
    buf += s;
  }
}
Http Client::request(const std::string &m, const std::string &path, const std::string &body, const std::string &ct, const std::string &extra) {
  std::string r = m + " " + path + " HTTP/1.1\r\nHost: sim\r\nUser-Agent: sim\r\nAccept: */*\r\n" + extra;
  if (m != "GET" || !body.empty()) r += "Content-Type: " + ct + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n";
  r += "\r\n" + body;
  Http h; h.status = -1;
  if (!write(r)) return h;
  return response();
}
std::string Client::peer_der() {
  if (!ssl) return "";
  X509 *x = SSL_get0_peer_certificate(ssl); if (!x) return "";
  unsigned char *o = nullptr; int l = i2d_X509(x, &o); std::string r((char *)o, l > 0 ? l : 0); OPENSSL_free(o); return r;
}
void Client::close() {
  if (ssl) { if (fd >= 0 && SSL_is_init_finished(ssl)) SSL_shutdown(ssl); SSL_free(ssl); ssl = nullptr; ERR_clear_error(); }
  if (ctx) { SSL_CTX_free(ctx); ctx = nullptr; }
  if (fd >= 0) { ::close(fd); fd = -1; }
}
void Client::abort() {
  if (fd >= 0) { ::close(fd); fd = -1; }
  if (ssl) { SSL_free(ssl); ssl = nullptr; }
  if (ctx) { SSL_CTX_free(ctx); ctx = nullptr; }
}
Http post(const std::string &ip, int port, Ident *id, const std::string &path, const std::string &body, int *connid, Time timeout) {
  Client c; c.timeout = timeout; Http h; h.status = -1;
  bool o = c.open(ip, port, id);
  if (connid) *connid = c.connid;
  if (!o) return h;
  return c.request("POST", path, body, "application/voucher-cms+json", "Connection: close\r\n");
}
std::string http_reply(int st, const std::string &body, const std::string &ct) {
  return "HTTP/1.1 " + std::to_string(st) + " X\r\nContent-Type: " + ct + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\nConnection: close\r\n\r\n" + body;
}
void Server::start(Host *h) {
  proc = new_proc(h, role);
  Server *self = this;
  spawn_thread(proc, role, [self]() {
    SSL_CTX *ctx = SSL_CTX_new(TLS_server_method());
    SSL_CTX_use_certificate(ctx, self->tls->x);
    SSL_CTX_use_PrivateKey(ctx, self->tls->k);
    SSL_CTX_set_session_cache_mode(ctx, SSL_SESS_CACHE_OFF);
    SSL_CTX_set_num_tickets(ctx, 0);
    SSL_CTX_set_verify(ctx, SSL_VERIFY_PEER, [](int, X509_STORE_CTX *) { return 1; });
    int l = ::socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in in{}; in.sin_family = AF_INET; in.sin_port = htons(self->port);
    if (::bind(l, (sockaddr *)&in, sizeof in) || ::listen(l, 64)) { tr("harness server cannot listen"); return; }
    for (;;) {
      int fd = ::accept(l, nullptr, nullptr);
      if (fd < 0) { if (errno == EINTR) continue; break; }
      Proc *p = cur->proc;
      spawn_thread(p, self->role + ".c", [self, ctx, fd]() {
        struct timeval tv{20, 0};
        setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
        SSL *ssl = SSL_new(ctx); SSL_set_fd(ssl, fd);
        int id = conn_of_fd(fd);
        int r;
        while ((r = SSL_accept(ssl)) <= 0 && SSL_get_error(ssl, r) == SSL_ERROR_WANT_READ && errno == EINTR) ;
        if (r == 1) {
          std::string cd;
          X509 *x = SSL_get0_peer_certificate(ssl);
          if (x) { unsigned char *o = nullptr; int n = i2d_X509(x, &o); cd.assign((char *)o, n); OPENSSL_free(o); }
          std::string buf; char b[8192];
          for (;;) {
            Http q = parse_request(buf);
            if (q.ok) {
              buf.erase(0, q.used);
              self->served++;
              std::string out;
              self->handler(q, cd, &out, id);
              size_t o = 0; bool bad = false;
              while (o < out.size()) { int n = SSL_write(ssl, out.data() + o, (int)(out.size() - o)); if (n <= 0) { if (SSL_get_error(ssl, n) == SSL_ERROR_WANT_WRITE && errno == EINTR) continue; bad = true; break; } o += n; }
              if (bad || out.empty() || out.find("Connection: close") != std::string::npos) break;
              continue;
            }
            int n = SSL_read(ssl, b, sizeof b);
            if (n > 0) { buf.append(b, n); continue; }
            if (SSL_get_error(ssl, n) == SSL_ERROR_WANT_READ && errno == EINTR) continue;
            break;
          }
          SSL_shutdown(ssl);
        }
        ERR_clear_error();
        SSL_free(ssl);
        ::close(fd);
      });
    }
  });
}
} // namespace lib
