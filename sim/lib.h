// Harness library: PKI fixtures, codecs, reference verification, TLS/HTTP peers.
#pragma once
#include "core.h"
#include <openssl/ssl.h>
#include <openssl/x509.h>

namespace lib {
using sim::Time;
struct Ident {
  std::string name, serial; // subject serialNumber
  std::string der, pem, keypem, keyder;
  X509 *x = nullptr;
  EVP_PKEY *k = nullptr;
  Ident *issuer = nullptr;
};
struct CertSpec {
  std::vector<std::pair<std::string, std::string>> subject;
  Ident *issuer = nullptr; // null: self-signed
  long serial = 0;
  int64_t nb = -365, na = 3650; // days relative to the epoch
  bool ca = false;
  bool rsa = false;
  std::string san;
  EVP_PKEY *key = nullptr; // reuse a key
};
Ident *mkident(const std::string &name, const CertSpec &c);
Ident *I(const std::string &name); // fixture by name
bool hasI(const std::string &name);
void build_pki();

// ---- codecs ----
std::string b64(const std::string &s);
bool unb64(const std::string &s, std::string *out); // strict after removing nothing
std::string hex(const std::string &s);
struct Json { // flat object of string/primitive members
  bool ok = false;
  std::vector<std::pair<std::string, std::string>> kv; // unescaped values
  std::map<std::string, bool> isstr;
  bool has(const std::string &k) const { for (auto &e : kv) if (e.first == k) return true; return false; }
  std::string get(const std::string &k) const { for (auto &e : kv) if (e.first == k) return e.second; return ""; }
  int count(const std::string &k) const { int n = 0; for (auto &e : kv) n += e.first == k; return n; }
};
Json parse_voucher(const std::string &text); // {"ietf-voucher:voucher":{...}}
struct VDoc { // content of a voucher document
  std::vector<std::pair<std::string, std::string>> kv; // value already JSON encoded text, e.g. "\"x\""
  std::string json(const char *root = "ietf-voucher:voucher") const;
  VDoc &s(const std::string &k, const std::string &v) { kv.push_back({k, "\"" + v + "\""}); return *this; }
  VDoc &b(const std::string &k, const std::string &v) { kv.push_back({k, "\"" + b64(v) + "\""}); return *this; }
  VDoc &raw(const std::string &k, const std::string &v) { kv.push_back({k, v}); return *this; }
};
std::string cms_sign(const std::string &data, Ident *signer, const std::vector<Ident *> &extra = {}, bool nocerts = false, const std::string &form = "", Ident *second = nullptr);
struct Cms { bool parsed = false; std::string content; std::vector<std::string> signer_certs; };
// Reference verification: every signer chains to one of the anchors (at time t, seconds)
bool cms_verify(const std::string &der, const std::vector<Ident *> &anchors, const std::vector<Ident *> &inter,
                int64_t t, std::string *content, std::string *signer_der = nullptr);
bool chain_ok(const std::string &certder, const std::vector<std::string> &anchors_der, int64_t t, bool check_time = true);
std::string iso_time(int64_t t);
int64_t parse_instant(const std::string &s); // also with "+HH:MM" instead of "Z"
int64_t parse_iso(const std::string &s); // "YYYY-MM-DDTHH:MM:SSZ" or -1
std::string subject_serial(const std::string &certder);
std::string issuer_oneline(const std::string &certder);
std::string pubkey_of_cert(const std::string &der);
std::string pubkey_of_keypem(const std::string &pem);
bool pem_to_der_cert(const std::string &pem, std::string *der);
std::string cert_serial_hex(const std::string &der);

// ---- http over tls ----
struct Http { bool ok = false; int status = 0; std::string method, path, version, body, headers; std::string header(const std::string &n) const; size_t used = 0; };
Http parse_request(const std::string &s, size_t off = 0);
Http parse_response(const std::string &s, size_t off = 0);
std::vector<Http> parse_all(const std::string &s, bool request);

struct Client { // harness TLS client running on a simulated thread
  SSL_CTX *ctx = nullptr; SSL *ssl = nullptr; int fd = -1; int connid = -1;
  Time timeout = 20 * sim::SEC;
  int tlsv = 0;          // highest TLS version offered: 2 or 3
  std::string sess;      // key of the session to resume and to store
  bool resumed = false, resume_try = false;
  bool open(const std::string &ip, int port, Ident *id, const std::vector<Ident *> &chain = {});
  bool tcp(const std::string &ip, int port);
  bool write(const std::string &s);
  std::string read_some(); // "" on eof/error
  Http request(const std::string &method, const std::string &path, const std::string &body, const std::string &ctype = "application/voucher-cms+json", const std::string &extra = "");
  Http response();
  std::string peer_der();
  void keep_session();
  void close();
  void abort(); // close without shutdown
  ~Client() { close(); }
  std::string buf;
};
void forget_sessions();
// one-shot POST; status -1 when no response
Http post(const std::string &ip, int port, Ident *id, const std::string &path, const std::string &body, int *connid = nullptr, Time timeout = 30 * sim::SEC);

struct Server { // harness TLS server
  std::string role; int port = 0; Ident *tls = nullptr; sim::Proc *proc = nullptr;
  std::function<void(const Http &req, const std::string &client_der, std::string *raw_response, int connid)> handler;
  int served = 0;
  void start(sim::Host *h);
};
std::string http_reply(int status, const std::string &body, const std::string &ctype = "application/voucher-cms+json");
} // namespace lib
