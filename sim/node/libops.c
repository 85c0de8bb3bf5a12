/* Library entry points of the program, driven by the simulator (linked into the program image). */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include "array.h"
#include "crypto.h"
#include "keyvalue.h"
#include "serialize.h"
#include "voucher.h"

void sl_window(int on);                          /* allocation failures active while on */
void sl_emit(const char *tag, const void *p, size_t n);

struct in { const uint8_t *p; size_t n; };
struct inputs { struct in v[24]; };
#define ARR(k) struct BinaryArray k = {(uint8_t *)in->v[k##_].p, in->v[k##_].n}
enum { scert_, skey_, rtls_, nonce_, ser_, cms_, issuer_, json_, cert_, key_, mcert_, mkey_, pin_, msg_, subj_ };

static struct BinaryArrayList *mklist(const struct in *v) { /* count, then (len, bytes)* */
  struct BinaryArrayList *l = init_array_list();
  size_t o = 0;
  while (o + 4 <= v->n) {
    uint32_t k;
    memcpy(&k, v->p + o, 4);
    o += 4;
    push_array_list(l, (uint8_t *)v->p + o, k, 0);
    o += k;
  }
  return l;
}
static void emit_arr(const char *t, const struct BinaryArray *a) { sl_emit(t, a->array, a->length); }
static void emit_list(const char *t, struct BinaryArrayList *l) {
  struct BinaryArrayList *e = NULL;
  dl_list_for_each(e, &l->list, struct BinaryArrayList, list) sl_emit(t, e->arr, e->length);
}
static int pin_cb(const char *serial, const struct BinaryArrayList *certs, void *ctx, struct BinaryArray *out) {
  (void)serial; (void)certs;
  return copy_binary_array(out, (const struct BinaryArray *)ctx);
}
/* returns 1 success, 0 failure */
int sl_run(int fn, struct inputs *in, struct in *lists /* add, vcerts, vstore, pcerts, pstore */) {
  struct BinaryArrayList *add = mklist(&lists[0]), *vc = mklist(&lists[1]), *vs = mklist(&lists[2]), *pc = mklist(&lists[3]), *ps = mklist(&lists[4]);
  ARR(scert); ARR(skey); ARR(rtls); ARR(nonce); ARR(cms); ARR(issuer); ARR(json); ARR(cert); ARR(key); ARR(mcert); ARR(mkey); ARR(pin); ARR(msg);
  const char *ser = (const char *)in->v[ser_].p;
  struct tm tm;
  memset(&tm, 0, sizeof tm);
  tm.tm_year = 127; tm.tm_mon = 0; tm.tm_mday = 15; tm.tm_hour = 8; tm.tm_min = 1; tm.tm_sec = 2;
  struct BinaryArray *np = nonce.length ? &nonce : NULL;
  int ok = 0;
  struct BinaryArray *out = NULL;
  switch (fn) {
  case 0:
    sl_window(1);
    out = sign_pledge_voucher_request(&tm, ser, np, &rtls, &scert, &skey, add);
    sl_window(0);
    break;
  case 1:
    sl_window(1);
    out = sign_voucher_request(&cms, &tm, ser, &issuer, &rtls, &scert, &skey, pc, ps, add);
    sl_window(0);
    break;
  case 2:
    sl_window(1);
    out = sign_masa_pledge_voucher(&cms, &tm, pin_cb, &pin, &mcert, &mkey, vc, vs, pc, ps, add);
    sl_window(0);
    break;
  case 3: {
    struct BinaryArray res = {NULL, 0};
    struct BinaryArrayList *oc = NULL;
    sl_window(1);
    int r = verify_masa_pledge_voucher(&cms, ser, np, &rtls, NULL, vc, vs, &oc, &res);
    sl_window(0);
    ok = r == 0;
    if (ok) { emit_arr("pin", &res); if (oc) emit_list("oc", oc); free_binary_array_content(&res); }
    free_array_list(oc); // the caller owns the list, also after a failure
    break;
  }
  case 4: {
    sl_window(1);
    struct Voucher *v = deserialize_voucher(json.array, json.length);
    char *s = v ? serialize_voucher(v) : NULL;
    sl_window(0);
    ok = v && s;
    if (ok) sl_emit("json", s, strlen(s));
    free(s);
    if (v) free_voucher(v);
    break;
  }
  case 5: {
    struct BinaryArrayList *oc = NULL;
    sl_window(1);
    struct Voucher *v = verify_cms_voucher(&cms, vc, vs, &oc);
    sl_window(0);
    ok = v != NULL;
    if (ok) { char *s = serialize_voucher(v); sl_emit("json", s, strlen(s)); free(s); if (oc) emit_list("oc", oc); free_voucher(v); }
    free_array_list(oc);
    break;
  }
  case 6: {
    sl_window(1);
    struct Voucher *v = init_voucher();
    int e = v ? 0 : -1;
    enum VoucherAssertions as = VOUCHER_ASSERTION_LOGGED;
    if (!e) e = set_attr_voucher(v, ATTR_CREATED_ON, &tm) < 0 || set_attr_voucher(v, ATTR_SERIAL_NUMBER, ser) < 0 || set_attr_voucher(v, ATTR_ASSERTION, as) < 0 ||
                (np && set_attr_voucher(v, ATTR_NONCE, np) < 0) || set_attr_voucher(v, ATTR_PINNED_DOMAIN_CERT, &pin) < 0 || set_attr_voucher(v, ATTR_DOMAIN_CERT_REVOCATION_CHECKS, false) < 0;
    if (!e) e = set_attr_voucher(v, ATTR_SERIAL_NUMBER, "other") < 0 || clear_attr_voucher(v, ATTR_SERIAL_NUMBER) < 0 || set_attr_voucher(v, ATTR_SERIAL_NUMBER, ser) < 0 || set_attr_voucher(v, ATTR_PINNED_DOMAIN_CERT, &rtls) < 0 || clear_attr_voucher(v, ATTR_CREATED_ON) < 0;
    out = e ? NULL : sign_cms_voucher(v, &scert, &skey, add);
    sl_window(0);
    if (v) free_voucher(v);
    break;
  }
  case 7: {
    uint8_t *o = NULL;
    sl_window(1);
    ssize_t n = crypto_sign_cms(msg.array, msg.length, scert.array, scert.length, skey.array, skey.length, add, &o);
    sl_window(0);
    ok = n >= 0;
    if (ok) { sl_emit("cms", o, (size_t)n); free(o); }
    break;
  }
  case 8: {
    uint8_t *k = NULL, *c = NULL;
    char bc[] = "CA:false";
    struct keyvalue_list *is, *su;
    sl_window(1);
    is = init_keyvalue_list();
    su = init_keyvalue_list();
    int e = !is || !su || push_keyvalue_list(is, "C", "IE") < 0 || push_keyvalue_list(is, "CN", "issuer") < 0 || push_keyvalue_list(su, "CN", "subject") < 0 || push_keyvalue_list(su, "serialNumber", (char *)ser) < 0;
    struct crypto_cert_meta m;
    memset(&m, 0, sizeof m);
    m.serial_number = 77; m.not_after = 1234567; m.issuer = is; m.subject = su; m.basic_constraints = bc;
    ssize_t kn = e ? -1 : crypto_generate_eckey(&k), cn = kn < 0 ? -1 : crypto_generate_eccert(&m, k, (size_t)kn, &c);
    ssize_t sn = cn < 0 ? -1 : crypto_sign_cert(mkey.array, mkey.length, mcert.array, mcert.length, (size_t)cn, &c);
    sl_window(0);
    ok = sn >= 0;
    if (ok) { sl_emit("newkey", k, (size_t)kn); sl_emit("newcert", c, (size_t)sn); }
    if (kn >= 0) free(k);
    if (cn >= 0) free(c);
    if (is) free_keyvalue_list(is);
    if (su) free_keyvalue_list(su);
    break;
  }
  case 9: {
    struct crypto_cert_meta m;
    memset(&m, 0, sizeof m);
    sl_window(1);
    m.issuer = init_keyvalue_list();
    m.subject = init_keyvalue_list();
    CRYPTO_CERT x = m.issuer && m.subject ? crypto_cert2context(cert.array, cert.length) : NULL;
    int e = x ? crypto_getcert_meta(x, &m) : -1;
    struct BinaryArray *is = e < 0 ? NULL : crypto_getcert_issuer(x), *cb = is ? crypto_cert2buf(x) : NULL;
    char *s = cb ? crypto_getcert_serial(&m) : NULL;
    sl_window(0);
    ok = is && cb && s;
    if (ok) { emit_arr("issuer", is); emit_arr("cert", cb); sl_emit("serial", s, strlen(s)); char t[40]; sl_emit("num", t, (size_t)snprintf(t, sizeof t, "%lx", (long)m.serial_number)); }
    if (ok) { struct keyvalue_list *q = NULL; dl_list_for_each(q, &m.subject->list, struct keyvalue_list, list) { sl_emit("k", q->key, strlen(q->key)); sl_emit("v", q->value, strlen(q->value)); } }
    if (is) free_binary_array(is);
    if (cb) free_binary_array(cb);
    if (x) crypto_free_certcontext(x);
    if (m.issuer) free_keyvalue_list(m.issuer);
    if (m.subject) free_keyvalue_list(m.subject);
    break;
  }
  case 10: { /* codecs */
    uint8_t *o = NULL, *b = NULL;
    sl_window(1);
    ssize_t n = serialize_array2base64str(msg.array, msg.length, &o), k = n < 0 ? -1 : serialize_base64str2array(o, (size_t)n, &b);
    sl_window(0);
    ok = k >= 0;
    if (ok) { sl_emit("b64", o, (size_t)n); sl_emit("raw", b, (size_t)k); }
    if (n >= 0) free(o);
    if (k >= 0) free(b);
    break;
  }
  case 11: { /* lists and arrays */
    struct BinaryArray *a = NULL;
    sl_window(1);
    struct BinaryArrayList *l = init_array_list();
    int e = l ? 0 : 1;
    for (int i = 0; i < 5 && !e; i++) {
      uint8_t *c = malloc(16);
      if (!c) { e = 1; break; }
      memset(c, 'a' + i, 16);
      if (push_array_list(l, c, 16, 0) < 0) e = 1;
      free(c);
    }
    if (!e) { a = init_binary_array(); e = !a || copy_binary_array(a, &pin) < 0; }
    sl_window(0);
    ok = !e;
    if (ok) { emit_list("l", l); emit_arr("a", a); }
    if (a) free_binary_array(a);
    if (l) free_array_list(l);
    break;
  }
  }
  if (fn <= 2 || fn == 6) {
    ok = out != NULL;
    if (ok) { emit_arr("cms", out); free_binary_array(out); }
  }
  free_array_list(add); free_array_list(vc); free_array_list(vs); free_array_list(pc); free_array_list(ps);
  return ok;
}
