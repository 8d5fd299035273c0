// Script-driven driver for the signed-video-framework public API.
//
// Reads a script of API calls (see DESIGN.md, "driver script") from stdin, performs each call on the
// real library, and writes one JSON event per call: the call, its inputs as facts about the bytes
// that were passed in, and everything the public API lets a user observe. It contains its own NALU
// builder, SEI parser/encoder and signature check, so that no oracle comes from the code under test.
#include <assert.h>
#include <ctype.h>
#include <dirent.h>
#include <fcntl.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <openssl/x509.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "signed_video_auth.h"
#include "signed_video_common.h"
#include "signed_video_openssl.h"
#include "signed_video_sign.h"
#include "signed_video_signing_plugin.h"
#include "sv_vendor_axis_communications.h"
#include "mem.h"
#ifdef MOCK_PLUGIN
#include "mock_plugin.h"
#endif

// The calls in which an allocation may be made to fail (see "fault").
static long fault;
#define F(x) ({ mem_fail(fault); __auto_type r_ = (x); fault = mem_fail_left(); mem_fail(0); r_; })
#define signed_video_create(...) F(signed_video_create(__VA_ARGS__))
#define signed_video_set_private_key_new(...) F(signed_video_set_private_key_new(__VA_ARGS__))
#define signed_video_set_private_key(...) F(signed_video_set_private_key(__VA_ARGS__))
#define signed_video_set_product_info(...) F(signed_video_set_product_info(__VA_ARGS__))
#define sv_vendor_axis_communications_set_attestation_report(...) F(sv_vendor_axis_communications_set_attestation_report(__VA_ARGS__))
#define signed_video_add_nalu_for_signing(...) F(signed_video_add_nalu_for_signing(__VA_ARGS__))
#define signed_video_add_nalu_for_signing_with_timestamp(...) F(signed_video_add_nalu_for_signing_with_timestamp(__VA_ARGS__))
#define signed_video_add_nalu_part_for_signing_with_timestamp(...) F(signed_video_add_nalu_part_for_signing_with_timestamp(__VA_ARGS__))
#define signed_video_get_sei(...) F(signed_video_get_sei(__VA_ARGS__))
#define signed_video_get_nalu_to_prepend(...) F(signed_video_get_nalu_to_prepend(__VA_ARGS__))
#define signed_video_set_end_of_stream(...) F(signed_video_set_end_of_stream(__VA_ARGS__))
#define signed_video_reset(...) F(signed_video_reset(__VA_ARGS__))
#define signed_video_add_nalu_and_authenticate(...) F(signed_video_add_nalu_and_authenticate(__VA_ARGS__))
#define signed_video_get_authenticity_report(...) F(signed_video_get_authenticity_report(__VA_ARGS__))
#define signed_video_set_hash_algo(...) F(signed_video_set_hash_algo(__VA_ARGS__))
#define signed_video_set_public_key(...) F(signed_video_set_public_key(__VA_ARGS__))
#define signed_video_generate_golden_sei(...) F(signed_video_generate_golden_sei(__VA_ARGS__))
#define signed_video_is_golden_sei(...) F(signed_video_is_golden_sei(__VA_ARGS__))

typedef struct {
  uint8_t *d;
  size_t n, cap;
} buf_t;

static void bput(buf_t *b, const void *p, size_t n)
{
  if (b->n + n > b->cap) {
    b->cap = (b->n + n) * 2 + 64;
    b->d = __real_realloc(b->d, b->cap);  // not counted: the driver's own
  }
  if (n) memcpy(b->d + b->n, p, n);
  b->n += n;
}
static void bc(buf_t *b, int c)
{
  uint8_t x = (uint8_t)c;
  bput(b, &x, 1);
}
static void bfree(buf_t *b)
{
  __real_free(b->d);
  memset(b, 0, sizeof(*b));
}

// ---------------------------------------------------------------- JSON output
static int first_field;
static void jopen(void)
{
  putchar('{');
  first_field = 1;
}
static void jkey(const char *k)
{
  if (!first_field) putchar(',');
  first_field = 0;
  printf("\"%s\":", k);
}
static void jstrv(const char *v)
{
  putchar('"');
  for (; v && *v; v++) {
    unsigned char c = (unsigned char)*v;
    if (c == '"' || c == '\\') {
      putchar('\\');
      putchar(c);
    } else if (c < 0x20 || c > 0x7e) {
      printf("\\u%04x", c);
    } else {
      putchar(c);
    }
  }
  putchar('"');
}
static void js(const char *k, const char *v)
{
  jkey(k);
  jstrv(v);
}
static void ji(const char *k, long long v)
{
  jkey(k);
  if (v > 2000000000LL) v = 2000000000LL;
  if (v < -2000000000LL) v = -2000000000LL;
  printf("%lld", v);
}
static void jll(const char *k, long long v)
{
  jkey(k);
  printf("\"%lld\"", v);
}
static void jclose(void)
{
  puts("}");
  fflush(stdout);
}

// ---------------------------------------------------------------- keys
typedef struct {
  char name;
  char *priv, *pub;
  size_t priv_n, pub_n;
  EVP_PKEY *pk;
} pkey_t;
static pkey_t keys[3];
static char *slurp(const char *dir, char name, const char *ext, size_t *n)
{
  char path[512];
  snprintf(path, sizeof(path), "%s/%c.%s", dir, name, ext);
  FILE *f = fopen(path, "rb");
  if (!f) {
    fprintf(stderr, "cannot open %s\n", path);
    exit(3);
  }
  char *b = calloc(1, 8192);
  *n = fread(b, 1, 8191, f);
  fclose(f);
  return b;
}
static void load_keys(const char *dir)
{
  const char names[] = "ABR";
  for (int i = 0; i < 3; i++) {
    keys[i].name = names[i];
    keys[i].priv = slurp(dir, names[i], "pem", &keys[i].priv_n);
    keys[i].pub = slurp(dir, names[i], "pub", &keys[i].pub_n);
    BIO *bio = BIO_new_mem_buf(keys[i].priv, (int)keys[i].priv_n);
    keys[i].pk = PEM_read_bio_PrivateKey(bio, NULL, NULL, NULL);
    BIO_free(bio);
    if (!keys[i].pk) exit(3);
  }
}
// Attestation reports and certificate chains, and the root that takes the place of the vendor's (see below).
typedef struct {
  char name[16];
  char *d;
  size_t n;
} blob_t;
static blob_t atts[64], chains[64];
static int n_atts, n_chains;
static char *root_pem;
static X509 *root_x509, *vendor_root;

static char *slurp_file(const char *path, size_t *n)
{
  FILE *f = fopen(path, "rb");
  if (!f) exit(3);
  char *b = calloc(1, 16384);
  *n = fread(b, 1, 16383, f);
  fclose(f);
  return b;
}
static void load_att(const char *dir)
{
  char path[600];
  snprintf(path, sizeof(path), "%s/att", dir);
  DIR *dp = opendir(path);
  if (!dp) exit(3);
  for (struct dirent *e = readdir(dp); e; e = readdir(dp)) {
    char *dot = strrchr(e->d_name, '.');
    if (!dot || dot - e->d_name > 15) continue;
    int a = !strcmp(dot, ".att"), c = !strcmp(dot, ".chain");
    if (!a && !c) continue;
    blob_t *b = a ? &atts[n_atts++] : &chains[n_chains++];
    snprintf(b->name, sizeof(b->name), "%.*s", (int)(dot - e->d_name), e->d_name);
    snprintf(path, sizeof(path), "%s/att/%s", dir, e->d_name);
    b->d = slurp_file(path, &b->n);
  }
  closedir(dp);
  size_t n;
  snprintf(path, sizeof(path), "%s/att/root.pem", dir);
  root_pem = slurp_file(path, &n);
  BIO *bio = BIO_new_mem_buf(root_pem, (int)n);
  root_x509 = PEM_read_bio_X509(bio, NULL, NULL, NULL);
  BIO_free(bio);
  snprintf(path, sizeof(path), "%s/vendor-root.pem", dir);
  char *v = slurp_file(path, &n);
  bio = BIO_new_mem_buf(v, (int)n);
  vendor_root = PEM_read_bio_X509(bio, NULL, NULL, NULL);
  BIO_free(bio);
  free(v);
  if (!root_x509 || !vendor_root) exit(3);
}
static blob_t *blob_of(blob_t *b, int n, const char *name)
{
  for (int i = 0; i < n; i++)
    if (!strcmp(b[i].name, name)) return &b[i];
  return NULL;
}
// Nobody but the vendor can issue certificates under its root. Wherever the library reads the vendor's root, it gets
// the root of the test certificates; everything else it does with certificates is its own.
static X509 *swap_root(X509 *x)
{
  if (x && vendor_root && X509_cmp(x, vendor_root) == 0) {
    X509_free(x);
    X509_up_ref(root_x509);
    return root_x509;
  }
  return x;
}
X509 *__real_PEM_read_bio_X509(BIO *, X509 **, pem_password_cb *, void *);
X509 *__wrap_PEM_read_bio_X509(BIO *b, X509 **x, pem_password_cb *cb, void *u)
{
  return swap_root(__real_PEM_read_bio_X509(b, x, cb, u));
}
X509 *__real_PEM_read_bio_X509_AUX(BIO *, X509 **, pem_password_cb *, void *);
X509 *__wrap_PEM_read_bio_X509_AUX(BIO *b, X509 **x, pem_password_cb *cb, void *u)
{
  return swap_root(__real_PEM_read_bio_X509_AUX(b, x, cb, u));
}
X509 *__real_d2i_X509(X509 **, const unsigned char **, long);
X509 *__wrap_d2i_X509(X509 **x, const unsigned char **d, long n)
{
  return swap_root(__real_d2i_X509(x, d, n));
}

static pkey_t *key_of(char c)
{
  for (int i = 0; i < 3; i++)
    if (keys[i].name == c) return &keys[i];
  return NULL;
}

// ---------------------------------------------------------------- hashing
static const EVP_MD *md_of(const char *name)
{
  static char last[32];
  static const EVP_MD *md;
  if (!md || strcmp(last, name)) {
    md = EVP_get_digestbyname(name);
    if (!md) md = EVP_sha256();
    snprintf(last, sizeof(last), "%s", name);
  }
  return md;
}
static size_t H(const char *algo, const uint8_t *d, size_t n, uint8_t *out)
{
  unsigned len = 0;
  EVP_Digest(d, n, out, &len, md_of(algo), NULL);
  return len;
}

// ---------------------------------------------------------------- NALUs
// A picture/other NALU is named by (type char, content number); the bytes are a function of those.
// |hd|: the header and possibly the first bytes after it, in hex, instead of the usual ones. If it ends with
// a '!' nothing follows.
static void build_nalu(int h265, char t, int c, int sc, int style, const char *hd, buf_t *b)
{
  if (sc == 4) bput(b, "\0\0\0\1", 4);
  if (sc == 3) bput(b, "\0\0\1", 3);
  int hd_n = 0;
  if (hd) {
    unsigned x;
    for (; sscanf(hd, "%2x", &x) == 1; hd += 2, hd_n++) bc(b, (int)x);
    if (*hd == '!') return;
  } else if (!h265) {
    int hdr = 0x1f;
    switch (t) {
      case 'I': case 'i': hdr = 0x65; break;
      case 'P': case 'p': hdr = (c & 1) ? 0x41 : 0x01; break;
      case 'z': case 'Z': case 'y': hdr = 0x06; break;
      case 'v': hdr = (c & 1) ? 0x67 : 0x68; break;
      case '_': hdr = 0x09; break;
      case 'o': hdr = 0x0c; break;
      case 'U': hdr = (c & 1) ? 0x1f : 0x18; break;
      case 'X': hdr = 0xc1; break;  // picture with the forbidden bit set
    }
    bc(b, hdr);
  } else {
    int ty = 63;
    switch (t) {
      case 'I': case 'i': ty = 16 + (c % 6); break;
      case 'P': case 'p': ty = c & 1; break;
      case 'z': case 'Z': case 'y': ty = 39 + (c & 1); break;
      case 'v': ty = 32 + (c % 3); break;
      case '_': ty = 35; break;
      case 'o': ty = 38; break;
      case 'U': ty = (c & 1) ? 63 : 22; break;
      case 'X': ty = 0x40 | 1; break;
    }
    bc(b, ty << 1);
    bc(b, 0x01);
  }
  if (t == 'z') {  // some other user_data_unregistered SEI
    bc(b, 0x05);
    bc(b, 16 + 4);
    for (int i = 0; i < 16; i++) bc(b, 0xa0 + i);
    bc(b, 1 + (c >> 16 & 0x7f)); bc(b, 1 + (c >> 8 & 0x7f)); bc(b, (c & 0xff) | 0x100); bc(b, 0x11);
    bc(b, 0x80);
    return;
  }
  if (t == 'Z') {  // SEI of a different payload type
    bc(b, 0x01);
    bc(b, 0x03);
    bc(b, 1 + (c >> 8 & 0x7f)); bc(b, 0x20 | (c & 0xff)); bc(b, 0x11);
    bc(b, 0x80);
    return;
  }
  if (t == 'y') {  // SEI almost carrying the Signed Video UUID (last byte differs)
    bc(b, 0x05);
    bc(b, 16 + 4);
    bput(b, "\x53\x69\x67\x6e\x65\x64\x20\x56\x69\x64\x65\x6f\x2e\x2e\x2e\x31", 16);
    bc(b, 1 + (c >> 8 & 0x7f)); bc(b, 0x20 | (c & 0xff)); bc(b, 0x11); bc(b, 0x12);
    bc(b, 0x80);
    return;
  }
  int primary = (t == 'I' || t == 'P' || t == 'X');
  // |style| 4: more than 64 kB, all of it but the last bytes the same for every content number.
  int big = (style & 4) != 0;
  if (hd_n <= (h265 ? 2 : 1)) bc(b, (primary ? 0x80 : 0x00) | 0x08 | (big ? 0 : c & 7));
  if (big)
    for (int i = 0; i < 66000; i++) bc(b, 0x20 + ((i * 11) & 0x5f));
  bc(b, 0x40 | (c & 0x3f));
  bc(b, 0x40 | ((c >> 6) & 0x3f));
  bc(b, 0x40 | ((c >> 12) & 0x3f));
  if (style & 1) bput(b, "\x00\x00\x03\x01\x55\x00\x00\x03\x00\x00\x03\x02", 12);
  if (style & 2)
    for (int i = 0; i < 300; i++) bc(b, 0x20 + ((i * 7 + c) & 0x5f));
  bc(b, 0x80);
}
static int is_pic(char t) { return t == 'I' || t == 'i' || t == 'P' || t == 'p'; }

// ---------------------------------------------------------------- objects
typedef struct {
  char t;
  int c;
  int style;
  int grp;
  char hd[24];
  char sym[48];
  uint8_t h[64];
} cont_t;  // contents known in this scenario, with their hash under the scenario's algorithm

#define MAXC 4096
static cont_t conts[MAXC];
static int n_conts;
// Hashes already explained in this scenario.
static struct {
  uint8_t h[64];
  char sym[100];
} known[MAXC];
static int n_known;

static char scn_algo[32] = "sha256";
static int scn_h265;
// A scenario may have two groups of objects, 0..3 and 4..7, each with a hash algorithm and a codec of its own;
// |scn_algo| and |scn_h265| are those of the group at hand.
static char grp_algo[2][32];
static int grp_h265[2], scn_grp;
static void set_group(int g)
{
  scn_grp = g;
  strcpy(scn_algo, grp_algo[g]);
  scn_h265 = grp_h265[g];
}

#define MAXSEI 512
typedef struct {
  signed_video_t *sv;
  int used;
  int h265;
  char kind;
  // signer: sequence of hashable NALUs that were passed completely (index in conts)
  int hist[8192];
  int hist_hint;
  int n_hist;
  int pend;  // content of a NALU passed in parts
  buf_t sei[MAXSEI];
  int n_sei;
  // legacy signer: what its SEIs cover, and the GOP hash before the document is added to it
  struct legacy_s *leg;
} obj_t;
#define MAXLEG 600
typedef struct legacy_s {
  char key;
  int level, epb, gver, recur, prod, addpk;
  unsigned ctr;
  int ref;  // content that is the reference, or -1
  int has_ref;
  uint8_t h[MAXLEG][32];
  char names[MAXLEG][100];
  int n;
  struct {
    uint8_t pre[32];
    char *names;
  } cov[MAXSEI];
} legacy_t;
static void legacy_free(legacy_t *l)
{
  for (int i = 0; l && i < MAXSEI; i++) free(l->cov[i].names);
  free(l);
}
#define NOBJ 8
static obj_t objs[NOBJ];

static void scn_end(void)
{
  for (int i = 0; i < NOBJ; i++) {
    if (objs[i].sv) signed_video_free(objs[i].sv);
    for (int k = 0; k < objs[i].n_sei; k++) bfree(&objs[i].sei[k]);
    legacy_free(objs[i].leg);
    memset(&objs[i], 0, sizeof(obj_t));
  }
  n_conts = 0;
  n_known = 0;
  fault = 0;
  strcpy(scn_algo, "sha256");
#ifdef MOCK_PLUGIN
  mock_reset();
#endif
}

static int cont_idx(char t, int c, int style, const char *hd)
{
  for (int i = 0; i < n_conts; i++)
    if (conts[i].t == t && conts[i].c == c && conts[i].style == style && conts[i].grp == scn_grp && !strcmp(conts[i].hd, hd ? hd : ""))
      return i;
  if (n_conts == MAXC) exit(4);
  cont_t *k = &conts[n_conts];
  k->t = t;
  k->c = c;
  k->style = style;
  k->grp = scn_grp;
  snprintf(k->hd, sizeof(k->hd), "%s", hd ? hd : "");
  if (hd) snprintf(k->sym, sizeof(k->sym), "%c%s.%d", t, k->hd, strchr(hd, '!') ? 0 : c);
  else snprintf(k->sym, sizeof(k->sym), "%c%d", t, c);
  buf_t b = {0};
  build_nalu(scn_h265, t, c, 0, style, hd, &b);
  H(scn_algo, b.d, b.n, k->h);
  bfree(&b);
  return n_conts++;
}
static size_t hsz(void) { return (size_t)EVP_MD_get_size(md_of(scn_algo)); }

// Symbolic name of a hash found in a SEI: "0" (all zero), "I3" (plain hash of a NALU), "I1/P3" (hash of
// P3 with reference I1), "?" (not explainable by any NALU of the scenario).
static void sym_of(const uint8_t *h, char *out)
{
  size_t hs = hsz();
  static const uint8_t zero[64];
  if (!memcmp(h, zero, hs)) {
    strcpy(out, "0");
    return;
  }
  for (int i = 0; i < n_conts; i++)
    if (!memcmp(h, conts[i].h, hs)) {
      strcpy(out, conts[i].sym);
      return;
    }
  for (int i = 0; i < n_known; i++)
    if (!memcmp(h, known[i].h, hs)) {
      strcpy(out, known[i].sym);
      return;
    }
  for (int r = n_conts - 1; r >= -1; r--) {
    if (r >= 0 && conts[r].t != 'I') continue;
    for (int i = 0; i < n_conts; i++) {
      if (!is_pic(conts[i].t)) continue;
      uint8_t b[128], o[64];
      memcpy(b, r >= 0 ? conts[r].h : zero, hs);
      memcpy(b + hs, conts[i].h, hs);
      H(scn_algo, b, 2 * hs, o);
      if (!memcmp(o, h, hs)) {
        sprintf(out, "%s/%s", r >= 0 ? conts[r].sym : "0", conts[i].sym);
        if (n_known < MAXC) {
          memcpy(known[n_known].h, h, hs);
          strcpy(known[n_known++].sym, out);
        }
        return;
      }
    }
  }
  strcpy(out, "?");
}

// What identifies a NAL Unit: the codec, the first bytes after the start code and its size.
static void jhd(const buf_t *b, int h265)
{
  size_t p = 0;
  if (b->n > 4 && !memcmp(b->d, "\0\0\0\1", 4)) p = 4;
  else if (b->n > 3 && !memcmp(b->d, "\0\0\1", 3)) p = 3;
  jkey("hd");
  printf("[");
  for (size_t i = p; i < b->n && i < p + 3; i++) printf("%s%d", i > p ? "," : "", b->d[i]);
  printf("]");
  ji("cx", h265);
}

// ---------------------------------------------------------------- SEI parsing (independent)
typedef struct {
  int tag;
  int dl;  // added to the length when encoded
  buf_t v;
} tlv_t;
typedef struct {
  int ok;         // a Signed Video SEI that parses completely
  int is_sv;      // carries the Signed Video UUID
  int res;        // reserved byte
  int h265;
  uint8_t hdr[2];  // NAL Unit header
  int leg;         // of the legacy format; |pre| is the GOP hash its signature starts from, if known
  const uint8_t *pre;
  tlv_t t[16];
  int nt;
  uint8_t hash[64];   // document hash
  buf_t bpre;     // bytes from start code up to TLV (raw)
  int startcode_inside;  // an emulated start code occurs inside the NALU
  int payload_size_ok;
  int ends_stop;
  int payload_offset;
} sei_t;

static void sei_free(sei_t *s)
{
  for (int i = 0; i < s->nt; i++) bfree(&s->t[i].v);
  bfree(&s->bpre);
  memset(s, 0, sizeof(*s));
}
// The legacy format signs either the document (type 1) or the GOP hash, which the document is added to last.
static size_t legacy_final(const uint8_t *pre, int type, uint8_t *h)
{
  uint8_t b[64] = {0};
  if (type == 1) return 32;
  if (pre) memcpy(b, pre, 32);
  memcpy(b + 32, h, 32);
  return H("sha256", b, 64, h);
}
static const uint8_t kUuid[17] = "\x53\x69\x67\x6e\x65\x64\x20\x56\x69\x64\x65\x6f\x2e\x2e\x2e\x30";

static int two_byte_len(int tag)
{
  return tag == 2 || tag == 3 || tag == 4 || tag == 5 || tag == 6 || tag == 129 || tag == 128;
}

// |fetched|: straight from the signer. Then a SEI marked as being without emulation prevention has none.
static void sei_parse(const uint8_t *d, size_t n, int h265, const char *algo, int fetched, sei_t *s)
{
  memset(s, 0, sizeof(*s));
  s->h265 = h265;
  size_t p = 0;
  if (n > 4 && !memcmp(d, "\0\0\0\1", 4)) p = 4;
  else if (n > 3 && !memcmp(d, "\0\0\1", 3)) p = 3;
  size_t nal = p;
  while (n > nal && d[n - 1] == 0) n--;
  for (size_t i = nal; i + 2 < n; i++)
    if (d[i] == 0 && d[i + 1] == 0 && d[i + 2] <= 2) s->startcode_inside = 1;
  int strip = 1;
  if (fetched) {
    size_t u = nal + (h265 ? 3 : 2);
    while (u < n && d[u] == 0xff) u++;
    u++;
    if (u + 17 <= n && !memcmp(d + u, kUuid, 16)) strip = (d[u + 16] >> 7) & 1;
  }
  // strip emulation prevention, keeping a map back to raw offsets
  uint8_t *r = malloc(n + 1);
  size_t *map = malloc((n + 2) * sizeof(size_t));
  size_t rn = 0;
  int zeros = 0;
  for (size_t i = nal; i < n; i++) {
    if (strip && zeros >= 2 && d[i] == 3) {
      zeros = 0;
      continue;
    }
    zeros = d[i] == 0 ? zeros + 1 : 0;
    map[rn] = i;
    r[rn++] = d[i];
  }
  map[rn] = n;
  size_t q = h265 ? 2 : 1;
  if (rn < q + 2) goto out;
  int sei_type = h265 ? ((r[0] >> 1) & 0x3f) : (r[0] & 0x1f);
  if (!(h265 ? (sei_type == 39 || sei_type == 40) : sei_type == 6)) goto out;
  if (r[q++] != 5) goto out;
  size_t psz = 0;
  // The size field precedes the payload and is written without emulation prevention.
  while (q < rn && r[q] == 0xff) psz += r[q++];
  if (q >= rn) goto out;
  psz += r[q++];
  if (q + 17 > rn) goto out;
  if (memcmp(r + q, kUuid, 16)) goto out;
  s->is_sv = 1;
  memcpy(s->hdr, r, h265 ? 2 : 1);
  s->payload_offset = (int)map[q];
  size_t payload = q;
  s->payload_size_ok = (rn == payload + psz + 1);
  s->ends_stop = d[n - 1] == 0x80;
  q += 16;
  s->res = r[q++];
  s->leg = !(s->res & 0x70);
  bput(&s->bpre, r, q);
  // Without emulation prevention by the signer the SEI may later get it from the user; either way the
  // hash is over the bytes without it then.
  size_t end = payload + psz;
  if (end > rn) goto out;
  size_t sigpos = 0;
  while (q < end && s->nt < 16) {
    size_t tagpos = q;
    int tag = r[q++];
    size_t len = r[q++];
    if (two_byte_len(tag)) len = (len << 8) | r[q++];
    if (q + len > end) goto out;
    s->t[s->nt].tag = tag;
    bput(&s->t[s->nt].v, r + q, len);
    s->nt++;
    if (tag == 5) sigpos = tagpos;
    q += len;
  }
  if (q != end || !sigpos) goto out;
  if (s->res & 0x80) {
    // Hash over the raw bytes, emulation prevention included, up to the signature tag. An emulation
    // prevention byte belongs to what follows it.
    size_t e = map[sigpos];
    if (sigpos > 0 && map[sigpos] - map[sigpos - 1] > 1) e = map[sigpos - 1] + 1;
    H(algo, d + nal, e - nal, s->hash);
  } else {
    H(algo, r, sigpos, s->hash);
  }
  s->ok = 1;
out:
  free(r);
  free(map);
}

static tlv_t *sei_tlv(sei_t *s, int tag)
{
  for (int i = 0; i < s->nt; i++)
    if (s->t[i].tag == tag) return &s->t[i];
  return NULL;
}

// Serialise a (possibly edited) SEI again, with proper emulation prevention when the epb bit is set.
// |resign|: key to sign the document with, or NULL to keep the signature that is there.
static void sei_encode(sei_t *s, const char *algo, pkey_t *resign, buf_t *out)
{
  buf_t tl = {0};
  size_t sig_at = 0;
  for (int i = 0; i < s->nt; i++) {
    if (s->t[i].tag == 5 && !sig_at) sig_at = tl.n;
    bc(&tl, s->t[i].tag);
    size_t ln = (size_t)((long)s->t[i].v.n + s->t[i].dl);
    if (two_byte_len(s->t[i].tag)) bc(&tl, (int)(ln >> 8));
    bc(&tl, (int)(ln & 0xff));
    bput(&tl, s->t[i].v.d, s->t[i].v.n);
  }
  size_t psz = tl.n + 17;
  for (int pass = 0; pass < 2; pass++) {
    buf_t raw = {0};  // rbsp from NAL header
    bput(&raw, s->hdr, s->h265 ? 2 : 1);
    bc(&raw, 5);
    size_t left = psz;
    while (left >= 0xff) {
      bc(&raw, 0xff);
      left -= 0xff;
    }
    bc(&raw, (int)left);
    bput(&raw, kUuid, 16);
    bc(&raw, s->res);
    size_t tlv_at = raw.n;
    bput(&raw, tl.d, tl.n);
    bc(&raw, 0x80);
    out->n = 0;
    bput(out, "\0\0\0\1", 4);
    size_t sig_raw_end = 0;
    int zeros = 0;
    for (size_t i = 0; i < raw.n; i++) {
      if (i == tlv_at + sig_at) sig_raw_end = out->n;
      if ((s->res & 0x80) && i > tlv_at && zeros >= 2 && raw.d[i] <= 3) {
        bc(out, 3);
        zeros = 0;
      }
      bc(out, raw.d[i]);
      zeros = raw.d[i] == 0 ? zeros + 1 : 0;
    }
    if (pass == 0 && resign) {
      uint8_t h[64];
      size_t hs;
      if (s->res & 0x80) hs = H(algo, out->d + 4, sig_raw_end - 4, h);
      else hs = H(algo, raw.d, tlv_at + sig_at, h);
      tlv_t *st = sei_tlv(s, 5);
      if (s->leg && st && st->v.n >= 3) hs = legacy_final(s->pre, st->v.d[2], h);
      EVP_PKEY_CTX *ctx = EVP_PKEY_CTX_new(resign->pk, NULL);
      EVP_PKEY_sign_init(ctx);
      if (EVP_PKEY_base_id(resign->pk) == EVP_PKEY_RSA) {
        EVP_PKEY_CTX_set_rsa_padding(ctx, RSA_PKCS1_PADDING);
        EVP_PKEY_CTX_set_signature_md(ctx, EVP_sha256());
      }
      uint8_t sig[1024];
      size_t sn = sizeof(sig);
      if (EVP_PKEY_sign(ctx, sig, &sn, h, hs) > 0) {
        tlv_t *t = sei_tlv(s, 5);
        size_t room = t && t->v.n >= 5 ? t->v.n - 5 : 0;
        if (sn <= room) {
          t->v.d[3] = (uint8_t)(sn >> 8);
          t->v.d[4] = (uint8_t)sn;
          memset(t->v.d + 5, 1, room);
          memcpy(t->v.d + 5, sig, sn);
          if (sig_at + 3 + t->v.n <= tl.n) memcpy(tl.d + sig_at + 3, t->v.d, t->v.n);
        }
      }
      EVP_PKEY_CTX_free(ctx);
    }
    bfree(&raw);
    if (!resign) break;
  }
  bfree(&tl);
}

static int verify_with(pkey_t *k, const uint8_t *h, size_t hs, const uint8_t *sig, size_t sn)
{
  EVP_PKEY_CTX *ctx = EVP_PKEY_CTX_new(k->pk, NULL);
  EVP_PKEY_verify_init(ctx);
  if (EVP_PKEY_base_id(k->pk) == EVP_PKEY_RSA) {
    EVP_PKEY_CTX_set_rsa_padding(ctx, RSA_PKCS1_PADDING);
    EVP_PKEY_CTX_set_signature_md(ctx, EVP_sha256());
  }
  int r = EVP_PKEY_verify(ctx, sig, sn, h, hs);
  EVP_PKEY_CTX_free(ctx);
  return r < 0 ? -1 : r;
}

static uint32_t be32(const uint8_t *p)
{
  return ((uint32_t)p[0] << 24) | ((uint32_t)p[1] << 16) | ((uint32_t)p[2] << 8) | p[3];
}

// Facts about a SEI's bytes, as one JSON object. |jk|: the number of the SEI it is, or was made of.
static int jk;
static void jsei(obj_t *signer, const uint8_t *d, size_t n, int h265, int fetched)
{
  sei_t s;
  sei_parse(d, n, h265, scn_algo, fetched, &s);
  legacy_t *lg = s.leg && signer ? signer->leg : NULL;
  size_t hs = hsz();
  printf("{\"hd\":[%d", s.hdr[0]);
  if (h265) printf(",%d", s.hdr[1]);
  printf("],\"ok\":%d,\"res\":%d,\"gold\":%d,\"epb\":%d,\"fmt\":%d", s.ok, s.res, (s.res >> 6) & 1,
      (s.res >> 7) & 1, s.payload_size_ok && s.ends_stop);
  printf(",\"esc\":%d,\"tags\":[", s.startcode_inside);
  for (int i = 0; i < s.nt; i++) printf("%s%d", i ? "," : "", s.t[i].tag);
  printf("]");
  tlv_t *g = s.ok ? sei_tlv(&s, 1) : NULL;
  printf(",\"gen\":%d", g ? 1 : 0);
  if (g && g->v.n >= (s.leg ? 10 : 11)) {
    const uint8_t *v = g->v.d;
    int flags = g->v.n > 10 ? v[10] : 0;
    size_t o = 11;
    long long ts = 0;
    if (flags & 1) {
      for (int i = 0; i < 8; i++) ts = (long long)(((unsigned long long)ts << 8) | v[o + i]);
      o += 8;
    }
    int tv[3] = {0};
    sscanf(signed_video_get_version(), "v%d.%d.%d", &tv[0], &tv[1], &tv[2]);
    int vnew = v[7] != tv[0] ? v[7] > tv[0] : (v[8] != tv[1] ? v[8] > tv[1] : v[9] > tv[2]);
    printf(",\"vnew\":%d", vnew);
    printf(",\"gop\":%lld,\"num\":%d,\"ver\":\"v%d.%d.%d\",\"hts\":%d,\"ts\":\"%lld\",\"genver\":%d",
        (long long)(be32(v + 1) > 2000000000u ? 2000000000u : be32(v + 1)), v[5] << 8 | v[6], v[7],
        v[8], v[9], flags & 1, ts, v[0]);
    char sym[80];
    if (lg) {
      printf(",\"link\":\"0\",\"goph\":[%s]", lg->cov[jk].names ? lg->cov[jk].names : "\"?\"");
    } else if (o + 2 * hs == g->v.n) {
      sym_of(v + o, sym);
      printf(",\"link\":\"%s\"", sym);
      // GOP hash: find the window of the signer's NALUs it is the hash of.
      const uint8_t *gh = v + o + hs;
      int found = 0;
      if (signer) {
        uint8_t zero[64] = {0};
        if (!memcmp(gh, zero, hs)) {
          printf(",\"goph\":[\"0\"]");
          found = 1;
        }
        // |z|: with the latest I-frame as reference, or with none (after a reset)
        for (int a2 = 0; a2 < 2 * signer->n_hist && !found; a2++) {
          // Most likely it starts where the latest one ended.
          const int a = (a2 / 2 + signer->hist_hint) % signer->n_hist, z = a2 % 2;
          if (signer->n_hist - a > 1400 || (z && conts[signer->hist[a]].t == 'I')) continue;
          EVP_MD_CTX *cx = EVP_MD_CTX_new();
          EVP_DigestInit_ex(cx, md_of(scn_algo), NULL);
          int ref = -1;
          for (int b = a - 1; b >= 0 && !z; b--)
            if (conts[signer->hist[b]].t == 'I') {
              ref = signer->hist[b];
              break;
            }
          for (int b = a; b < signer->n_hist && !found; b++) {
            cont_t *ct = &conts[signer->hist[b]];
            uint8_t hh[64];
            if (ct->t == 'I') {
              memcpy(hh, ct->h, hs);
              ref = signer->hist[b];
            } else {
              uint8_t bb[128];
              memcpy(bb, ref >= 0 ? conts[ref].h : zero, hs);
              memcpy(bb + hs, ct->h, hs);
              H(scn_algo, bb, 2 * hs, hh);
            }
            EVP_DigestUpdate(cx, hh, hs);
            EVP_MD_CTX *c2 = EVP_MD_CTX_new();
            EVP_MD_CTX_copy_ex(c2, cx);
            uint8_t o2[64];
            EVP_DigestFinal_ex(c2, o2, NULL);
            EVP_MD_CTX_free(c2);
            if (!memcmp(o2, gh, hs)) {
              found = 1;
              signer->hist_hint = b + 1;
              printf(",\"goph\":[");
              ref = -1;
              for (int x = 0; x <= b; x++) {
                cont_t *cx2 = &conts[signer->hist[x]];
                if (z && x < a) continue;
                if (cx2->t == 'I') ref = signer->hist[x];
                if (x < a) continue;
                if (cx2->t == 'I') printf("%s\"%s\"", x > a ? "," : "", cx2->sym);
                else printf("%s\"%s/%s\"", x > a ? "," : "", ref >= 0 ? conts[ref].sym : "0", cx2->sym);
              }
              printf("]");
            }
          }
          EVP_MD_CTX_free(cx);
        }
      }
      if (!found) printf(",\"goph\":[\"?\"]");
    } else {
      printf(",\"link\":\"?\",\"goph\":[\"?\"]");
    }
  } else {
    printf(",\"vnew\":0,\"gop\":0,\"num\":0,\"ver\":\"\",\"hts\":0,\"ts\":\"0\",\"genver\":0,\"link\":\"0\",\"goph\":[\"0\"]");
  }
  tlv_t *l = s.ok ? sei_tlv(&s, 4) : NULL;
  printf(",\"hl\":%d,\"list\":[", l ? 1 : 0);
  if (l) {
    char sym[80];
    for (size_t o = 1; o + hs <= l->v.n; o += hs) {
      sym_of(l->v.d + o, sym);
      printf("%s\"%s\"", o > 1 ? "," : "", sym);
    }
  }
  printf("]");
  tlv_t *pk = s.ok ? sei_tlv(&s, 2) : NULL;
  const char *pkn = "";
  if (pk) {
    pkn = "?";
    size_t at = pk->v.n && pk->v.d[0] < 2 ? 2 : 1;  // the first version has the type of the key in front
    for (int i = 0; i < 3; i++)
      if (pk->v.n - at == keys[i].pub_n && !memcmp(pk->v.d + at, keys[i].pub, keys[i].pub_n))
        pkn = i == 0 ? "A" : (i == 1 ? "B" : "R");
  }
  printf(",\"pk\":\"%s\"", pkn);
  tlv_t *pi = s.ok ? sei_tlv(&s, 3) : NULL;
  printf(",\"pi\":%d,\"prod\":[", pi ? 1 : 0);
  if (pi) {
    size_t o = 1;
    for (int k = 0; k < 5 && o < pi->v.n; k++) {
      size_t sn = pi->v.d[o++];
      char tmp[300] = {0};
      memcpy(tmp, pi->v.d + o, sn > 255 ? 255 : sn);
      // The string as a C string, and whether the field is exactly the string and its terminator.
      printf("%s", k ? "," : "");
      jstrv(tmp);
      o += sn;
    }
  }
  printf("]");
  tlv_t *ci = s.ok ? sei_tlv(&s, 7) : NULL;
  char oid[64] = "";
  if (ci)
    for (size_t i = 2; i < ci->v.n && i < 20; i++) sprintf(oid + strlen(oid), "%02x", ci->v.d[i]);
  tlv_t *ve = s.ok ? sei_tlv(&s, 129) : NULL;
  const char *an = "", *cn = "";
  char ua[16] = "?", uc[16] = "?";
  int vrc = 0;  // -1: too short to hold what it says, -2: unknown version
  if (ve) {
    an = ua;
    cn = uc;
    if (ve->v.n < 3) vrc = -1;
    else if (ve->v.d[0] != 1) vrc = -2;
    else if (ve->v.d[1] && (size_t)ve->v.d[1] + 2 >= ve->v.n) vrc = -1;
    if (!vrc) {
      size_t as = ve->v.d[1], cs = ve->v.n - 2 - as;
      unsigned h = 5381;  // what is not in the catalogue gets a name of its own
      for (size_t i = 0; i < as; i++) h = h * 33 + ve->v.d[2 + i];
      snprintf(ua, sizeof(ua), "?%08x", h);
      for (size_t i = 0; i < cs; i++) h = h * 33 + ve->v.d[2 + as + i];
      snprintf(uc, sizeof(uc), "?%08x", h);
      if (as == 0) an = "";
      for (int i = 0; i < n_atts; i++)
        if (atts[i].n == as && !memcmp(atts[i].d, ve->v.d + 2, as)) an = atts[i].name;
      if (cs == 0) cn = "";
      for (int i = 0; i < n_chains; i++)
        if (chains[i].n == cs && !memcmp(chains[i].d, ve->v.d + 2 + as, cs)) cn = chains[i].name;
    }
  }
  printf(",\"cr\":\"%s\",\"vrc\":%d,\"att\":\"%s\",\"chain\":\"%s\"", oid, vrc, an, cn);
  tlv_t *sg = s.ok ? sei_tlv(&s, 5) : NULL;
  int r[3] = {-1, -1, -1};
  int slen = 0, ht = 0;
  if (sg && sg->v.n > 5) {
    ht = sg->v.d[2];
    if (s.leg) legacy_final(lg ? lg->cov[jk].pre : NULL, ht, s.hash);
    size_t sn = (size_t)(sg->v.d[3] << 8 | sg->v.d[4]);
    slen = (int)sg->v.n - 5;
    if (sn + 5 <= sg->v.n)
      for (int i = 0; i < 3; i++) r[i] = verify_with(&keys[i], s.hash, hs, sg->v.d + 5, sn);
  }
  printf(",\"sigA\":%d,\"sigB\":%d,\"sigR\":%d,\"maxsig\":%d,\"size\":%d,\"leg\":%d,\"ht\":%d}", r[0], r[1], r[2],
      slen, (int)n, s.leg, ht);
  sei_free(&s);
}

// Mutations of a SEI. Returns 0 if the mutation does not apply.
static int mutate(sei_t *s, const char *m, pkey_t **resign, buf_t *raw_out)
{
  tlv_t *g = sei_tlv(s, 1), *l = sei_tlv(s, 4), *sg = sei_tlv(s, 5), *pk = sei_tlv(s, 2);
  tlv_t *pi = sei_tlv(s, 3);
  size_t hs = hsz();
  (void)raw_out;
  if (!strncmp(m, "resign", 6)) {
    *resign = key_of(m[6]);
    return 1;
  }
  if (!strncmp(m, "hdr:", 4)) {
    unsigned x = 0, y = 0;
    sscanf(m + 4, "%2x%2x", &x, &y);
    s->hdr[0] = (uint8_t)x;
    s->hdr[1] = (uint8_t)y;
    return 1;
  }
  if (!strncmp(m, "gop", 3) && g) {
    uint32_t x = be32(g->v.d + 1) + (uint32_t)atoi(m + 3);
    g->v.d[1] = (uint8_t)(x >> 24); g->v.d[2] = (uint8_t)(x >> 16);
    g->v.d[3] = (uint8_t)(x >> 8); g->v.d[4] = (uint8_t)x;
    return 1;
  }
  if (!strncmp(m, "num", 3) && g) {
    int x = (g->v.d[5] << 8 | g->v.d[6]) + atoi(m + 3);
    g->v.d[5] = (uint8_t)(x >> 8); g->v.d[6] = (uint8_t)x;
    return 1;
  }
  if (!strncmp(m, "ver", 3) && g) {
    int a, b, c;
    if (sscanf(m + 3, "%d.%d.%d", &a, &b, &c) == 3) {
      g->v.d[7] = (uint8_t)a; g->v.d[8] = (uint8_t)b; g->v.d[9] = (uint8_t)c;
      return 1;
    }
    return 0;
  }
  if (!strcmp(m, "ts") && g && (g->v.d[10] & 1)) {
    g->v.d[18] ^= 0x01;
    return 1;
  }
  if (!strcmp(m, "link") && g) { g->v.d[g->v.n - 2 * hs] ^= 0x10; return 1; }
  if (!strcmp(m, "goph") && g) { g->v.d[g->v.n - 1] ^= 0x10; return 1; }
  if (!strncmp(m, "list", 4) && l) {
    size_t k = (size_t)atoi(m + 4);
    if (1 + (k + 1) * hs > l->v.n) return 0;
    l->v.d[1 + k * hs] ^= 0x20;
    return 1;
  }
  if (!strcmp(m, "droplist") && l) {
    int i = (int)(l - s->t);
    bfree(&s->t[i].v);
    for (; i + 1 < s->nt; i++) s->t[i] = s->t[i + 1];
    s->nt--;
    memset(&s->t[s->nt], 0, sizeof(tlv_t));
    return 1;
  }
  if (!strcmp(m, "sig") && sg) { sg->v.d[5 + 12] ^= 0x40; return 1; }
  if (!strcmp(m, "ht") && sg) { sg->v.d[2] ^= 1; return 1; }
  if (!strcmp(m, "sigder") && sg) { sg->v.d[5] ^= 0x40; return 1; }
  if (!strcmp(m, "prod") && pi && pi->v.d[1] > 1) { pi->v.d[2] ^= 0x01; return 1; }
  if (!strncmp(m, "pk", 2) && pk) {
    pkey_t *k = key_of(m[2]);
    if (!k) return 0;
    pk->v.n = pk->v.d[0] < 2 ? 2 : 1;
    bput(&pk->v, k->pub, k->pub_n);
    return 1;
  }
  if (!strncmp(m, "ven:", 4) || !strncmp(m, "venx:", 5)) {
    // ven:ATT:CHAIN   the vendor tag, added in front of the signature if there is none; venx:HEX its bytes
    tlv_t *ve = sei_tlv(s, 129);
    if (!ve) {
      if (s->nt >= 16 || !sg) return 0;
      int i = (int)(sg - s->t);
      memmove(&s->t[i + 1], &s->t[i], (size_t)(s->nt - i) * sizeof(tlv_t));
      s->nt++;
      memset(&s->t[i], 0, sizeof(tlv_t));
      s->t[i].tag = 129;
      ve = &s->t[i];
    }
    ve->v.n = 0;
    if (m[3] == 'x') {
      unsigned x;
      for (const char *h = m + 5; sscanf(h, "%2x", &x) == 1; h += 2) bc(&ve->v, (int)x);
      return 1;
    }
    char nm[64];
    snprintf(nm, sizeof(nm), "%s", m + 4);
    char *c = strchr(nm, ':');
    if (c) *c++ = 0;
    blob_t *at = blob_of(atts, n_atts, nm), *ch = c ? blob_of(chains, n_chains, c) : NULL;
    bc(&ve->v, 1);
    bc(&ve->v, at ? (int)at->n : 0);
    if (at) bput(&ve->v, at->d, at->n);
    if (ch) bput(&ve->v, ch->d, ch->n);
    return 1;
  }
  if (!strncmp(m, "vencut:", 7) && sei_tlv(s, 129)) {
    tlv_t *ve = sei_tlv(s, 129);
    size_t k = (size_t)atoi(m + 7);
    ve->v.n = ve->v.n > k ? ve->v.n - k : 0;
    return 1;
  }
  if (!strcmp(m, "venlast") && sei_tlv(s, 129)) {
    tlv_t *ve = sei_tlv(s, 129), t = *ve;
    int i = (int)(ve - s->t);
    memmove(&s->t[i], &s->t[i + 1], (size_t)(s->nt - i - 1) * sizeof(tlv_t));
    s->t[s->nt - 1] = t;
    return 1;
  }
  if (!strcmp(m, "dropven") || !strcmp(m, "droppk")) {
    tlv_t *ve = m[4] == 'v' ? sei_tlv(s, 129) : pk;
    if (!ve) return 0;
    int i = (int)(ve - s->t);
    bfree(&ve->v);
    memmove(&s->t[i], &s->t[i + 1], (size_t)(s->nt - i - 1) * sizeof(tlv_t));
    s->nt--;
    memset(&s->t[s->nt], 0, sizeof(tlv_t));
    return 1;
  }
  if (!strncmp(m, "pf", 2) && isdigit((unsigned char)m[2]) && m[3] == ':' && pi) {
    // pfN:VALUE   field N of the product information
    buf_t nb = {0};
    bc(&nb, pi->v.d[0]);
    size_t o = 1;
    for (int k = 0; k < 5 && o < pi->v.n; k++) {
      size_t sn = pi->v.d[o++];
      if (k == m[2] - '0') {
        char val[64];
        snprintf(val, sizeof(val), "%s", m + 4);
        for (char *z = val; *z; z++) if (*z == '~') *z = ' ';
        bc(&nb, (int)strlen(val) + 1);
        bput(&nb, val, strlen(val) + 1);
      } else {
        bc(&nb, (int)sn);
        bput(&nb, pi->v.d + o, sn);
      }
      o += sn;
    }
    bfree(&pi->v);
    pi->v = nb;
    return 1;
  }
  if (!strcmp(m, "res0")) { s->res &= ~0x01; s->res |= 0x01; return 1; }
  if (!strcmp(m, "badtag") && g) { g->tag = 99; return 1; }
  return 0;
}

// Edits of the bytes of a NAL Unit, or of the TLVs of a SEI. Returns 0 if it does not apply.
//   L:TAG:DELTA    the length field of a TLV        R:TAG:N        its size (cut or filled with zeros)
//   V:TAG:OFF:VAL  a byte of its value              T:TAG:NEW      its tag
static int edit_tlv(sei_t *s, const char *m, pkey_t **resign)
{
  int tag, a = 0, v = 0;
  if (!strncmp(m, "resign", 6)) return (*resign = key_of(m[6])) != NULL;
  if (m[0] == 'B') { s->res = atoi(m + 2); return 1; }  // B:VAL  the reserved byte
  if (sscanf(m + 1, ":%d:%d:%d", &tag, &a, &v) < 2) return 0;
  tlv_t *t = sei_tlv(s, tag);
  if (!t) return 0;
  if (m[0] == 'L') t->dl = a;
  if (m[0] == 'T') t->tag = a;
  if (m[0] == 'V' && t->v.n) t->v.d[(size_t)a % t->v.n] = (uint8_t)v;
  if (m[0] == 'R') {
    while (t->v.n < (size_t)a) bc(&t->v, 0);
    t->v.n = (size_t)a;
  }
  return 1;
}
//   x:OFF:VAL  set a byte   f:OFF:BIT  flip a bit   c:N  cut from the end   k:N  keep the first N
//   d:OFF:N    delete       i:OFF:VAL  insert       (offsets from the NAL Unit header, modulo its size)
static void edit_bytes(buf_t *b, size_t h, const char *m)
{
  int a = 0, v = 0;
  size_t n = b->n - h;
  sscanf(m + 1, ":%d:%d", &a, &v);
  if (m[0] == 'c') b->n = (size_t)a < n ? b->n - (size_t)a : h;
  if (m[0] == 'k') b->n = (size_t)a < n ? h + (size_t)a : b->n;
  if (!n) return;
  size_t o = h + (size_t)a % n;
  if (m[0] == 'x') b->d[o] = (uint8_t)v;
  if (m[0] == 'f') b->d[o] ^= (uint8_t)(1 << (v & 7));
  if (m[0] == 'd') {
    size_t k = (size_t)v < b->n - o ? (size_t)v : b->n - o;
    memmove(b->d + o, b->d + o + k, b->n - o - k);
    b->n -= k;
  }
  if (m[0] == 'i') {
    bc(b, 0);
    memmove(b->d + o + 1, b->d + o, b->n - o - 1);
    b->d[o] = (uint8_t)v;
  }
}

// ---------------------------------------------------------------- options
static char *opt(char **tok, int n, const char *name)
{
  size_t ln = strlen(name);
  for (int i = 0; i < n; i++)
    if (!strncmp(tok[i], name, ln) && tok[i][ln] == '=') return tok[i] + ln + 1;
  return NULL;
}
static int iopt(char **tok, int n, const char *name, int dflt)
{
  char *v = opt(tok, n, name);
  return v ? atoi(v) : dflt;
}

static void jreport(signed_video_authenticity_t *a)
{
  jkey("rep");
  if (!a) {
    printf("{\"none\":1}");
    return;
  }
  signed_video_latest_validation_t *l = &a->latest_validation;
  signed_video_accumulated_validation_t *c = &a->accumulated_validation;
  printf("{\"auth\":%d,\"pkc\":%d,\"exp\":%d,\"rec\":%d,\"pend\":%d,\"pkv\":%d,\"hts\":%d,\"ts\":\"%lld\"",
      l->authenticity, l->public_key_has_changed, l->number_of_expected_picture_nalus,
      l->number_of_received_picture_nalus, l->number_of_pending_picture_nalus, l->public_key_validation,
      l->has_timestamp, l->has_timestamp ? (long long)l->timestamp : 0LL);
  printf(",\"ns\":");
  jstrv(l->nalu_str);
  printf(",\"vs\":");
  jstrv(l->validation_str);
  // The same strings, character by character.
  for (int w = 0; w < 2; w++) {
    const char *q = w ? l->validation_str : l->nalu_str;
    printf(",\"%s\":[", w ? "va" : "na");
    for (int i = 0; q && q[i]; i++) printf("%s\"%c\"", i ? "," : "", q[i] == '"' ? '\'' : q[i]);
    printf("]");
  }
  printf(",\"aauth\":%d,\"apkc\":%d,\"anrec\":%u,\"anval\":%u,\"anpend\":%u,\"apkv\":%d,\"ahts\":%d",
      c->authenticity, c->public_key_has_changed, c->number_of_received_nalus, c->number_of_validated_nalus,
      c->number_of_pending_nalus, c->public_key_validation, c->has_timestamp);
  printf(",\"afts\":\"%lld\",\"alts\":\"%lld\"", c->has_timestamp ? (long long)c->first_timestamp : 0LL,
      c->has_timestamp ? (long long)c->last_timestamp : 0LL);
  printf(",\"vsign\":");
  jstrv(a->version_on_signing_side);
  printf(",\"vthis\":");
  jstrv(a->this_version);
  signed_video_product_info_t *p = &a->product_info;
  const char *f[5] = {p->hardware_id, p->firmware_version, p->serial_number, p->manufacturer, p->address};
  printf(",\"prod\":[");
  for (int i = 0; i < 5; i++) {
    printf("%s", i ? "," : "");
    jstrv(f[i] ? f[i] : "");
  }
  printf("]}");
}

// ---------------------------------------------------------------- the legacy signer
// A signer of the format before version 2: every GOP is signed together with the first picture of the next one, in
// a SEI to be put in front of that picture. There is no such signer in the library any more; it only validates.
static void legacy_hash(legacy_t *l, int ref, int c)
{
  if (l->n >= MAXLEG) exit(4);
  uint8_t b[64] = {0};
  if (ref == -2) {
    memcpy(l->h[l->n], conts[c].h, 32);
    snprintf(l->names[l->n], 100, "%s", conts[c].sym);
  } else {
    if (ref >= 0) memcpy(b, conts[ref].h, 32);
    memcpy(b + 32, conts[c].h, 32);
    H("sha256", b, 64, l->h[l->n]);
    snprintf(l->names[l->n], 100, "%s/%s", ref >= 0 ? conts[ref].sym : "0", conts[c].sym);
  }
  l->n++;
}
static tlv_t *tlv_new(sei_t *s, int tag)
{
  s->t[s->nt].tag = tag;
  return &s->t[s->nt++];
}
static void legacy_sei(obj_t *o, int hts, int64_t ts)
{
  legacy_t *l = o->leg;
  if (o->n_sei >= MAXSEI) return;
  int k = o->n_sei++;
  sei_t s = {0};
  s.leg = 1;
  s.h265 = o->h265;
  s.hdr[0] = o->h265 ? 0x4e : 0x06;
  s.hdr[1] = 0x01;
  s.res = l->epb ? 0x80 : 0;
  l->ctr++;
  tlv_t *t = tlv_new(&s, 1);
  const uint8_t gen[11] = {(uint8_t)l->gver, (uint8_t)(l->ctr >> 24), (uint8_t)(l->ctr >> 16), (uint8_t)(l->ctr >> 8),
      (uint8_t)l->ctr, (uint8_t)(l->n >> 8), (uint8_t)l->n, 1, 1, 0, (uint8_t)hts};
  bput(&t->v, gen, l->gver > 1 ? 11 : 10);
  for (int i = 7; hts && l->gver > 1 && i >= 0; i--) bc(&t->v, (int)((uint64_t)ts >> (8 * i)) & 0xff);
  pkey_t *key = key_of(l->key);
  if ((l->ctr - 1) % (unsigned)l->recur == 0) {
    if (l->addpk) {
      t = tlv_new(&s, 2);
      bc(&t->v, 1);
      bc(&t->v, l->key == 'R' ? 0 : 1);
      bput(&t->v, key->pub, key->pub_n);
    }
    if (l->prod) {
      t = tlv_new(&s, 3);
      bc(&t->v, 1);
      char f[16];
      for (int i = 0; i < 5; i++) {
        snprintf(f, sizeof(f), "f%d.%d", i, l->prod);
        bc(&t->v, (int)strlen(f) + 1);
        bput(&t->v, f, strlen(f) + 1);
      }
    }
  }
  if (l->level == 1) {
    t = tlv_new(&s, 4);
    bc(&t->v, 1);
    for (int i = 0; i < l->n; i++) bput(&t->v, l->h[i], 32);
  }
  t = tlv_new(&s, 5);
  const uint8_t sig[5] = {1, 0, (uint8_t)(l->level == 1), 0, 0};
  bput(&t->v, sig, 5);
  for (int i = 0; i < EVP_PKEY_get_size(key->pk); i++) bc(&t->v, 1);
  // the GOP hash so far
  uint8_t b[64], salt = 1;
  H("sha256", &salt, 1, b);
  buf_t nm = {0};
  for (int i = 0; i < l->n; i++) {
    memcpy(b + 32, l->h[i], 32);
    H("sha256", b, 64, b);
    char q[120];
    snprintf(q, sizeof(q), "%s\"%s\"", i ? "," : "", l->names[i]);
    bput(&nm, q, strlen(q));
  }
  bc(&nm, 0);
  l->cov[k].names = (char *)nm.d;
  memcpy(l->cov[k].pre, b, 32);
  s.pre = l->cov[k].pre;
  sei_encode(&s, "sha256", key, &o->sei[k]);
  sei_free(&s);
  l->n = 0;
}
// Returns 1 if there is a new SEI.
static int legacy_add(obj_t *o, char t, int c, int hts, int64_t ts)
{
  legacy_t *l = o->leg;
  if (!is_pic(t)) return 0;
  if (t != 'I') {
    legacy_hash(l, l->ref, c);
    return 0;
  }
  legacy_hash(l, l->has_ref ? l->ref : -2, c);
  legacy_sei(o, hts, ts);
  l->ref = c;
  l->has_ref = 1;
  legacy_hash(l, -2, c);
  return 1;
}

// The script. A scenario with |rep| on its first line is carried out five times. Only the first one is recorded, and it
// lets OpenSSL set up what it keeps. The least number by which the live allocations grow from the end of one to the end
// of the next follows as an event. (OpenSSL may allocate something for good at any time, but not every time.)
static char **rep_lines, *ahead;
static int n_rep, rep_pos, rep_run, rep_out = -1;
static long rep_live, rep_min;
static char *keep(const char *s)
{
  char *p = malloc(strlen(s) + 1);
  return strcpy(p, s);
}
static void silence(int on)
{
  fflush(stdout);
  if (rep_out < 0) rep_out = dup(1);
  if (on) {
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    close(fd);
  } else dup2(rep_out, 1);
}
static int next_line(char *line, int size)
{
  if (n_rep) {
    if (rep_pos == n_rep) {
      scn_end();
      rep_run++;
      rep_pos = 0;
      long live = mem_live();
      if (rep_run == 1) silence(1);
      if (rep_run > 1 && live - rep_live < rep_min) rep_min = live - rep_live;
      if (rep_run == 5) {
        silence(0);
        printf("{\"op\":\"memend\",\"o\":0,\"live\":%ld,\"n\":%d}\n", rep_min, 0);
        for (int i = 0; i < n_rep; i++) free(rep_lines[i]);
        free(rep_lines);
        rep_lines = NULL;
        n_rep = 0;
      }
      rep_live = live;
    }
    if (n_rep) {
      snprintf(line, size, "%s", rep_lines[rep_pos++]);
      return 1;
    }
  }
  if (ahead) {
    snprintf(line, size, "%s", ahead);
    free(ahead);
    ahead = NULL;
  } else if (!fgets(line, size, stdin)) return 0;
  if (strncmp(line, "scn ", 4) || !strstr(line, " rep=1")) return 1;
  rep_lines = malloc(sizeof(char *) * 20000);
  rep_lines[n_rep++] = keep(line);
  while (fgets(line, size, stdin)) {
    if (!strncmp(line, "scn ", 4)) {
      ahead = keep(line);
      break;
    }
    if (n_rep == 20000) exit(4);
    rep_lines[n_rep++] = keep(line);
  }
  rep_pos = rep_run = 0;
  rep_min = 1000000;
  snprintf(line, size, "%s", rep_lines[rep_pos++]);
  return 1;
}

static const char *kOps = "";
int main(int argc, char **argv)
{
  (void)kOps;
  if (argc < 2) return 2;
  mem_init();
  load_keys(argv[1]);
  load_att(argv[1]);
  const unsigned limit = argc > 2 ? (unsigned)atoi(argv[2]) : 60;
  static char line[1 << 16];
  int evno = 0;
  while (next_line(line, sizeof(line))) {
    char *tok[400];
    int n = 0;
    for (char *p = strtok(line, " \n\t"); p && n < 400; p = strtok(NULL, " \n\t")) tok[n++] = p;
    if (!n) continue;
    const char *op = tok[0];
    if (op[0] == '#') continue;
    if (!strcmp(op, "scn")) {
      // scn NAME [algo=sha256] [h265=0] [algo2=] [codec2=]
      scn_end();
      alarm(limit);  // per scenario
      evno = 0;
      char *al = opt(tok, n, "algo");
      char *al2 = opt(tok, n, "algo2");
      if (!al) al = "sha256";
      snprintf(grp_algo[0], sizeof(grp_algo[0]), "%s", al);
      snprintf(grp_algo[1], sizeof(grp_algo[1]), "%s", al2 ? al2 : al);
      grp_h265[0] = iopt(tok, n, "h265", 0);
      grp_h265[1] = iopt(tok, n, "codec2", grp_h265[0]);
      set_group(0);
      jopen();
      js("op", "scn");
      js("id", tok[1]);
      js("algo", scn_algo);
      ji("h265", scn_h265);
      js("mon", opt(tok, n, "mon") ? opt(tok, n, "mon") : "");
      jclose();
      continue;
    }
    if (n < 2 && strcmp(op, "end")) continue;
    if (!strcmp(op, "end")) {
      scn_end();
      continue;
    }
    int oi = atoi(tok[1]);
    obj_t *o = &objs[oi & 7];
    set_group((oi & 7) / 4);
    evno++;
    jopen();
    js("op", op);
    ji("o", oi);
    const long armed = strcmp(op, "fault") ? fault : 0;
    if (!strcmp(op, "fault")) {
      // fault 0 K: the K-th allocation of the library from now on fails
      fault = atoi(tok[2]);
      ji("k", (int)fault);
    } else if (!strcmp(op, "mem")) {
      // mem 0 LABEL: the number of live allocations
      js("at", tok[2]);
      ji("live", (int)mem_live());
    } else if (!strcmp(op, "new")) {
      // new O kind(S|V)
      if (o->sv || o->leg) {
        signed_video_free(o->sv);
        legacy_free(o->leg);
        for (int k = 0; k < o->n_sei; k++) bfree(&o->sei[k]);
        memset(o, 0, sizeof(*o));
      }
      o->h265 = scn_h265;
      o->kind = tok[2][0];
      o->pend = -1;
      if (o->kind == 'L') {
        o->leg = calloc(1, sizeof(legacy_t));
        o->leg->key = 'A';
        o->leg->epb = o->leg->recur = o->leg->addpk = 1;
        o->leg->gver = 2;
        o->leg->ref = -1;
      } else o->sv = signed_video_create(scn_h265 ? SV_CODEC_H265 : SV_CODEC_H264);
      js("kind", tok[2]);
      ji("rc", o->sv || o->leg ? 0 : -100);
      js("version", signed_video_get_version());
    } else if (!strcmp(op, "free")) {
      signed_video_free(o->sv);
      o->sv = NULL;
      ji("rc", 0);
    } else if (!strcmp(op, "cfg")) {
      // cfg O name value...
      const char *nm = tok[2];
      const char *v = n > 3 ? tok[3] : "";
      int rc = -99;
      js("name", nm);
      js("val", v);
      int iv = atoi(v);
      ji("iv", iv);
      if (o->leg) {
        rc = 0;
        if (!strcmp(nm, "key")) o->leg->key = v[0];
        else if (!strcmp(nm, "level")) o->leg->level = iv;
        else if (!strcmp(nm, "epb")) o->leg->epb = iv;
        else if (!strcmp(nm, "gver")) o->leg->gver = iv;
        else if (!strcmp(nm, "recur")) o->leg->recur = iv > 0 ? iv : 1;
        else if (!strcmp(nm, "prod")) o->leg->prod = iv;
        else if (!strcmp(nm, "addpk")) o->leg->addpk = iv;
        else rc = -99;
      } else if (!strcmp(nm, "key")) {
        pkey_t *k = key_of(v[0]);
        rc = k ? signed_video_set_private_key_new(o->sv, k->priv, k->priv_n)
               : signed_video_set_private_key_new(o->sv, "bad", 3);
      } else if (!strcmp(nm, "oldkey")) {
        pkey_t *k = key_of(v[0]);
        rc = signed_video_set_private_key(o->sv, v[0] == 'R' ? SIGN_ALGO_RSA : SIGN_ALGO_ECDSA, k->priv, k->priv_n);
      } else if (!strcmp(nm, "pubkey")) {
        pkey_t *k = key_of(v[0]);
        // x: no key at all, z: a key of no size, y: something that is no key, c: a key cut short
        if (k) rc = signed_video_set_public_key(o->sv, k->pub, k->pub_n);
        else if (v[0] == 'y') rc = signed_video_set_public_key(o->sv, "this is no key", 14);
        else if (v[0] == 'c') rc = signed_video_set_public_key(o->sv, keys[0].pub, keys[0].pub_n / 2);
        else if (v[0] == 'z') rc = signed_video_set_public_key(o->sv, keys[0].pub, 0);
        else rc = signed_video_set_public_key(o->sv, NULL, keys[0].pub_n);
      } else if (!strcmp(nm, "level")) {
        rc = signed_video_set_authenticity_level(o->sv, (SignedVideoAuthenticityLevel)iv);
      } else if (!strcmp(nm, "recur")) {
        rc = signed_video_set_recurrence_interval_frames(o->sv, (unsigned)iv);
      } else if (!strcmp(nm, "addpk")) {
        rc = signed_video_add_public_key_to_sei(o->sv, iv != 0);
      } else if (!strcmp(nm, "epb")) {
        rc = signed_video_set_sei_epb(o->sv, iv != 0);
      } else if (!strcmp(nm, "golden")) {
        rc = signed_video_set_using_golden_sei(o->sv, iv != 0);
      } else if (!strcmp(nm, "maxsei")) {
        rc = signed_video_set_max_sei_payload_size(o->sv, (size_t)iv);
      } else if (!strcmp(nm, "hash")) {
        rc = signed_video_set_hash_algo(o->sv, v);
      } else if (!strcmp(nm, "prod")) {
        // prod: five strings, '-' for NULL, 'x*300' style repetition, '' as "e"
        char *f[5] = {0};
        char store[5][1200];
        for (int i = 0; i < 5 && 3 + i < n; i++) {
          char *q = tok[3 + i];
          if (!strcmp(q, "-")) continue;
          char *st = strchr(q, '*');
          if (st) {
            int cnt = atoi(st + 1);
            if (cnt > 1100) cnt = 1100;
            memset(store[i], q[0], (size_t)cnt);
            store[i][cnt] = 0;
          } else {
            snprintf(store[i], sizeof(store[i]), "%s", strcmp(q, "e") ? q : "");
            for (char *z = store[i]; *z; z++) if (*z == '~') *z = ' ';
          }
          f[i] = store[i];
        }
        rc = signed_video_set_product_info(o->sv, f[0], f[1], f[2], f[3], f[4]);
        jkey("prod");
        printf("[");
        for (int i = 0; i < 5; i++) {
          printf("%s", i ? "," : "");
          // what a SEI can carry of it: 254 characters
          char t254[256] = {0};
          if (f[i]) memcpy(t254, f[i], strnlen(f[i], 254));
          jstrv(t254);
        }
        printf("]");
      } else if (!strcmp(nm, "attest")) {
        // attest ATT|-|0 CHAIN|-|e [cut=1] [nl=0]    (0: zero size; cut: without the root; nl: without the last newline)
        blob_t *at = blob_of(atts, n_atts, v), *ch = n > 4 ? blob_of(chains, n_chains, tok[4]) : NULL;
        char *full = NULL;
        int cut = iopt(tok, n, "cut", 0), nl = iopt(tok, n, "nl", 1);
        if (ch) {
          full = calloc(1, ch->n + strlen(root_pem) + 2);
          memcpy(full, ch->d, ch->n);
          if (!cut) strcat(full, root_pem);
          size_t fn = strlen(full);
          if (!nl && full[fn - 1] == '\n') full[fn - 1] = 0;
        } else if (n > 4 && !strcmp(tok[4], "e")) {
          full = calloc(1, 1);
        }
        js("att", at ? at->name : (v[0] == '0' ? "0" : ""));
        js("chain", ch ? ch->name : (full ? "e" : ""));
        ji("cut", cut);
        ji("an", at ? (int)at->n : 0);
        ji("cn", ch ? (int)ch->n : 0);
        rc = sv_vendor_axis_communications_set_attestation_report(
            o->sv, at ? at->d : (v[0] == '0' ? "x" : NULL), at ? (uint8_t)at->n : 0, full);
        free(full);
      }
      ji("rc", rc);
    } else if (!strcmp(op, "add")) {
      // add O T C [ts=] [parts=] [tz=] [sc=] [style=] [null=1]
      char t = tok[2][0];
      int c = atoi(tok[3]);
      int parts = iopt(tok, n, "parts", 1), tz = iopt(tok, n, "tz", 0), sc = iopt(tok, n, "sc", 4);
      int style = iopt(tok, n, "style", 0), stop_after = iopt(tok, n, "stop", 0);
      int cut = iopt(tok, n, "cut", 0);
      char *tss = opt(tok, n, "ts");
      int64_t ts = tss ? atoll(tss) : 0;
      char tt[2] = {t, 0};
      js("t", tt);
      ji("c", c);
      char *hd = opt(tok, n, "hd");
      js("h", conts[cont_idx(t, c, style, hd)].sym);
      ji("hts", tss ? 1 : 0);
      jll("ts", ts);
      ji("parts", parts);
      ji("stop", stop_after);
      ji("nul", iopt(tok, n, "null", 0));
      buf_t b = {0};
      build_nalu(o->h265, t, c, sc, style, hd, &b);
      jhd(&b, o->h265);
      for (int i = 0; i < tz; i++) bc(&b, 0);
      int rc = 0;
      if (o->leg) {
        int got = legacy_add(o, t, cont_idx(t, c, style, hd), tss ? 1 : 0, ts);
        ji("k", got ? o->n_sei - 1 : -1);
        if (got) {
          jk = o->n_sei - 1;
          jkey("sei");
          jsei(o, o->sei[jk].d, o->sei[jk].n, o->h265, 1);
        }
      } else if (iopt(tok, n, "null", 0)) {
        rc = signed_video_add_nalu_for_signing(o->sv, NULL, 10);
      } else if (parts <= 1) {
        rc = iopt(tok, n, "plain", 0) && !tss
            ? signed_video_add_nalu_for_signing(o->sv, b.d, b.n)
            : signed_video_add_nalu_for_signing_with_timestamp(o->sv, b.d, b.n, tss ? &ts : NULL);
        if (rc == 0 && is_pic(t)) o->hist[o->n_hist++] = cont_idx(t, c, style, hd);
      } else {
        // The first part must hold the start code, the header and the first bits of the slice.
        if (parts > (int)b.n - 8) parts = (int)b.n - 8;
        if (parts < 2) parts = 2;
        // A NALU that is to stay unfinished never gets its last part.
        if (stop_after >= parts) stop_after = parts - 1;
        // Split: the first part is long enough to identify the NALU, the rest is cut evenly.
        size_t head = 12, pos = 0;
        if (head > b.n - (size_t)(parts - 1)) head = b.n - (size_t)(parts - 1);
        size_t rest = b.n - head;
        for (int i = 0; i < parts; i++) {
          size_t len = i == 0 ? head : rest / (size_t)(parts - 1);
          if (i == parts - 1) len = b.n - pos;
          if (cut && parts == 2) len = i == 0 ? b.n - (size_t)cut : (size_t)cut;
          // A private copy, so that reads beyond the part are seen by the sanitizer.
          uint8_t *q = calloc(1, len + 64);
          memcpy(q, b.d + pos, len);
          int last = (i == parts - 1);
          int r1 = signed_video_add_nalu_part_for_signing_with_timestamp(
              o->sv, q, len, tss ? &ts : NULL, last);
          free(q);
          if (r1) rc = r1;
          pos += len;
          if (last && rc == 0 && is_pic(t)) o->hist[o->n_hist++] = cont_idx(t, c, style, hd);
          if (stop_after && i + 1 == stop_after) break;
        }
      }
      bfree(&b);
      ji("rc", rc);
    } else if (!strcmp(op, "get")) {
      // get O [peek=T] [probe=1] [off=1] [nopend=1]
      char *pk = opt(tok, n, "peek");
      int probe = iopt(tok, n, "probe", 0);
      js("peek", pk ? pk : "");
      ji("probe", probe);
      buf_t b = {0};
      if (pk) build_nalu(o->h265, pk[0], 1, 4, 0, opt(tok, n, "hd"), &b);
      if (pk) jhd(&b, o->h265);
      size_t sz = 12345, sz2 = 12345;
      unsigned pend = 77;
      int off = -1;
      int rc = signed_video_get_sei(o->sv, NULL, &sz, NULL, b.d, b.n, &pend);
      ji("rc", rc);
      ji("szp", (long long)sz > 0 ? 1 : 0);
      ji("pend1", pend);
      ji("got", 0);
      if (!probe && rc == 0 && sz > 0) {
        uint8_t *sei = malloc(sz);
        int rc2 = signed_video_get_sei(o->sv, sei, &sz2, &off, b.d, b.n, &pend);
        first_field = 0;
        ji("rc2", rc2);
        ji("same", sz == sz2);
        ji("pend", pend);
        if (rc2 == 0 && sz2 == sz && o->n_sei < MAXSEI) {
          buf_t *k = &o->sei[o->n_sei++];
          bput(k, sei, sz2);
          sei_t s;
          sei_parse(sei, sz2, o->h265, scn_algo, 1, &s);
          ji("offok", off == s.payload_offset);
          sei_free(&s);
          ji("k", o->n_sei - 1);
          jkey("sei");
          jsei(o, sei, sz2, o->h265, 1);
        }
        free(sei);
      }
      bfree(&b);
    } else if (!strcmp(op, "prep")) {
      // prep O: signed_video_get_nalu_to_prepend
      signed_video_nalu_to_prepend_t np = {0};
      int rc = signed_video_get_nalu_to_prepend(o->sv, &np);
      ji("rc", rc);
      ji("instr", np.prepend_instruction);
      if (rc == 0 && np.prepend_instruction == SIGNED_VIDEO_PREPEND_NALU && o->n_sei < MAXSEI) {
        bput(&o->sei[o->n_sei++], np.nalu_data, np.nalu_data_size);
        ji("k", o->n_sei - 1);
        jkey("sei");
        jsei(o, np.nalu_data, np.nalu_data_size, o->h265, 1);
        signed_video_nalu_data_free(np.nalu_data);
      }
    } else if (!strcmp(op, "eos")) {
      ji("rc", signed_video_set_end_of_stream(o->sv));
    } else if (!strcmp(op, "gold")) {
      ji("rc", signed_video_generate_golden_sei(o->sv));
    } else if (!strcmp(op, "reset")) {
      ji("rc", signed_video_reset(o->sv));
    } else if (!strcmp(op, "isgold")) {
      // isgold O S K
      obj_t *s = &objs[atoi(tok[2]) & 7];
      int k = jk = atoi(tok[3]);
      ji("r", k < s->n_sei ? signed_video_is_golden_sei(o->sv, s->sei[k].d, s->sei[k].n) : -1);
      jkey("sei");
      if (k < s->n_sei) jsei(s, s->sei[k].d, s->sei[k].n, s->h265, 1);
      else printf("{\"none\":1}");
    } else if (!strcmp(op, "feed") || !strcmp(op, "feeds")) {
      // feed O T C [tz=] [sc=] [style=] [norep=1]      a picture or other NALU
      // feeds O S K [mut=a,b,c] [tz=] [sc=]             SEI number K fetched from signer S
      buf_t b = {0};
      int tz = iopt(tok, n, "tz", 0), sc = iopt(tok, n, "sc", 4), style = iopt(tok, n, "style", 0);
      int skip = 0;
      if (!strcmp(op, "feed")) {
        char t = tok[2][0];
        int c = atoi(tok[3]);
        char tt[2] = {t, 0};
        js("t", tt);
        ji("c", c);
        char *hd = opt(tok, n, "hd");
        js("h", conts[cont_idx(t, c, style, hd)].sym);
        build_nalu(o->h265, t, c, sc, style, hd, &b);
        jhd(&b, o->h265);
      } else {
        obj_t *s = &objs[atoi(tok[2]) & 7];
        int k = jk = atoi(tok[3]);
        char *mut = opt(tok, n, "mut");
        js("t", "S");
        js("mut", mut ? mut : "");
        ji("s", atoi(tok[2]));
        ji("k", k);
        if (k >= s->n_sei) {
          skip = 1;
        } else if (!mut) {
          bput(&b, s->sei[k].d, s->sei[k].n);
        } else {
          sei_t se;
          sei_parse(s->sei[k].d, s->sei[k].n, s->h265, scn_algo, 1, &se);
          if (s->leg) se.pre = s->leg->cov[k].pre;
          pkey_t *resign = NULL;
          char mm[256];
          snprintf(mm, sizeof(mm), "%s", mut);
          char *sv = NULL;
          for (char *q = strtok_r(mm, ",", &sv); q; q = strtok_r(NULL, ",", &sv))
            if (!mutate(&se, q, &resign, NULL)) skip = 1;
          if (!se.ok) skip = 1;
          if (!skip) sei_encode(&se, scn_algo, resign, &b);
          sei_free(&se);
        }
        if (!skip) {
          // The user, or the encoder, adds emulation prevention if the signer did not.
          sei_t se;
          sei_parse(b.d, b.n, s->h265, scn_algo, 1, &se);
          if (se.is_sv && !(se.res & 0x80)) {
            buf_t e = {0};
            int zeros = 0;
            bput(&e, b.d, 4);
            for (size_t i = 4; i < b.n; i++) {
              if (zeros >= 2 && b.d[i] <= 3) {
                bc(&e, 3);
                zeros = 0;
              }
              bc(&e, b.d[i]);
              zeros = b.d[i] == 0 ? zeros + 1 : 0;
            }
            bfree(&b);
            b = e;
          }
          sei_free(&se);
        }
        if (!skip && sc != 4) {
          if (sc == 3) { memmove(b.d, b.d + 1, b.n - 1); b.n -= 1; }
          if (sc == 0) { memmove(b.d, b.d + 4, b.n - 4); b.n -= 4; }
        }
        if (!skip) {
          jhd(&b, o->h265);
          jkey("sei");
          jsei(s, b.d, b.n, s->h265, 0);
        }
      }
      ji("skip", skip);
      for (int i = 0; i < tz && !skip; i++) bc(&b, 0);
      if (!skip) {
        signed_video_authenticity_t *rep = NULL;
        int norep = iopt(tok, n, "norep", 0);
        uint8_t *q = malloc(b.n);
        memcpy(q, b.d, b.n);
        int rc = signed_video_add_nalu_and_authenticate(o->sv, q, b.n, norep ? NULL : &rep);
        free(q);
        ji("rc", rc);
        ji("norep", norep);
        jreport(rep);
        signed_video_authenticity_report_free(rep);
      }
      bfree(&b);
    } else if (!strcmp(op, "feedb")) {
      // feedb O S K EDITS | feedb O T C EDITS | feedb O x HEX      any bytes; EDITS: comma separated, see above
      buf_t b = {0};
      int skip = 0, h = 4;
      static int unique = 0;
      char nm[24];
      snprintf(nm, sizeof(nm), "?%d", ++unique);
      char mm[512];
      snprintf(mm, sizeof(mm), "%s", n > 4 ? tok[4] : "");
      char *sv = NULL;
      if (tok[2][0] == 'x') {
        unsigned x;
        for (const char *q = tok[3]; sscanf(q, "%2x", &x) == 1; q += 2) bc(&b, (int)x);
      } else if (isdigit((unsigned char)tok[2][0])) {
        obj_t *s = &objs[atoi(tok[2]) & 7];
        int k = atoi(tok[3]);
        if (k >= s->n_sei) {
          skip = 1;
        } else {
          sei_t se;
          sei_parse(s->sei[k].d, s->sei[k].n, s->h265, scn_algo, 1, &se);
          if (s->leg) se.pre = s->leg->cov[k].pre;
          pkey_t *resign = NULL;
          if (!se.ok) skip = 1;
          for (char *q = strtok_r(mm, ",", &sv); q && !skip; q = strtok_r(NULL, ",", &sv))
            if (strchr("LVRTBr", q[0])) edit_tlv(&se, q, &resign);
          if (!skip) sei_encode(&se, scn_algo, resign, &b);
          sei_free(&se);
        }
      } else {
        build_nalu(o->h265, tok[2][0], atoi(tok[3]), 4, 0, NULL, &b);
      }
      snprintf(mm, sizeof(mm), "%s", n > 4 ? tok[4] : "");
      for (char *q = strtok_r(mm, ",", &sv); q && !skip; q = strtok_r(NULL, ",", &sv)) {
        if (!strcmp(q, "nosc") && b.n >= 4 && h == 4) { memmove(b.d, b.d + 4, b.n - 4); b.n -= 4; h = 0; }
        else if (strchr("xfcdik", q[0])) edit_bytes(&b, (size_t)h, q);
      }
      if (!b.n) skip = 1;
      const char *sym = nm;
      if (!skip) {
        // It may still be, or have become, a NAL Unit of the stream.
        size_t p = 0, e = b.n;
        uint8_t hh[64];
        if (b.n > 4 && !memcmp(b.d, "\0\0\0\1", 4)) p = 4;
        else if (b.n > 3 && !memcmp(b.d, "\0\0\1", 3)) p = 3;
        while (e > p && !b.d[e - 1]) e--;
        H(scn_algo, b.d + p, e - p, hh);
        for (int i = 0; i < n_conts; i++)
          if (!memcmp(conts[i].h, hh, hsz())) sym = conts[i].sym;
      }
      js("t", "?");
      js("h", sym);
      if (!skip) jhd(&b, o->h265);
      ji("skip", skip);
      if (!skip) {
        signed_video_authenticity_t *rep = NULL;
        uint8_t *q = malloc(b.n);
        memcpy(q, b.d, b.n);
        signed_video_is_golden_sei(o->sv, q, b.n);
        int rc = signed_video_add_nalu_and_authenticate(o->sv, q, b.n, &rep);
        free(q);
        ji("rc", rc);
        ji("norep", 0);
        jreport(rep);
        signed_video_authenticity_report_free(rep);
      }
      bfree(&b);
    } else if (!strcmp(op, "report")) {
      signed_video_authenticity_t *rep = signed_video_get_authenticity_report(o->sv);
      jreport(rep);
      signed_video_authenticity_report_free(rep);
    } else if (!strcmp(op, "cmpver")) {
      // cmpver 0 A B
      for (int w = 2; w < 4; w++) {
        int x[3] = {0};
        jkey(w == 2 ? "a" : "b");
        if (sscanf(tok[w], "v%d.%d.%d", &x[0], &x[1], &x[2]) == 3) printf("[%d,%d,%d]", x[0], x[1], x[2]);
        else printf("[]");
      }
      ji("r", signed_video_compare_versions(tok[2], tok[3]));
    }
#ifdef MOCK_PLUGIN
    else if (!strcmp(op, "plug")) {
      // plug O mode(ready N | fail)
      js("what", tok[2]);
      int v = n > 3 ? atoi(tok[3]) : 0;
      ji("v", v);
      mock_cmd(tok[2], v);
    }
#endif
    else {
      js("err", "unknown op");
    }
    // An allocation failed in this call.
    if (armed > 0 && fault == 0) ji("hit", 1);
    ji("n", evno);
    jclose();
  }
  scn_end();
  return 0;
}
