// See mock_plugin.h. Signatures are delivered in the order in which they were asked for.
#include "mock_plugin.h"

#include <openssl/bio.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <stdlib.h>
#include <string.h>

#include "signed_video_signing_plugin.h"

#define N 256
typedef struct {
  uint8_t sig[1024];
  size_t n;
  int ready;  // 0: not yet, 1: yes, -1: failed
} slot_t;
typedef struct mock {
  EVP_PKEY *key;
  slot_t q[N];
  int cnt;
} mock_t;
static mock_t *all[16];
static int hold, signfail;

void mock_reset(void)
{
  hold = signfail = 0;
}
void mock_cmd(const char *what, int v)
{
  if (!strcmp(what, "hold")) hold = v;
  if (!strcmp(what, "signfail")) signfail = 1;
  if (!strcmp(what, "release") || !strcmp(what, "fail"))
    for (int i = 0; i < 16; i++)
      if (all[i])
        for (int k = 0, left = v; k < all[i]->cnt && left > 0; k++)
          if (all[i]->q[k].ready == 0) {
            all[i]->q[k].ready = what[0] == 'r' ? 1 : -1;
            left--;
          }
}

SignedVideoReturnCode sv_signing_plugin_sign(void *handle, const uint8_t *hash, size_t hash_size)
{
  mock_t *m = handle;
  if (signfail) {
    signfail = 0;
    return SV_EXTERNAL_ERROR;
  }
  if (!m || !hash || m->cnt >= N) return SV_NOT_SUPPORTED;
  slot_t *s = &m->q[m->cnt];
  EVP_PKEY_CTX *ctx = EVP_PKEY_CTX_new(m->key, NULL);
  EVP_PKEY_sign_init(ctx);
  if (EVP_PKEY_base_id(m->key) == EVP_PKEY_RSA) {
    EVP_PKEY_CTX_set_rsa_padding(ctx, RSA_PKCS1_PADDING);
    EVP_PKEY_CTX_set_signature_md(ctx, EVP_sha256());
  }
  s->n = sizeof(s->sig);
  int ok = EVP_PKEY_sign(ctx, s->sig, &s->n, hash, hash_size) > 0;
  EVP_PKEY_CTX_free(ctx);
  if (!ok) return SV_EXTERNAL_ERROR;
  int waiting = hold;
  for (int k = 0; k < m->cnt; k++) waiting |= m->q[k].ready == 0;
  s->ready = !waiting;
  m->cnt++;
  return SV_OK;
}

bool sv_signing_plugin_get_signature(
    void *handle, uint8_t *signature, size_t max, size_t *written, SignedVideoReturnCode *error)
{
  mock_t *m = handle;
  if (!m || !signature || !written) return false;
  if (error) *error = SV_OK;
  if (m->cnt == 0 || m->q[0].ready == 0) return false;
  if (m->q[0].ready < 0) {
    if (error) *error = SV_EXTERNAL_ERROR;
    *written = 0;
  } else {
    if (m->q[0].n > max) return false;
    memcpy(signature, m->q[0].sig, m->q[0].n);
    *written = m->q[0].n;
  }
  memmove(&m->q[0], &m->q[1], sizeof(slot_t) * (size_t)(m->cnt - 1));
  m->cnt--;
  return true;
}

void *sv_signing_plugin_session_setup(const void *private_key, size_t n)
{
  if (!private_key || !n) return NULL;
  BIO *bio = BIO_new_mem_buf(private_key, (int)n);
  EVP_PKEY *k = PEM_read_bio_PrivateKey(bio, NULL, NULL, NULL);
  BIO_free(bio);
  if (!k) return NULL;
  mock_t *m = calloc(1, sizeof(*m));
  m->key = k;
  for (int i = 0; i < 16; i++)
    if (!all[i]) {
      all[i] = m;
      break;
    }
  return m;
}
void sv_signing_plugin_session_teardown(void *handle)
{
  mock_t *m = handle;
  if (!m) return;
  for (int i = 0; i < 16; i++)
    if (all[i] == m) all[i] = NULL;
  EVP_PKEY_free(m->key);
  free(m);
}
int sv_signing_plugin_init(void *user_data) { (void)user_data; return 0; }
void sv_signing_plugin_exit(void *user_data) { (void)user_data; }
