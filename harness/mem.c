// Counts what is allocated and not yet given back, by the library (and the driver) as well as by OpenSSL on their
// behalf. Linked with --wrap for the functions below.
#include <openssl/crypto.h>
#include <openssl/err.h>
#include <stdatomic.h>
#include <stdlib.h>
#include <string.h>
#include "mem.h"

void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t m);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);

static atomic_long live;
// Countdown to the allocation that fails; the library's own ones only.
static long fail_in;
static int failing(void) { return fail_in > 0 && --fail_in == 0; }
void mem_fail(long k) { fail_in = k; }
long mem_fail_left(void) { return fail_in; }

void *__wrap_malloc(size_t n)
{
  if (failing()) return NULL;
  void *p = __real_malloc(n);
  if (p) live++;
  return p;
}
void *__wrap_calloc(size_t n, size_t m)
{
  if (failing()) return NULL;
  void *p = __real_calloc(n, m);
  if (p) live++;
  return p;
}
void *__wrap_realloc(void *p, size_t n)
{
  if (failing()) return NULL;
  void *q = __real_realloc(p, n);
  if (!p && q) live++;
  if (p && !q && !n) live--;
  return q;
}
void __wrap_free(void *p)
{
  if (p) live--;
  __real_free(p);
}
char *__wrap_strdup(const char *s)
{
  char *p = __wrap_malloc(strlen(s) + 1);
  return p ? strcpy(p, s) : p;
}
char *__wrap_strndup(const char *s, size_t n)
{
  size_t k = strnlen(s, n);
  char *p = __wrap_malloc(k + 1);
  if (!p) return p;
  p[k] = 0;
  return memcpy(p, s, k);
}
static void *cm(size_t n, const char *f, int l)
{
  void *p = __real_malloc(n);
  if (p) live++;
  return p;
}
static void *cr(void *p, size_t n, const char *f, int l)
{
  void *q = __real_realloc(p, n);
  if (!p && q) live++;
  if (p && !q && !n) live--;
  return q;
}
static void cf(void *p, const char *f, int l) { __wrap_free(p); }

void mem_init(void)
{
  if (!CRYPTO_set_mem_functions(cm, cr, cf)) exit(3);
}
long mem_live(void)
{
  ERR_clear_error();
  return live;
}
