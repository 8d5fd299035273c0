/* Driver for the signing plugins, with the schedule under control.
 *
 * The plugin under test is compiled from /repo as it is. Its threads, mutexes and conditions (glib) are stand-ins defined
 * here: one thread runs at a time, and which one runs next is decided at scheduling points by the script (tokens) or by a
 * generator. Signing (openssl_sign_hash) is wrapped: a scheduling point, failing if the script says so.
 *
 * stdin:  scn NAME [sched=TOKENS] [seed=N] [fine=1] [spur=1] [fail=h,h] [nothread=k]
 *         prog T init|initold|exit|setup|sign|get|drop|wait ARGS
 *         end
 * stdout: one JSON event per line: call, ret, begin, end, thread, quiet, dead, misuse, race, crash.
 * Every scenario runs in a process of its own. */
#define _GNU_SOURCE
#include <errno.h>
#include <glib.h>
#include <linux/futex.h>
#include <openssl/bio.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

#include "signed_video_openssl.h"
#include "signed_video_signing_plugin.h"

extern void __tsan_acquire(void *) __attribute__((weak));
extern void __tsan_release(void *) __attribute__((weak));

#define MAXT 48
#define MAXOP 512
#define MAXS 64
#define MAXSIG 2048

typedef struct {
  char f[8];
  int a, b, c;
  char k[8];
} op_t;
enum { READY, MUTEX, COND, JOIN, WAIT, DONE };
typedef struct task {
  char name;
  pthread_t th;
  int baton;
  int state;
  void *on;         // what it waits for
  GMutex *relock;   // mutex to take again after a condition
  int64_t deadline; // of a timed wait, or -1
  int timedout;
  int isworker;
  GThreadFunc fn;
  gpointer arg;
  op_t ops[MAXOP];
  int nops, at;
} task_t;

static task_t tasks[MAXT];
static int ntasks, ncallers, nworkers, created;
static task_t *cur;
static char sched[8192];
static int sp, fine, spur, nothread, failh[64], nfail;
static uint64_t rng;
static int64_t now;
static void *handle[MAXS];
static char keyof[MAXS];
static struct {
  int h;
  size_t n;
  uint8_t b[600];
} sigs[MAXSIG];
static int nsigs;
static char *pem[3];
static size_t pemn[3];
static EVP_PKEY *pub[3];
static const char KN[] = "ABR";

static void ev(const char *fmt, ...)
{
  char b[600];
  va_list a;
  va_start(a, fmt);
  int n = vsnprintf(b, sizeof(b) - 2, fmt, a);
  va_end(a);
  b[n++] = '\n';
  if (write(1, b, n) != n) _exit(3);
}
static uint32_t rnd(uint32_t n)
{
  rng = rng * 6364136223846793005ull + 1442695040888963407ull;
  return (uint32_t)(rng >> 33) % n;
}

/* ------------------------------------------------------------ scheduling */
static void sleep_on(int *w)
{
  while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, NULL, NULL, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
static void hand_to(int *w)
{
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, NULL, NULL, 0);
}
static int runnable(task_t *t)
{
  switch (t->state) {
    case READY: return 1;
    case MUTEX: return *(void **)t->on == NULL;
    case COND: return 0;
    case JOIN: return ((task_t *)t->on)->state == DONE;
    case WAIT: return tasks[t->ops[t->at].a].at >= t->ops[t->at].b;
    default: return 0;
  }
}
/* A condition may wake without a signal, and a timed wait may time out. */
static void wake(task_t *t, int timedout)
{
  t->state = MUTEX;
  t->on = t->relock;
  t->timedout = timedout;
}
static void finish(void)
{
  int stuck = 0;
  for (int i = 0; i < ntasks; i++)
    if (tasks[i].state != DONE && !tasks[i].isworker) stuck = 1;
  if (stuck)
    for (int i = 0; i < ntasks; i++)
      if (tasks[i].state != DONE && !tasks[i].isworker && tasks[i].state != WAIT) ev("{\"op\":\"dead\",\"t\":%d}", i);
  if (!stuck) ev("{\"op\":\"quiet\"}");
  syscall(SYS_exit_group, 0);
}
static task_t *pick(void)
{
  for (;;) {
    task_t *c[MAXT];
    int n = 0;
    for (int i = 0; i < ntasks; i++)
      if (runnable(&tasks[i])) c[n++] = &tasks[i];
    while (sched[sp]) {
      char k = sched[sp++];
      for (int i = 0; i < n; i++)
        if (c[i]->name == k) return c[i];
    }
    if (n && spur && rnd(12) == 0) {
      task_t *t = &tasks[rnd(ntasks)];
      if (t->state == COND) {
        wake(t, t->deadline >= 0 && rnd(2));
        continue;
      }
    }
    if (n) return c[rnd(n)];
    task_t *best = NULL;
    for (int i = 0; i < ntasks; i++)
      if (tasks[i].state == COND && tasks[i].deadline >= 0 && (!best || tasks[i].deadline < best->deadline)) best = &tasks[i];
    if (!best) finish();
    if (best->deadline > now) now = best->deadline;
    wake(best, 1);
  }
}
/* The running task has set its state; returns when it is to run again. */
static void yield(void)
{
  task_t *me = cur, *t = pick();
  t->state = t->state == WAIT ? WAIT : READY;
  cur = t;
  if (t == me) return;
  int dead = me->state == DONE;
  hand_to(&t->baton);
  if (!dead) sleep_on(&me->baton);
}

/* ------------------------------------------------------------ glib stand-ins */
static void take(GMutex *m)
{
  while (m->p) {
    if (m->p == cur) ev("{\"op\":\"misuse\",\"what\":\"locked twice\"}");
    cur->state = MUTEX;
    cur->on = m;
    yield();
  }
  m->p = cur;
  if (__tsan_acquire) __tsan_acquire(m);
}
static void give(GMutex *m)
{
  if (m->p != cur) ev("{\"op\":\"misuse\",\"what\":\"unlocked without owning\"}");
  if (__tsan_release) __tsan_release(m);
  m->p = NULL;
}
void g_mutex_init(GMutex *m)
{
  m->p = NULL;
}
void g_mutex_clear(GMutex *m)
{
  if (m->p) ev("{\"op\":\"misuse\",\"what\":\"cleared while locked\"}");
}
void g_mutex_lock(GMutex *m)
{
  if (fine) {
    cur->state = READY;
    yield();
  }
  take(m);
}
gboolean g_mutex_trylock(GMutex *m)
{
  if (fine) {
    cur->state = READY;
    yield();
  }
  if (m->p) return FALSE;
  take(m);
  return TRUE;
}
void g_mutex_unlock(GMutex *m)
{
  give(m);
  if (fine) {
    cur->state = READY;
    yield();
  }
}
void g_cond_init(GCond *c)
{
  memset(c, 0, sizeof(*c));
}
void g_cond_clear(GCond *c)
{
  (void)c;
}
static int cwait(GCond *c, GMutex *m, int64_t deadline)
{
  give(m);
  cur->state = COND;
  cur->on = c;
  cur->relock = m;
  cur->deadline = deadline;
  cur->timedout = 0;
  yield();
  take(m);
  return !cur->timedout;
}
void g_cond_wait(GCond *c, GMutex *m)
{
  cwait(c, m, -1);
}
gboolean g_cond_wait_until(GCond *c, GMutex *m, gint64 end)
{
  return cwait(c, m, end);
}
void g_cond_signal(GCond *c)
{
  task_t *w[MAXT];
  int n = 0;
  for (int i = 0; i < ntasks; i++)
    if (tasks[i].state == COND && tasks[i].on == c) w[n++] = &tasks[i];
  if (n) wake(w[rnd(n)], 0);
}
void g_cond_broadcast(GCond *c)
{
  for (int i = 0; i < ntasks; i++)
    if (tasks[i].state == COND && tasks[i].on == c) wake(&tasks[i], 0);
}
gint64 g_get_monotonic_time(void)
{
  return now;
}
void g_usleep(gulong us)
{
  now += us;
  cur->state = READY;
  yield();
}
void g_thread_yield(void)
{
  cur->state = READY;
  yield();
}
static void *worker(void *p)
{
  task_t *t = p;
  sleep_on(&t->baton);
  t->fn(t->arg);
  t->state = DONE;
  yield();
  return NULL;
}
GThread *g_thread_try_new(const gchar *name, GThreadFunc fn, gpointer arg, GError **err)
{
  (void)name;
  if (err) *err = NULL;
  created++;
  if (created == nothread || ntasks >= MAXT) {
    ev("{\"op\":\"thread\",\"t\":%d,\"ok\":0}", (int)(cur - tasks));
    return NULL;
  }
  task_t *t = &tasks[ntasks++];
  t->name = 'a' + nworkers++;
  t->isworker = 1;
  t->fn = fn;
  t->arg = arg;
  t->state = READY;
  if (pthread_create(&t->th, NULL, worker, t)) _exit(3);
  return (GThread *)t;
}
GThread *g_thread_new(const gchar *name, GThreadFunc fn, gpointer arg)
{
  return g_thread_try_new(name, fn, arg, NULL);
}
gpointer g_thread_join(GThread *th)
{
  task_t *t = (task_t *)th;
  cur->state = JOIN;
  cur->on = t;
  yield();
  pthread_join(t->th, NULL);
  return NULL;
}
void g_thread_unref(GThread *th)
{
  (void)th;
}

/* ------------------------------------------------------------ signing */
static void hash_fill(uint8_t *b, int h, int n)
{
  for (int k = 0; k < n; k++) b[k] = (uint8_t)(h * 131 + (h >> 8) * 17 + k * 7 + 1);
  if (n > 1) {
    b[0] = (uint8_t)h;
    b[1] = (uint8_t)(h >> 8);
  }
}
static int hash_id(const uint8_t *b, size_t n)
{
  uint8_t w[64];
  if (!b || n > 64 || n < 2) return -1;
  for (int h = 1; h < 2000; h++) {
    hash_fill(w, h, (int)n);
    if (!memcmp(w, b, n)) return h;
  }
  return -1;
}
SignedVideoReturnCode __real_openssl_sign_hash(sign_or_verify_data_t *);
SignedVideoReturnCode __wrap_openssl_sign_hash(sign_or_verify_data_t *d)
{
  int h = hash_id(d->hash, d->hash_size), bad = 0;
  if (cur->isworker) {
    ev("{\"op\":\"begin\",\"h\":%d}", h);
    cur->state = READY;
    yield();
  }
  for (int i = 0; i < nfail; i++)
    if (failh[i] == h) bad = 1;
  SignedVideoReturnCode rc = bad ? SV_EXTERNAL_ERROR : __real_openssl_sign_hash(d);
  if (rc == SV_OK && nsigs < MAXSIG && d->signature_size <= sizeof(sigs[0].b)) {
    sigs[nsigs].h = hash_id(d->hash, d->hash_size);
    sigs[nsigs].n = d->signature_size;
    memcpy(sigs[nsigs].b, d->signature, d->signature_size);
    nsigs++;
  }
  if (cur->isworker) ev("{\"op\":\"end\",\"h\":%d,\"ok\":%d}", h, rc == SV_OK);
  return rc;
}
static int verifies(EVP_PKEY *k, int h, int hn, const uint8_t *sig, size_t n)
{
  uint8_t b[64];
  hash_fill(b, h, hn);
  EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, NULL);
  int r = EVP_PKEY_verify_init(c) == 1;
  if (r && EVP_PKEY_base_id(k) == EVP_PKEY_RSA)
    r = EVP_PKEY_CTX_set_rsa_padding(c, RSA_PKCS1_PADDING) == 1 && EVP_PKEY_CTX_set_signature_md(c, EVP_sha256()) == 1;
  r = r && EVP_PKEY_verify(c, sig, n, b, hn) == 1;
  EVP_PKEY_CTX_free(c);
  return r;
}

/* ------------------------------------------------------------ callers */
static int hsize[2000];
static const char *keypem(const char *k, size_t *n)
{
  for (int i = 0; i < 3; i++)
    if (k[0] == KN[i]) {
      *n = pemn[i];
      return pem[i];
    }
  if (k[0] == 'x') {
    *n = 20;
    return "this is not a key...";
  }
  *n = 0;
  return NULL;
}
int sv_signing_plugin_init_new(void *) __attribute__((weak));
static void run_op(int t, op_t *o)
{
  size_t n;
  if (!strcmp(o->f, "init") || !strcmp(o->f, "initold")) {
    ev("{\"op\":\"call\",\"t\":%d,\"f\":\"init\",\"k\":\"%s\"}", t, o->k);
    const char *p = keypem(o->k, &n);
    int rc;
    if (o->f[4]) {
      signature_info_t si = {0};
      si.private_key = (void *)p;
      si.private_key_size = n;
      rc = sv_signing_plugin_init(&si);
    } else {
      pem_pkey_t pk = {(void *)p, n};
      rc = sv_signing_plugin_init_new ? sv_signing_plugin_init_new(&pk) : sv_signing_plugin_init(&pk);
    }
    ev("{\"op\":\"ret\",\"t\":%d,\"rc\":%d}", t, rc);
  } else if (!strcmp(o->f, "exit")) {
    ev("{\"op\":\"call\",\"t\":%d,\"f\":\"exit\",\"a\":%d}", t, o->a);
    sv_signing_plugin_exit(o->a ? (void *)&n : NULL);
    ev("{\"op\":\"ret\",\"t\":%d,\"rc\":0}", t);
  } else if (!strcmp(o->f, "setup")) {
    ev("{\"op\":\"call\",\"t\":%d,\"f\":\"setup\",\"s\":%d,\"k\":\"%s\"}", t, o->a, o->k);
    const char *p = keypem(o->k, &n);
    handle[o->a] = sv_signing_plugin_session_setup(p, n);
    ev("{\"op\":\"ret\",\"t\":%d,\"rc\":%d}", t, handle[o->a] ? 1 : 0);
  } else if (!strcmp(o->f, "drop")) {
    ev("{\"op\":\"call\",\"t\":%d,\"f\":\"drop\",\"s\":%d}", t, o->a);
    void *h = handle[o->a];
    handle[o->a] = NULL;
    sv_signing_plugin_session_teardown(h);
    ev("{\"op\":\"ret\",\"t\":%d,\"rc\":0}", t);
  } else if (!strcmp(o->f, "sign")) {
    // sign S H N (N: size, 0 or negative: none)
    ev("{\"op\":\"call\",\"t\":%d,\"f\":\"sign\",\"s\":%d,\"h\":%d,\"n\":%d}", t, o->a, o->b, o->c);
    uint8_t *b = malloc(64);
    hash_fill(b, o->b, o->c > 0 ? o->c : 0);
    hsize[o->b] = o->c;
    int rc = sv_signing_plugin_sign(handle[o->a], o->c < 0 ? NULL : b, o->c < 0 ? 32 : o->c);
    memset(b, 0xee, 64);
    free(b);
    ev("{\"op\":\"ret\",\"t\":%d,\"rc\":%d}", t, rc);
  } else if (!strcmp(o->f, "get")) {
    // get S MAX NOERR
    ev("{\"op\":\"call\",\"t\":%d,\"f\":\"get\",\"s\":%d,\"max\":%d,\"noerr\":%d}", t, o->a, o->b, o->c);
    uint8_t *b = malloc(608);
    memset(b, 0xa5, 608);
    size_t w = 77777;
    SignedVideoReturnCode err = -77;
    bool r = sv_signing_plugin_get_signature(handle[o->a], b, o->b ? o->b : 600, &w, o->c ? NULL : &err);
    int h = 0, wr = w == 77777 ? 2 : w == 0 ? 0 : -1, touched = 0;
    char key = '-';
    size_t used = 0;
    for (int i = 0; i < nsigs && wr == -1; i++)
      if (sigs[i].n == w && !memcmp(sigs[i].b, b, w)) {
        h = sigs[i].h;
        wr = 1;
        used = w;
        for (int k = 0; k < 3; k++)
          if (h > 0 && verifies(pub[k], h, hsize[h], b, w)) key = KN[k];
      }
    for (size_t i = used; i < 608; i++)
      if (b[i] != 0xa5) touched = 1;
    free(b);
    ev("{\"op\":\"ret\",\"t\":%d,\"rc\":%d,\"err\":%d,\"h\":%d,\"wr\":%d,\"key\":\"%c\",\"over\":%d}", t, r, (int)err, h, wr, key, touched);
  }
}
static void *caller(void *p)
{
  task_t *t = p;
  sleep_on(&t->baton);
  for (;;) {
    if (t->at > 0 && __tsan_release) __tsan_release(t);
    if (t->at >= t->nops) break;
    op_t *o = &t->ops[t->at];
    if (!strcmp(o->f, "wait")) {
      t->state = WAIT;
      yield();
      t->state = READY;
      if (__tsan_acquire) __tsan_acquire(&tasks[o->a]);
      t->at++;
      continue;
    }
    t->state = READY;
    yield();
    run_op((int)(t - tasks), o);
    t->at++;
  }
  t->state = DONE;
  yield();
  return NULL;
}
void __tsan_on_report(void *rep)
{
  (void)rep;
  ev("{\"op\":\"race\"}");
}

static void run(void)
{
  for (int i = 0; i < ncallers; i++) {
    tasks[i].state = READY;
    tasks[i].name = '0' + i;
    if (pthread_create(&tasks[i].th, NULL, caller, &tasks[i])) _exit(3);
  }
  cur = pick();
  cur->state = READY;
  hand_to(&cur->baton);
  for (;;) pause();
}

static void load(const char *dir)
{
  for (int i = 0; i < 3; i++) {
    char f[500];
    snprintf(f, sizeof(f), "%s/%c.pem", dir, KN[i]);
    FILE *fp = fopen(f, "r");
    if (!fp) exit(2);
    pem[i] = calloc(1, 8192);
    pemn[i] = fread(pem[i], 1, 8191, fp);
    fclose(fp);
    BIO *b = BIO_new_mem_buf(pem[i], (int)pemn[i]);
    pub[i] = PEM_read_bio_PrivateKey(b, NULL, NULL, NULL);
    BIO_free(b);
    if (!pub[i]) exit(2);
  }
}

int main(int argc, char **argv)
{
  if (argc < 2) return 2;
  load(argv[1]);
  int limit = argc > 2 ? atoi(argv[2]) : 40;
  static char ln[16384];
  while (fgets(ln, sizeof(ln), stdin)) {
    char *w = strtok(ln, " \n");
    if (!w) continue;
    if (!strcmp(w, "scn")) {
      memset(tasks, 0, sizeof(tasks));
      ntasks = ncallers = nworkers = created = sp = fine = spur = nothread = nfail = nsigs = 0;
      rng = 1;
      now = 1000;
      sched[0] = 0;
      char *nm = strtok(NULL, " \n");
      ev("{\"op\":\"scn\",\"id\":\"%s\"}", nm);
      while ((w = strtok(NULL, " \n"))) {
        if (!strncmp(w, "sched=", 6)) snprintf(sched, sizeof(sched), "%s", w + 6);
        if (!strncmp(w, "seed=", 5)) rng = strtoull(w + 5, NULL, 10) * 7919 + 13;
        if (!strncmp(w, "fine=", 5)) fine = atoi(w + 5);
        if (!strncmp(w, "spur=", 5)) spur = atoi(w + 5);
        if (!strncmp(w, "nothread=", 9)) nothread = atoi(w + 9);
        if (!strncmp(w, "fail=", 5))
          for (char *q = w + 5; *q && nfail < 64; q = *q == ',' ? q + 1 : q) failh[nfail++] = (int)strtol(q, &q, 10);
      }
    } else if (!strcmp(w, "prog")) {
      int t = atoi(strtok(NULL, " \n"));
      if (t < 0 || t >= 10) return 2;
      if (t >= ncallers) ntasks = ncallers = t + 1;
      op_t *o = &tasks[t].ops[tasks[t].nops++];
      if (tasks[t].nops >= MAXOP) return 2;
      snprintf(o->f, sizeof(o->f), "%s", strtok(NULL, " \n"));
      strcpy(o->k, "-");
      int *slot[3] = {&o->a, &o->b, &o->c}, k = 0;
      while ((w = strtok(NULL, " \n"))) {
        if ((w[0] >= '0' && w[0] <= '9') || (w[0] == '-' && w[1])) {
          if (k < 3) *slot[k++] = atoi(w);
        } else
          snprintf(o->k, sizeof(o->k), "%s", w);
      }
    } else if (!strcmp(w, "end")) {
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) {
        alarm(limit);
        run();
      }
      int st = 0;
      waitpid(p, &st, 0);
      if (WIFSIGNALED(st)) ev("{\"op\":\"%s\",\"sig\":%d}", WTERMSIG(st) == SIGALRM ? "hang" : "crash", WTERMSIG(st));
      else if (WEXITSTATUS(st) == 3) return 3;
      else if (WEXITSTATUS(st)) ev("{\"op\":\"crash\",\"sig\":%d}", -WEXITSTATUS(st));
      ev("{\"op\":\"done\"}");
    } else
      return 2;
  }
  return 0;
}
