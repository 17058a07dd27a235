/* Runs scripted histories of calls into the runtime library, one child process
 * per history, and records the results.
 * A history is one line: id san ops...   with numbers only (see rt.rs). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

typedef struct { const uint8_t *ptr; uint64_t len; } Bytes;
extern void __tribute_init(void), __asan_init(void);
extern int32_t __tribute_next_tag(void);
extern void *__tribute_alloc(uint64_t);
extern void __tribute_dealloc(void *, uint64_t);
extern void *__tribute_evidence_empty(void);
extern void *__tribute_evidence_extend(void *, int32_t, int32_t, void *, void *);
extern int32_t __tribute_evidence_lookup(void *, int32_t);
extern void *__tribute_evidence_lookup_tr(void *, int32_t);
extern void *__tribute_evidence_lookup_handler(void *, int32_t);
extern uint32_t __tribute_bytes_len(Bytes *), __tribute_bytes_range_equal(Bytes *, uint32_t, Bytes *, uint32_t, uint32_t);
extern Bytes *__tribute_bytes_concat(Bytes *, Bytes *), *__tribute_bytes_slice_or_panic(Bytes *, uint32_t, uint32_t);
extern void __tribute_bytes_print(Bytes *);

#define MAXTXT (8 << 20)
typedef struct { volatile int n, done, over; char s[MAXTXT]; } Log;
static Log *lg;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static void txt(const char *f, long a) {
  if (lg->n + 64 > MAXTXT) { lg->over = 1; _exit(9); }
  lg->n += sprintf(lg->s + lg->n, f, a);
}
static void sep(const char *k) {
  if (lg->n) txt(",", 0);
  txt("[", 0);
  lg->n += sprintf(lg->s + lg->n, "\"%s\"", k);
}
static void put(long a) { txt(",%ld", a); }
static void end(void) { txt("]", 0); }
static void bytes(const uint8_t *p, size_t n) {
  txt(",[", 0);
  for (size_t i = 0; i < n; i++) txt(i ? ",%ld" : "%ld", p[i]);
  txt("]", 0);
}

/* what the library prints */
static int printing;
static uint8_t outb[1 << 16];
static size_t outn;
ssize_t write(int fd, const void *p, size_t n) {
  if (printing && outn + n <= sizeof outb) { memcpy(outb + outn, p, n); outn += n; }
  return n;
}

/* the creation of the thread-local key is slow: others arrive meanwhile */
static int slow;
int pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
  static int (*real)(pthread_key_t *, void (*)(void *));
  if (!real) real = dlsym(RTLD_NEXT, "pthread_key_create");
  if (!slow) return real(k, d);
  pthread_mutex_lock(&lock);
  sep("key"); end();
  pthread_mutex_unlock(&lock);
  usleep(3000);
  int r = real(k, d);
  usleep(1000);
  pthread_mutex_lock(&lock);
  sep("made"); end();
  pthread_mutex_unlock(&lock);
  return r;
}
static pthread_barrier_t bar;
static int rounds, stagger;
static void *worker(void *a) {
  long me = (long)a;
  pthread_barrier_wait(&bar);
  if (stagger) usleep(me * stagger);
  for (int i = 0; i < rounds; i++) {
    __tribute_init();
    pthread_mutex_lock(&lock);
    sep("up"); put(me); end();
    pthread_mutex_unlock(&lock);
    int t = __tribute_next_tag();
    pthread_mutex_lock(&lock);
    sep("tag"); put(me); put(t); end();
    pthread_mutex_unlock(&lock);
    if (i % 3 == 1) sched_yield();
  }
  return 0;
}

enum { EMPTY = 1, EXTEND, LOOKUP, MK, CAT, CUT, LEN, EQ, SEE, OUT, ALLOC, FILL, LOOK, BESIDE, FREE, THREADS, TAG, MANY };
static int by_value(const void *a, const void *b) { return *(int32_t *)a < *(int32_t *)b ? -1 : *(int32_t *)a > *(int32_t *)b; }
#define MAXH 4096
static void *ev[MAXH];
static Bytes *by[MAXH];
static uint8_t *mem[MAXH];
static uint64_t size[MAXH];
static char *cur;
static long num(void) { return strtol(cur, &cur, 10); }

static void run(void) {
  for (;;) {
    while (*cur == ' ') cur++;
    if (!*cur || *cur == '\n') return;
    long op = num(), h = num();
    switch (op) {
    case EMPTY: sep("empty"); put(h); end(); ev[h] = __tribute_evidence_empty(); break;
    case EXTEND: {
      long s = num(), id = num(), tag = num(), tr = num(), hd = num();
      sep("extend"); put(h); put(s); put(id); put(tag); put(tr); put(hd); end();
      ev[h] = __tribute_evidence_extend(ev[s], id, tag, (void *)tr, (void *)hd);
      break;
    }
    case LOOKUP: {
      long id = num();
      sep("lookup"); put(h); put(id);
      txt(",[%ld", __tribute_evidence_lookup(ev[h], id));
      txt(",%ld", (long)__tribute_evidence_lookup_tr(ev[h], id));
      txt(",%ld]", (long)__tribute_evidence_lookup_handler(ev[h], id));
      end();
      break;
    }
    case MK: {
      long n = num();
      uint32_t *box = malloc(24);
      uint8_t *d = n ? malloc(n) : 0;
      for (long i = 0; i < n; i++) d[i] = num();
      box[0] = 1; box[1] = 0;
      by[h] = (Bytes *)(box + 2);
      by[h]->ptr = d; by[h]->len = n;
      sep("mk"); put(h); bytes(d, n); end();
      break;
    }
    case CAT: {
      long a = num(), b = num();
      sep("cat"); put(h); put(a); put(b); end();
      by[h] = __tribute_bytes_concat(by[a], by[b]);
      break;
    }
    case CUT: {
      long s = num(), a = num(), b = num();
      sep("cut"); put(h); put(s); put(a); put(b);
      int at = lg->n;
      txt(",\"abort\"]", 0);   /* stands when the call does not return */
      by[h] = __tribute_bytes_slice_or_panic(by[s], a, b);
      lg->n = at;
      txt(",\"ok\"]", 0);
      break;
    }
    case LEN: sep("len"); put(h); put(__tribute_bytes_len(by[h])); end(); break;
    case EQ: {
      long i = num(), o = num(), j = num(), n = num();
      sep("eq"); put(h); put(i); put(o); put(j); put(n);
      put(__tribute_bytes_range_equal(by[h], i, by[o], j, n)); end();
      break;
    }
    case SEE: sep("see"); put(h); bytes(by[h]->ptr, by[h]->len); put(((uint32_t *)by[h])[-2]); end(); break;
    case OUT:
      printing = 1; outn = 0;
      __tribute_bytes_print(by[h]);
      printing = 0;
      sep("out"); put(h); bytes(outb, outn); end();
      break;
    case ALLOC: {
      size[h] = num();
      mem[h] = __tribute_alloc(size[h]);
      sep("alloc"); put(h); put(size[h]); put((long)mem[h]); put((long)mem[h] + size[h]); put((long)mem[h] % 8 == 0); end();
      break;
    }
    case FILL: { long v = num(); if (mem[h]) memset(mem[h], v, size[h]); sep("fill"); put(h); put(v); end(); break; }
    case LOOK: {
      long v = -2;
      for (uint64_t i = 0; i < size[h]; i++)
        if (i == 0) v = mem[h][0];
        else if (mem[h][i] != v) { v = -2; break; }
      sep("look"); put(h); put(v); end();
      break;
    }
    case BESIDE: {   /* a write in front of or behind the block, by at most 32 bytes */
      long off = num();
      uint8_t *p = off < 0 ? mem[h] + off : mem[h] + size[h] + off;
      *p ^= 0x5a;
      sep("beside"); put(h); put(off); end();
      break;
    }
    case FREE: {
      sep("free"); put(h);
      int at = lg->n;
      txt(",\"abort\"]", 0);
      __tribute_dealloc(mem[h], size[h]);
      lg->n = at;
      txt(",\"ok\"]", 0);
      break;
    }
    case THREADS: {   /* h threads, rounds */
      rounds = num();
      stagger = num();
      pthread_t th[64];
      slow = 1;
      pthread_barrier_init(&bar, 0, h);
      for (long i = 0; i < h; i++) pthread_create(&th[i], 0, worker, (void *)(i + 1));
      for (long i = 0; i < h; i++) pthread_join(th[i], 0);
      slow = 0;
      break;
    }
    case TAG:
      slow = 1;
      __tribute_init();
      slow = 0;
      sep("up"); put(h); end();
      sep("tag"); put(h); put(__tribute_next_tag()); end();
      break;
    case MANY: {   /* h prompt tags in a row: how many are distinct */
      __tribute_init();
      int32_t *t = malloc(h * sizeof *t);
      for (long i = 0; i < h; i++) t[i] = __tribute_next_tag();
      qsort(t, h, sizeof *t, by_value);
      long d = h > 0;
      for (long i = 1; i < h; i++) d += t[i] != t[i - 1];
      sep("many"); put(h); put(d); end();
      free(t);
      break;
    }
    default: _exit(7);
    }
  }
}

int main(int argc, char **argv) {
  FILE *in = fopen(argv[1], "r");
  lg = mmap(0, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  char *line = 0;
  size_t cap = 0;
  int hung = 0;
  while (getline(&line, &cap, in) > 0) {
    cur = line;
    long id = num(), san = num();
    lg->n = lg->done = lg->over = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      alarm(5);
      if (san) __asan_init();
      run();
      lg->done = 1;
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    const char *how = "done";
    if (lg->over) how = "over";
    else if (WIFSIGNALED(st)) how = WTERMSIG(st) == SIGABRT || WTERMSIG(st) == SIGILL ? "abort" : WTERMSIG(st) == SIGALRM ? "timeout" : "signal";
    else if (!lg->done) how = "exit";
    lg->s[lg->n] = 0;
    printf("{\"job\":%ld,\"st\":\"%s\",\"ev\":[%s]}\n", id, how, lg->s);
    if (!strcmp(how, "timeout") && ++hung > 10) exit(4);
  }
  return 0;
}
