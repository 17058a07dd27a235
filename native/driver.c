/* Runs natively compiled programs, one child process per run, and records what
 * can be observed: external calls, allocations and frees, result, traps. */
#define _GNU_SOURCE
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <math.h>
#include "cases.h"

enum { EOUT, EALLOC, EFREE, ERET, EBAD, ESTR, ERETF };
typedef struct { int kind; int64_t a, b, c; } Ev;
#define MAXEV 60000
#define MAXSTR (1 << 20)
typedef struct { volatile int n, done, over, ns; Ev ev[MAXEV]; unsigned char s[MAXSTR]; } Log;
static Log *lg;
static const int64_t *args;
static void put(int k, int64_t a, int64_t b, int64_t c) {
  if (lg->n >= MAXEV) { lg->over = 1; _exit(9); }
  Ev e = {k, a, b, c};
  lg->ev[lg->n] = e;
  lg->n++;
}
int64_t vp_out(int64_t x) { put(EOUT, x, 0, 0); return x; }
int64_t vp_arg_i64(int32_t i) { return args[i]; }
int32_t vp_arg_i32(int32_t i) { return (int32_t)args[i]; }
int32_t vp_arg_i1(int32_t i) { return args[i] & 1; }
int64_t vp_ret_i64(int64_t x) { put(ERET, x, 8, 0); return x; }
int32_t vp_ret_i32(int32_t x) { put(ERET, x, 4, 0); return x; }
int32_t vp_ret_i1(int32_t x) { put(ERET, x, 1, 0); return x; }
#ifndef VP_NOFREE
void __tribute_init(void) {}
#endif
/* what a program writes to a file descriptor */
ssize_t write(int fd, const void *p, size_t n) {
  if (lg->ns + n > MAXSTR) { lg->over = 1; _exit(9); }
  memcpy(lg->s + lg->ns, p, n);
  put(ESTR, fd, lg->ns, n);
  lg->ns += n;
  return n;
}

/* every object lives on its own pages; a freed object becomes inaccessible */
#define MAXOBJ 20000
static struct { char *raw; size_t map; uint64_t size; int live; } obj[MAXOBJ];
static int nobj;
void *__tribute_alloc(uint64_t size) {
  if (nobj >= MAXOBJ) { lg->over = 1; _exit(9); }
  size_t map = (size + 4095) / 4096 * 4096 + 4096;
  char *p = mmap(0, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { lg->over = 1; _exit(9); }
  mprotect(p + map - 4096, 4096, PROT_NONE);
  /* place the object at the end of its pages: overruns fault too */
  char *raw = p + map - 4096 - (size + 15) / 16 * 16;
  memset(p, 0xA5, map - 4096);
  obj[nobj].raw = raw; obj[nobj].map = map; obj[nobj].size = size; obj[nobj].live = 1;
  put(EALLOC, nobj, size, 0);
  nobj++;
  return raw;
}
void __tribute_dealloc(void *q, uint64_t size) {
#ifdef VP_NOFREE
  return;
#endif
  char *raw = q;
  for (int i = nobj - 1; i >= 0; i--)
    if (obj[i].raw == raw) {
      if (!obj[i].live) { put(EBAD, i, 1, 0); _exit(8); }   /* double free */
      obj[i].live = 0;
      put(EFREE, i, size, obj[i].size);
      /* size 0: the runtime keeps the memory, but the object is gone all the same */
      char *p = (char *)((uintptr_t)raw & ~(uintptr_t)4095);
      mprotect(p, obj[i].map - 4096, PROT_NONE);
      return;
    }
  put(EBAD, 0, 2, 0);                     /* not an allocation */
  _exit(8);
}

int main(int argc, char **argv) {
  int evs = argc > 1 && !strcmp(argv[1], "events");
  lg = mmap(0, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int hung = 0;
  for (int k = 0; k < NCASES; k++)
    for (int j = 0; j < cases[k].nargs; j++) {
      lg->n = lg->done = lg->over = lg->ns = 0;
      fflush(stdout);
      if (hung > 8) { /* enough said: do not wait for the rest */
        printf("{\"case\":\"%s\",\"arg\":%d,\"st\":\"timeout\",\"ev\":[]}\n", cases[k].id, j);
        continue;
      }
      pid_t pid = fork();
      if (pid == 0) {
        alarm(10);
        args = cases[k].args[j];
        cases[k].f();
        lg->done = 1;
        _exit(0);
      }
      int st;
      waitpid(pid, &st, 0);
      const char *how = "done";
      if (lg->over) how = "over";
      else if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        how = s == SIGILL || s == SIGABRT || s == SIGFPE || s == SIGTRAP ? "trap" : s == SIGALRM ? "timeout" : s == SIGSEGV || s == SIGBUS ? "segv" : "signal";
      } else if (!lg->done) how = WEXITSTATUS(st) == 8 ? "badfree" : "exit";
      hung += !strcmp(how, "timeout");
      printf("{\"case\":\"%s\",\"arg\":%d,\"st\":\"%s\",\"ev\":[", cases[k].id, j, how);
      int first = 1;
      for (int i = 0; i < lg->n; i++) {
        Ev *e = &lg->ev[i];
        if (!evs && (e->kind == EALLOC || e->kind == EFREE)) continue;
        if (e->kind == ESTR) {
          printf("%s[%d,%ld,[", first ? "" : ",", e->kind, e->a);
          for (int64_t q = 0; q < e->c; q++) printf("%s%d", q ? "," : "", lg->s[e->b + q]);
          printf("]]");
          first = 0;
          continue;
        }
        printf("%s[%d,%ld,%ld,%ld]", first ? "" : ",", e->kind, e->a, e->b, e->c);
        first = 0;
      }
      printf("]}\n");
    }
  return 0;
}
