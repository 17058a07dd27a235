/* Runs a compiled program under scripted answers of read(2) and write(2), one
 * child process per job, and records every call and report.
 * jobs (stdin file, numbers): case program  ncmd (op lit dbl)*  nread (kind n bytes*)*  nwrite (kind n)* */
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "io_cases.h"

enum { DATA, INTR, END, FAIL };
#define MAXCMD 64
#define MAXRESP 256
#define MAXTXT (8 << 20)
static struct { int op, lit, dbl; } cmd[MAXCMD];
static int ncmd;
typedef struct { int kind, n, at; unsigned char *b; } Resp;
static Resp rd[MAXRESP], wr[MAXRESP];
static int nrd, nwr, ird, iwr;
typedef struct { volatile int n, good, over, done; char s[MAXTXT]; } Log;
static Log *lg;
static int calls;
static void txt(const char *f, long a) {
  if (lg->n + 64 > MAXTXT) { lg->over = 1; _exit(9); }
  lg->n += sprintf(lg->s + lg->n, f, a);
}
static void bytes(const unsigned char *p, size_t n) {
  txt("[", 0);
  for (size_t i = 0; i < n; i++) txt(i ? ",%ld" : "%ld", p[i]);
  txt("]", 0);
}
static void sep(void) {
  lg->good = lg->n;
  if (++calls > 4000) { lg->over = 1; _exit(9); }
  if (lg->n) txt(",", 0);
}

ssize_t read(int fd, void *p, size_t cap) {
  sep();
  txt("[\"r\",%ld,", fd);
  txt("%ld,", cap > 1000000000 ? 1000000000 : (long)cap);
  if (ird >= nrd || rd[ird].kind == END) {
    ird++;
    txt("\"e\"]", 0);
    return 0;
  }
  Resp *r = &rd[ird];
  if (r->kind == DATA) {
    size_t n = r->n - r->at;
    if (n > cap) n = cap;
    txt("\"d\",", 0);
    bytes(r->b + r->at, n);
    txt("]", 0);
    memcpy(p, r->b + r->at, n);
    r->at += n;
    if (r->at == r->n) ird++;
    return n;
  }
  ird++;
  if (r->kind == INTR) { txt("\"i\"]", 0); errno = EINTR; return -1; }
  txt("\"x\",%ld]", r->n);
  errno = r->n;
  return -1;
}
ssize_t write(int fd, const void *p, size_t n) {
  sep();
  txt("[\"w\",%ld,", fd);
  bytes(p, n);
  if (iwr >= nwr || wr[iwr].kind == END) {
    iwr++;
    txt(",\"n\",%ld]", n);
    return n;
  }
  Resp *r = &wr[iwr++];
  if (r->kind == DATA) {
    size_t k = (size_t)r->n < n ? (size_t)r->n : n;
    txt(",\"n\",%ld]", k);
    return k;
  }
  if (r->kind == INTR) { txt(",\"i\"]", 0); errno = EINTR; return -1; }
  txt(",\"x\",%ld]", r->n);
  errno = r->n;
  return -1;
}

int32_t vp_op(int32_t i) { return i < ncmd ? cmd[i].op : 0; }
int32_t vp_lit(int32_t i) { return cmd[i].lit; }
int32_t vp_dbl(int32_t i) { return cmd[i].dbl; }
static int nrep;
int32_t vp_rep(int32_t tag, int32_t code) {
  sep();
  txt("[\"g\",%ld,", tag);
  txt("%ld,[", code);
  nrep = 0;
  return 0;
}
int32_t vp_byte(int32_t b) { txt(nrep++ ? ",%ld" : "%ld", b); return 0; }
int32_t vp_fin(int32_t x) { txt("]]", 0); return x; }

/* every object lives on its own pages; a freed object becomes inaccessible */
#define MAXOBJ 20000
static struct { char *raw; size_t map; int live; } obj[MAXOBJ];
static int nobj;
void *__tribute_alloc(uint64_t size) {
  if (size == 0) return 0;
  if (nobj >= MAXOBJ || size > (64u << 20)) { lg->over = 1; _exit(9); }
  size_t map = (size + 4095) / 4096 * 4096 + 4096;
  char *p = mmap(0, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { lg->over = 1; _exit(9); }
  mprotect(p + map - 4096, 4096, PROT_NONE);
  char *raw = p + map - 4096 - (size + 15) / 16 * 16;
  memset(p, 0xA5, map - 4096);
  obj[nobj].raw = raw; obj[nobj].map = map; obj[nobj].live = 1;
  nobj++;
  return raw;
}
void __tribute_dealloc(void *q, uint64_t size) {
  if (!q) return;
  for (int i = nobj - 1; i >= 0; i--)
    if (obj[i].raw == (char *)q) {
      if (!obj[i].live) _exit(8);
      obj[i].live = 0;
      mprotect((char *)((uintptr_t)q & ~(uintptr_t)4095), obj[i].map - 4096, PROT_NONE);
      return;
    }
  _exit(8);
}

static FILE *in;
static int num(void) {
  int x;
  if (fscanf(in, "%d", &x) != 1) exit(3);
  return x;
}
static int script(Resp *r, int data) {
  int n = num();
  if (n > MAXRESP) exit(3);
  for (int i = 0; i < n; i++) {
    r[i].kind = num();
    r[i].n = num();
    r[i].at = 0;
    r[i].b = 0;
    if (data && r[i].kind == DATA) {
      r[i].b = malloc(r[i].n);
      for (int k = 0; k < r[i].n; k++) r[i].b[k] = num();
    }
  }
  return n;
}

int main(int argc, char **argv) {
  in = fopen(argv[1], "r");
  lg = mmap(0, sizeof(Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int id, prog, hung = 0;
  while (fscanf(in, "%d %d", &id, &prog) == 2) {
    ncmd = num();
    if (ncmd > MAXCMD) exit(3);
    for (int i = 0; i < ncmd; i++) { cmd[i].op = num(); cmd[i].lit = num(); cmd[i].dbl = num(); }
    nrd = script(rd, 1);
    nwr = script(wr, 0);
    ird = iwr = calls = nobj = 0;
    lg->n = lg->good = lg->over = lg->done = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      alarm(3);
      progs[prog]();
      lg->done = 1;
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    const char *how = "done";
    if (lg->over) how = "over";
    else if (WIFSIGNALED(st)) how = WTERMSIG(st) == SIGALRM ? "timeout" : strsignal(WTERMSIG(st));
    else if (!lg->done) how = WEXITSTATUS(st) == 8 ? "badfree" : "exit";
    lg->s[lg->done ? lg->n : lg->good] = 0;   /* without an unfinished event */
    if (!strcmp(how, "timeout") && ++hung > 10) exit(4);
    printf("{\"job\":%d,\"st\":\"%s\",\"ev\":[%s]}\n", id, how, lg->s);
    for (int i = 0; i < nrd; i++) free(rd[i].b);
  }
  fflush(stdout);
  return 0;
}
