/* A simulated OpenMP runtime: threads of a team are coroutines of one OS thread, and every
 * memory access of the code under test (compiled with -fsanitize=thread, whose hooks are
 * implemented here) is a point where the seeded scheduler may switch to another one.
 * Every access is checked against the arrays handed out (guard zones) and against a
 * happens-before race detector. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <ucontext.h>

void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void __real_free(void *);
void *__real_memset(void *, int, size_t); void *__real_memcpy(void *, const void *, size_t);
static void *dead[65536]; static int ndead;
#define MAXT 32
#define STK (256 * 1024)
#define GUARD (256 * 1024)
#define MAXARR 32

/* ---- configuration and statistics ---- */
static uint64_t rng;
static int policy, prob, cap, stallt, npct, dflt;
static int64_t hooks, switches, races, oobs, regions, maxteam, parks;
static uint64_t hash;
static int64_t first_race[6], first_oob[5];
static int64_t pctpoint[16];
static int prio[MAXT];

static uint64_t rnd(void) {
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return rng * 0x2545F4914F6CDD1DULL;
}

/* ---- arrays ---- */
static struct { char *base, *lo, *hi; size_t len; int ro; } arr[MAXARR];
static int narr;

void *sim_array(int64_t nbytes, int ro) {
  size_t pg = 4096, in = ((size_t) nbytes + pg - 1) / pg * pg;
  if (!in) in = pg;
  size_t len = in + 2 * GUARD;
  char *b = mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (b == MAP_FAILED || narr >= MAXARR) return 0;
  /* the end of the array lies against the upper guard */
  char *lo = b + GUARD + in - nbytes;
  arr[narr].base = b; arr[narr].lo = lo; arr[narr].hi = lo + nbytes; arr[narr].len = len; arr[narr].ro = ro;
  narr++;
  return lo;
}

void sim_free(void) {
  for (int i = 0; i < narr; i++) munmap(arr[i].base, arr[i].len);
  narr = 0;
}

static int find(const char *p, int64_t *off) {
  for (int i = 0; i < narr; i++)
    if (p >= arr[i].base && p < arr[i].base + arr[i].len) { *off = p - arr[i].lo; return i; }
  *off = 0;
  return -1;
}

/* ---- team ---- */
typedef struct { ucontext_t c; int done, wait; uint64_t vc[MAXT]; int ws; char *stk; } thr;
static thr T[MAXT];
static int team = 1, cur = -1, inpar;
static ucontext_t mainc;
static void (*tfn)(void *);
static void *tdata;
static volatile int barcount;
static uint64_t barvc[MAXT];

/* ---- shadow memory ---- */
typedef struct { uintptr_t a; uint64_t wclk, rclk[MAXT]; uint64_t svc[MAXT]; int wt, wat, hassync; uint32_t rat; } cell;
static cell *tab;
static size_t tcap, tn;
static cell *look(uintptr_t a) {
  if (!tab || tn * 2 > tcap) {
    size_t oc = tcap; cell *o = tab;
    tcap = tcap ? tcap * 2 : 4096;
    tab = __real_calloc(tcap, sizeof(cell)); tn = 0;
    for (size_t i = 0; i < oc; i++) if (o[i].a) {
      size_t h = (o[i].a * 0x9E3779B97F4A7C15ULL) >> 20 & (tcap - 1);
      while (tab[h].a) h = (h + 1) & (tcap - 1);
      tab[h] = o[i]; tn++;
    }
    __real_free(o);
  }
  size_t h = (a * 0x9E3779B97F4A7C15ULL) >> 20 & (tcap - 1);
  while (tab[h].a && tab[h].a != a) h = (h + 1) & (tcap - 1);
  if (!tab[h].a) { __real_memset(&tab[h], 0, sizeof(cell)); tab[h].a = a; tab[h].wt = -1; tn++; }
  return &tab[h];
}
static void shadow_clear(void) { if (tab) __real_memset(tab, 0, tcap * sizeof(cell)); tn = 0; }

static void race(uintptr_t a, int other, int w, int ow) {
  if (!races) {
    int64_t off; int k = find((char *) a, &off);
    first_race[0] = k; first_race[1] = off; first_race[2] = cur; first_race[3] = other;
    first_race[4] = w * 2 + ow; first_race[5] = regions;
  }
  races++;
}

static void hb(uintptr_t p, size_t n, int w, int at) {
  int t = cur;
  for (uintptr_t a = p >> 2; a <= (p + n - 1) >> 2; a++) {
    cell *c = look(a + 1);
    if (c->wt >= 0 && c->wt != t && c->wclk > T[t].vc[c->wt] && !(at && c->wat)) race(a << 2, c->wt, w, 1);
    if (w) {
      for (int u = 0; u < team; u++)
        if (u != t && c->rclk[u] > T[t].vc[u] && !(at && (c->rat >> u & 1))) race(a << 2, u, 1, 0);
      c->wt = t; c->wclk = T[t].vc[t]; c->wat = at;
    } else {
      c->rclk[t] = T[t].vc[t];
      if (at) c->rat |= 1u << t; else c->rat &= ~(1u << t);
    }
  }
}

/* ---- scheduler ---- */
static void to_main(void) { int me = cur; swapcontext(&T[me].c, &mainc); }

static void maybe_switch(void) {
  hooks++;
  if (!inpar || team < 2) return;
  if (policy == 1) {                       /* priorities with change points */
    for (int i = 0; i < npct; i++)
      if (hooks == pctpoint[i]) { prio[cur] = -i - 1; parks++; to_main(); return; }
    return;
  }
  if (policy == 3) { parks++; to_main(); return; }       /* lock step */
  if ((int)(rnd() >> 40 & 0xffff) < prob) { parks++; to_main(); }
}

static int rr;
static int pick(void) {
  int r[MAXT], n = 0;
  for (int i = 0; i < team; i++) if (!T[i].done && !T[i].wait) r[n++] = i;
  if (!n) return -1;
  if (policy == 1) { int b = r[0]; for (int i = 1; i < n; i++) if (prio[r[i]] > prio[b]) b = r[i]; return b; }
  if (policy == 3) { for (int i = 1; i <= team; i++) { int k = (rr + i) % team; if (!T[k].done && !T[k].wait) return rr = k; } }
  if (stallt >= 0 && n > 1) { int m = 0; for (int i = 0; i < n; i++) if (r[i] != stallt % team) r[m++] = r[i]; n = m; }
  return r[rnd() % n];
}

static void entry(void) {
  tfn(tdata);
  T[cur].done = 1;
  to_main();
}

static void run_team(void) {
  int lastt = -1;
  for (;;) {
    int k = pick();
    if (k < 0) {
      int w = 0;
      for (int i = 0; i < team; i++) w += T[i].wait;
      if (!w) break;
      /* deadlock: cannot happen with barriers only; give up */
      races += 1000000; break;
    }
    if (k != lastt) { switches++; hash = (hash ^ (uint64_t) (k + 1) ^ (uint64_t) hooks << 8) * 0x100000001b3ULL; }
    lastt = k;
    cur = k;
    swapcontext(&mainc, &T[k].c);
    cur = -1;
    if (!T[k].done && T[k].wait == 1 && barcount == team) {
      for (int i = 0; i < team; i++) {
        __real_memcpy(T[i].vc, barvc, sizeof barvc);
        T[i].vc[i]++;
        T[i].wait = 0;
      }
      barcount = 0;
    }
  }
}

static int wsn; static long wsnext[4096], wsend[4096], wsinc[4096], wschunk[4096]; static int wsinit[4096], wsguided[4096];
static int locked[64]; static void *lockid[64]; static uint64_t lockvc[64][MAXT]; static int nlock;

static void begin(void (*fn)(void *), void *data, unsigned n) {
  if (inpar) { fn(data); return; }       /* nested: a team of one */
  if (!n) n = dflt;
  if ((int) n > cap) n = cap;
  if (n > MAXT) n = MAXT;
  if (n < 1) n = 1;
  team = n; regions++;
  if (team > maxteam) maxteam = team;
  tfn = fn; tdata = data; barcount = 0; nlock = 0;
  shadow_clear();
  __real_memset(wsinit, 0, sizeof(int) * (wsn + 8 < 4096 ? wsn + 8 : 4096)); wsn = 0;
  for (int i = 0; i < team; i++) {
    __real_memset(T[i].vc, 0, sizeof T[i].vc); T[i].vc[i] = 1;
    T[i].done = T[i].wait = T[i].ws = 0;
    prio[i] = 1 + (int) (rnd() >> 33 & 0xffff);
    if (!T[i].stk) T[i].stk = __real_malloc(STK);
    getcontext(&T[i].c);
    T[i].c.uc_stack.ss_sp = T[i].stk; T[i].c.uc_stack.ss_size = STK; T[i].c.uc_link = 0;
    makecontext(&T[i].c, entry, 0);
  }
  inpar = 1;
  run_team();
  inpar = 0; cur = -1; team = 1;
  while (ndead) __real_free(dead[--ndead]);
}

/* ---- instrumentation hooks ---- */
static void access(const void *p, size_t n, int w, int at) {
  int64_t off; int k;
  maybe_switch();
  if (!n) return;
  k = find(p, &off);
  if (k >= 0 && (off < 0 || off + (int64_t) n > arr[k].hi - arr[k].lo || (w && arr[k].ro))) {
    if (!oobs) { first_oob[0] = k; first_oob[1] = off; first_oob[2] = w; first_oob[3] = cur; first_oob[4] = arr[k].hi - arr[k].lo; }
    oobs++;
  }
  if (inpar && cur >= 0 && team > 1) {
    const char *s = T[cur].stk;
    if ((const char *) p >= s && (const char *) p < s + STK && 0) return;
    hb((uintptr_t) p, n, w, at);
  }
}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void) p; }
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read##n(void *p) { access(p, n, 0, 0); } void __tsan_write##n(void *p) { access(p, n, 1, 0); } \
  void __tsan_unaligned_read##n(void *p) { access(p, n, 0, 0); } void __tsan_unaligned_write##n(void *p) { access(p, n, 1, 0); } \
  void __tsan_volatile_read##n(void *p) { access(p, n, 0, 0); } void __tsan_volatile_write##n(void *p) { access(p, n, 1, 0); } \
  void __tsan_read##n##_pc(void *p) { access(p, n, 0, 0); } void __tsan_write##n##_pc(void *p) { access(p, n, 1, 0); } \
  void __tsan_read_write##n(void *p) { access(p, n, 0, 0); access(p, n, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, 0, 0); }
void __tsan_write_range(void *p, size_t n) { access(p, n, 1, 0); }

static void sync_at(const void *p, int w) {
  access(p, 1, w, 1);
  if (!inpar || cur < 0) return;
  cell *c = look(((uintptr_t) p >> 2) + 1);
  for (int u = 0; u < MAXT; u++) {
    if (c->hassync && c->svc[u] > T[cur].vc[u]) T[cur].vc[u] = c->svc[u];
  }
  if (w) {
    for (int u = 0; u < MAXT; u++) if (T[cur].vc[u] > c->svc[u]) c->svc[u] = T[cur].vc[u];
    c->hassync = 1; T[cur].vc[cur]++;
  }
}
#define AT(n, ty) \
  ty __tsan_atomic##n##_load(const volatile ty *p, int m) { (void) m; sync_at((void *) p, 0); return *p; } \
  void __tsan_atomic##n##_store(volatile ty *p, ty v, int m) { (void) m; sync_at((void *) p, 1); *p = v; } \
  ty __tsan_atomic##n##_exchange(volatile ty *p, ty v, int m) { (void) m; sync_at((void *) p, 1); ty o = *p; *p = v; return o; } \
  ty __tsan_atomic##n##_fetch_add(volatile ty *p, ty v, int m) { (void) m; sync_at((void *) p, 1); ty o = *p; *p = o + v; return o; } \
  ty __tsan_atomic##n##_fetch_sub(volatile ty *p, ty v, int m) { (void) m; sync_at((void *) p, 1); ty o = *p; *p = o - v; return o; } \
  ty __tsan_atomic##n##_fetch_and(volatile ty *p, ty v, int m) { (void) m; sync_at((void *) p, 1); ty o = *p; *p = o & v; return o; } \
  ty __tsan_atomic##n##_fetch_or(volatile ty *p, ty v, int m) { (void) m; sync_at((void *) p, 1); ty o = *p; *p = o | v; return o; } \
  ty __tsan_atomic##n##_fetch_xor(volatile ty *p, ty v, int m) { (void) m; sync_at((void *) p, 1); ty o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int m, int f) { (void) m; (void) f; sync_at((void *) p, 1); \
    if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int m, int f) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, m, f); } \
  ty __tsan_atomic##n##_compare_exchange_val(volatile ty *p, ty e, ty v, int m, int f) { (void) m; (void) f; sync_at((void *) p, 1); ty o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void) m; }
void __tsan_atomic_signal_fence(int m) { (void) m; }

void *__real_memset(void *, int, size_t); void *__real_memcpy(void *, const void *, size_t); void *__real_memmove(void *, const void *, size_t);
void *__wrap_memset(void *d, int c, size_t n) { access(d, n, 1, 0); return __real_memset(d, c, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { access(s, n, 0, 0); access(d, n, 1, 0); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { access(s, n, 0, 0); access(d, n, 1, 0); return __real_memmove(d, s, n); }

/* the kernels' own heap: freed memory is not handed out again before the region ends */
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__wrap_malloc(size_t n) { return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return __real_calloc(a, b); }
void __wrap_free(void *p) { if (inpar && ndead < 65536) dead[ndead++] = p; else __real_free(p); }

/* ---- OpenMP entry points ---- */
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { (void) flags; begin(fn, data, n); }
int omp_get_thread_num(void) { return inpar && cur >= 0 ? cur : 0; }
int omp_get_num_threads(void) { return inpar ? team : 1; }
int omp_get_max_threads(void) { return dflt; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return inpar && team > 1; }
void omp_set_num_threads(int n) { if (n > 0) dflt = n; }
void omp_set_dynamic(int n) { (void) n; }
int omp_get_dynamic(void) { return 0; }
int omp_get_thread_limit(void) { return cap; }
double omp_get_wtime(void) { return hooks * 1e-6; }

void GOMP_barrier(void) {
  if (!inpar || team < 2) return;
  if (!barcount) __real_memset(barvc, 0, sizeof barvc);
  for (int u = 0; u < MAXT; u++) if (T[cur].vc[u] > barvc[u]) barvc[u] = T[cur].vc[u];
  T[cur].wait = 1; barcount++;
  to_main();
}

static int lk(void *id) {
  for (int i = 0; i < nlock; i++) if (lockid[i] == id) return i;
  if (nlock < 63) { lockid[nlock] = id; locked[nlock] = 0; __real_memset(lockvc[nlock], 0, sizeof lockvc[0]); nlock++; }
  return nlock - 1;
}
static void acquire(void *id) {
  maybe_switch();
  if (!inpar || team < 2) return;
  int k = lk(id);
  while (locked[k]) { int p = policy; if (p == 1) prio[cur] = -100 - (int) (rnd() & 0xfff); to_main(); }
  locked[k] = 1;
  for (int u = 0; u < MAXT; u++) if (lockvc[k][u] > T[cur].vc[u]) T[cur].vc[u] = lockvc[k][u];
}
static void release(void *id) {
  if (!inpar || team < 2) return;
  int k = lk(id);
  __real_memcpy(lockvc[k], T[cur].vc, sizeof lockvc[0]);
  T[cur].vc[cur]++;
  locked[k] = 0;
  maybe_switch();
}
static int crit, atom;
void GOMP_critical_start(void) { acquire(&crit); }
void GOMP_critical_end(void) { release(&crit); }
void GOMP_critical_name_start(void **p) { acquire(p); }
void GOMP_critical_name_end(void **p) { release(p); }
void GOMP_atomic_start(void) { acquire(&atom); }
void GOMP_atomic_end(void) { release(&atom); }
void omp_init_lock(void *p) { (void) p; }
void omp_destroy_lock(void *p) { (void) p; }
void omp_set_lock(void *p) { acquire(p); }
void omp_unset_lock(void *p) { release(p); }

/* loops with dynamic, guided and static schedules through the runtime */
static int ws_new(long s, long e, long inc, long chunk, int guided) {
  int k = inpar ? T[cur].ws++ & 4095 : 0;
  if (k >= wsn) wsn = k + 1;
  if (!wsinit[k] || !inpar) { wsinit[k] = 1; wsnext[k] = s; wsend[k] = e; wsinc[k] = inc; wschunk[k] = chunk > 0 ? chunk : 1; wsguided[k] = guided; }
  return k;
}
static int ws_next(int k, long *is, long *ie) {
  maybe_switch();
  long inc = wsinc[k], left = inc > 0 ? (wsend[k] - wsnext[k] + inc - 1) / inc : (wsnext[k] - wsend[k] - inc - 1) / -inc;
  if (left <= 0) return 0;
  long c = wschunk[k];
  if (wsguided[k] == 1) { long g = left / team; if (g > c) c = g; }
  if (wsguided[k] == 2 && rnd() & 1) c = 1 + (long) (rnd() % (uint64_t) (c + 2));
  if (c > left) c = left;
  *is = wsnext[k]; wsnext[k] += c * inc; *ie = wsnext[k];
  return 1;
}
static int ws_cur(void) { return inpar ? (T[cur].ws - 1) & 4095 : 0; }
typedef _Bool B;
#define LOOP(nm, g) \
  B GOMP_loop_##nm##_start(long s, long e, long i, long c, long *is, long *ie) { return ws_next(ws_new(s, e, i, c, g), is, ie); } \
  B GOMP_loop_##nm##_next(long *is, long *ie) { return ws_next(ws_cur(), is, ie); } \
  void GOMP_parallel_loop_##nm(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f);
LOOP(dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1) LOOP(static, 0)
B GOMP_loop_runtime_start(long s, long e, long i, long *is, long *ie) { return ws_next(ws_new(s, e, i, 1, 2), is, ie); }
B GOMP_loop_runtime_next(long *is, long *ie) { return ws_next(ws_cur(), is, ie); }
B GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *is, long *ie) { return ws_next(ws_new(s, e, i, 1, 2), is, ie); }
B GOMP_loop_maybe_nonmonotonic_runtime_next(long *is, long *ie) { return ws_next(ws_cur(), is, ie); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
static struct { void (*fn)(void *); void *d; long s, e, i, c; int g; } pl;
static void plrun(void *d) { (void) d; ws_new(pl.s, pl.e, pl.i, pl.c, pl.g); pl.fn(pl.d); }
static void plbegin(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, int g) {
  pl.fn = fn; pl.d = d; pl.s = s; pl.e = e; pl.i = i; pl.c = c; pl.g = g;
  begin(plrun, 0, n);
}
#define PLOOP(nm, g) \
  void GOMP_parallel_loop_##nm(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { (void) f; plbegin(fn, d, n, s, e, i, c, g); }
PLOOP(dynamic, 0) PLOOP(guided, 1) PLOOP(nonmonotonic_dynamic, 0) PLOOP(nonmonotonic_guided, 1) PLOOP(static, 0)
void GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { (void) f; plbegin(fn, d, n, s, e, i, 1, 2); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { (void) f; plbegin(fn, d, n, s, e, i, 1, 2); }
B GOMP_single_start(void) {
  if (!inpar) return 1;
  int k = T[cur].ws++ & 4095;
  if (k >= wsn) wsn = k + 1;
  if (wsinit[k]) return 0;
  wsinit[k] = 1;
  return 1;
}

/* ---- control ---- */
void sim_setup(uint64_t seed, int pol, int p16, int thread_cap, int stall, int nchange, int64_t horizon, int dfl) {
  rng = seed * 2 + 1; for (int i = 0; i < 8; i++) rnd();
  policy = pol; prob = p16; cap = thread_cap; stallt = stall; npct = nchange > 16 ? 16 : nchange; dflt = dfl;
  rr = 0; hooks = switches = races = oobs = regions = maxteam = parks = 0; hash = 0xcbf29ce484222325ULL;
  for (int i = 0; i < npct; i++) pctpoint[i] = 1 + (int64_t) (rnd() % (uint64_t) (horizon > 0 ? horizon : 1));
}
void sim_stats(int64_t *o) {
  o[0] = hooks; o[1] = switches; o[2] = races; o[3] = oobs; o[4] = regions; o[5] = maxteam; o[6] = (int64_t) hash; o[7] = parks;
  __real_memcpy(o + 8, first_race, sizeof first_race); __real_memcpy(o + 14, first_oob, sizeof first_oob);
}
