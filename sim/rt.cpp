#include "rt.h"
#include <errno.h>
#include <initializer_list>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>

extern "C" {
extern char __data_start, _end, __executable_start, etext;
extern char __libc_single_threaded;
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __real_pthread_once(pthread_once_t*, void (*)());
pthread_t __real_pthread_self();
int __real_sched_yield();
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_usleep(useconds_t);
int __real_clock_gettime(clockid_t, struct timespec*);
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
int __real___cxa_thread_atexit(void (*)(void*), void*, void*);
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __real_memchr(const void*, int, size_t);
size_t __real_strlen(const char*);
int __real_strcmp(const char*, const char*);
int __real_strncmp(const char*, const char*, size_t);
char* __real_strchr(const char*, int);
char* __real_strrchr(const char*, int);
char* __real_strdup(const char*);
char* __real_strcpy(char*, const char*);
int __real_printf(const char*, ...);
int __real_puts(const char*);
int __real_putchar(int);
}

namespace rt {
Shm* shm;
static bool g_active = false;  // simulation running in this process

// ---------------------------------------------------------------- memory map
static const uintptr_t ARENA = 0x600000000000ull;
static const size_t ARENA_SZ = 256ull << 20;
static const uintptr_t CELLS = 0x610000000000ull;      // 64 bytes per granule
static const uintptr_t STATE = 0x630000000000ull;      // 1 byte per granule
static const uintptr_t GCELLS = 0x640000000000ull;     // cells for .data/.bss
static const uintptr_t BLKS = 0x650000000000ull;
static const uintptr_t SYNCS = 0x660000000000ull;
static uintptr_t g_lo, g_hi;                           // .data .. end

struct Slot { uint64_t v; uint32_t pc; uint32_t op; };  // v: used|write|atomic|mask|tid|clock
struct Cell { Slot s[4]; };
static inline uint64_t mkslot(int tid, uint32_t clk, uint8_t mask, bool w, bool at) {
    return (1ull << 63) | ((uint64_t)w << 62) | ((uint64_t)at << 61) | ((uint64_t)mask << 48) | ((uint64_t)tid << 40) | clk;
}
static inline bool s_used(uint64_t v) { return v >> 63; }
static inline bool s_w(uint64_t v) { return (v >> 62) & 1; }
static inline bool s_at(uint64_t v) { return (v >> 61) & 1; }
static inline uint8_t s_mask(uint64_t v) { return (v >> 48) & 0xff; }
static inline int s_tid(uint64_t v) { return (v >> 40) & 0xff; }
static inline uint32_t s_clk(uint64_t v) { return (uint32_t)v; }

struct Blk {
    uint32_t off, size;      // user area offset in arena
    uint8_t kind, sut, freed, has_sync;
    uint16_t tid, op, ftid, fop;
    uint32_t pc[5], fpc[5];
};
static const uint32_t MAXBLK = 1u << 20;
static Blk* blks = (Blk*)BLKS;
static uint32_t nblk;
static uint64_t bump;
static uint64_t g_live_sut;
static uint32_t freelist[64];   // by size class, block index+1
static uint32_t* blknext;

struct Sync {
    uintptr_t addr;
    uint32_t vc[MAXT];
    int16_t owner;  // thread+1
    uint16_t count;
    uint16_t readers;
    uint16_t state;
    uint32_t seq;
};
static const uint32_t NSYNC = 1u << 16;
static Sync* syncs = (Sync*)SYNCS;
static uint32_t nsyncs;                                  // syncs[1..nsyncs]
static uint32_t sindex[NSYNC];                          // hash of the address -> index
static inline uint32_t sslot(uintptr_t a) {
    uint32_t h = (uint32_t)((a >> 2) * 2654435761u) >> 16;
    while (sindex[h] && syncs[sindex[h]].addr != a) h = (h + 1) & (NSYNC - 1);
    return h;
}

// ---------------------------------------------------------------- threads
enum { T_FREE, T_RUN, T_BLOCKED, T_JOIN, T_DONE };
struct TlsDtor { void (*fn)(void*); void* obj; };
struct Thread {
    int id, ptid;
    int st;
    uint64_t simid;
    int sut, nofault, inrt, noedge;
    int op; uint32_t k; bool inop;
    uint64_t allocs; bool oomfired;
    uintptr_t waiton; bool timed; bool timedout;
    uint32_t vc[MAXT];
    int fut;
    uint32_t stk[256]; int sp;
    TlsDtor dt[16]; int ndt;
    uint32_t prio;
    uint64_t stall_until;
    void (*fn)(void*); void* arg;
    pthread_t real;
    int guard;
};
static Thread T[MAXT];
static int nT;
static int g_cur;
static __thread Thread* cur;

static uint64_t g_steps, g_cap, g_limit;   // g_limit: the step by which the operation under way has to make progress
static uint64_t rng_s;
static uint32_t rnd() {
    rng_s += 0x9E3779B97F4A7C15ull;
    uint64_t z = rng_s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return (uint32_t)((z ^ (z >> 31)) >> 16);
}
static uint64_t pctpt[16];
static uint32_t rr_slot;

static inline void mix(uint64_t& h, uint64_t v) { h ^= v; h *= 0x100000001b3ull; h ^= h >> 29; }
void hash_mix(uint64_t v) { mix(shm->hash, v); }

int self() { return cur ? cur->id : -1; }
int ptid() { return cur ? cur->ptid : -1; }
int sut_get() { return cur ? cur->sut : 0; }
void sut_set(int v) { if (cur) cur->sut = v; }
NoFault::NoFault() { if (cur) cur->nofault++; }
NoFault::~NoFault() { if (cur) cur->nofault--; }
NoEdge::NoEdge() { if (cur) cur->noedge++; }
NoEdge::~NoEdge() { if (cur) cur->noedge--; }
static bool g_quiet;
void set_quiet(bool q) { g_quiet = q; }
static bool g_alone;
uint64_t live_bytes() { return g_live_sut; }
uint64_t steps() { return g_steps; }
void progress() { g_limit = g_steps + g_cap; }
uint64_t allocs_in_op() { return cur ? cur->allocs : 0; }
bool oom_fired_in_op() { return cur && cur->oomfired; }
bool is_arena(const void* p) { return (uintptr_t)p - ARENA < ARENA_SZ; }
int other_threads_midop() {
    int n = 0;
    for (int i = 0; i < nT; i++) if (&T[i] != cur && T[i].st != T_DONE && T[i].inop) n++;
    return n;
}

// ---------------------------------------------------------------- violation
static void capture_stack(uint32_t pc) {
    uint32_t n = 0;
    if (pc) shm->pcs[n++] = pc;
    if (cur) for (int i = cur->sp - 1; i >= 0 && n < 24; i--) if (i < 256) shm->pcs[n++] = cur->stk[i];
    shm->npc = n;
}
static void vviolation(Kind k, const char* tag, uint32_t pc, const char* fmt, va_list ap) {
    static int once;
    if (__atomic_exchange_n(&once, 1, __ATOMIC_SEQ_CST)) for (;;) pause();
    g_active = false;
    if (shm->status == 0) {
        shm->kind = k;
        snprintf(shm->tag, sizeof shm->tag, "%s", tag);
        int n = snprintf(shm->msg, sizeof shm->msg, "[thread %d op %d step %llu] ", cur ? cur->ptid : -1, cur ? cur->op : -1, (unsigned long long)g_steps);
        vsnprintf(shm->msg + n, sizeof shm->msg - n, fmt, ap);
        capture_stack(pc);
        shm->counters[C_STEPS] = g_steps;
        mix(shm->hash, k); for (const char* c = tag; *c; c++) mix(shm->hash, *c);
        shm->status = 2;
    }
    syscall(SYS_exit_group, 3);
    __builtin_unreachable();
}
void violation(Kind k, const char* tag, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vviolation(k, tag, 0, fmt, ap);
    __builtin_unreachable();
}
static void violation_pc(Kind k, const char* tag, uint32_t pc, const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vviolation(k, tag, pc, fmt, ap);
}

// ---------------------------------------------------------------- scheduler
static void fut_wait(int* f) {
    while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
    __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
static void fut_wake(int* f) {
    __atomic_store_n(f, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}
static void switch_to(int to, bool forced) {
    Thread* me = cur;
    shm->counters[C_SWITCH]++;
    if (!forced) shm->counters[C_PREEMPT]++;
    uint32_t n = shm->nsched;
    if (n < MAXSCHED) { shm->sched[n] = SchedEnt{(uint16_t)me->id, (uint16_t)me->op, me->k, (uint16_t)to, (uint16_t)forced}; shm->nsched = n + 1; }
    else shm->sched_overflow = 1;
    uint64_t ev = ((uint64_t)me->id << 48) ^ ((uint64_t)me->op << 36) ^ ((uint64_t)me->k << 6) ^ to;
    mix(shm->schedhash, ev); mix(shm->hash, ev);
    g_cur = to;
    int st = me->st;
    fut_wake(&T[to].fut);
    if (st != T_DONE) fut_wait(&me->fut);
}
static int runnable_list(int* out, bool honour_stall) {
    int n = 0;
    for (int i = 0; i < nT; i++)
        if (T[i].st == T_RUN && (!honour_stall || T[i].stall_until <= g_steps)) out[n++] = i;
    return n;
}
static void deadlock() {
    char buf[1500]; int n = 0; buf[0] = 0;
    for (int i = 0; i < nT; i++) if (T[i].st == T_BLOCKED || T[i].st == T_JOIN) {
        Sync* s = nullptr;
        for (uint32_t j = 1; j <= nsyncs; j++) if (syncs[j].addr == T[i].waiton) { s = &syncs[j]; break; }
        if (T[i].st == T_JOIN) continue;
        n += snprintf(buf + n, sizeof buf - n, "%sthread %d (op %d) waits for lock held by thread %d", n ? "; " : "", T[i].ptid, T[i].op, s && s->owner ? T[s->owner - 1].ptid : -1);
        if (n > 1200) break;
    }
    // stacks of all blocked threads
    shm->npc = 0;
    violation(K_DEADLOCK, "deadlock", "no thread can make progress: %s", buf);
}
static int pick_forced() {  // current thread cannot continue
    int l[MAXT]; int n = runnable_list(l, true);
    if (!n) n = runnable_list(l, false);
    if (!n) {
        for (int i = 0; i < nT; i++) if (T[i].st == T_BLOCKED && T[i].timed) { T[i].timedout = true; T[i].st = T_RUN; T[i].waiton = 0; l[n++] = i; break; }
    }
    if (!n) deadlock();
    Policy& p = shm->pol;
    if (p.mode == P_REPLAY) {
        for (uint32_t i = 0; i < shm->nsched_in; i++) {
            SchedEnt& e = shm->sched_in[i];
            if (e.forced && e.tid == cur->id && e.op == cur->op && e.k == cur->k) for (int j = 0; j < n; j++) if (l[j] == e.to) return e.to;
        }
        // default: next in cyclic order
        for (int d = 1; d <= nT; d++) { int c = (cur->id + d) % nT; for (int j = 0; j < n; j++) if (l[j] == c) return c; }
        return l[0];
    }
    if (p.mode == P_PCT) { int b = l[0]; for (int j = 1; j < n; j++) if (T[l[j]].prio > T[b].prio) b = l[j]; return b; }
    return l[rnd() % n];
}
static void block_current(int st) {
    cur->st = st;
    shm->counters[C_BLOCK]++;
    int to = pick_forced();
    if (to == cur->id) return;
    switch_to(to, true);
}
enum PointKind { PT_ACCESS, PT_SYNC, PT_OP, PT_YIELD };
static void point(PointKind pk) {
    Thread* me = cur;
    if (g_quiet) return;
    me->k++;
    g_steps++;
    if (g_steps > g_limit) violation(K_LIVELOCK, "livelock", "no completion within %llu scheduling steps", (unsigned long long)g_cap);
    Policy& p = shm->pol;
    bool want = false;
    switch (p.mode) {
    case P_REPLAY: {
        for (uint32_t i = 0; i < shm->nsched_in; i++) {
            SchedEnt& e = shm->sched_in[i];
            if (e.tid == me->id && e.op == me->op && e.k == me->k && !e.forced) {
                if (e.to < nT && T[e.to].st == T_RUN && e.to != me->id) switch_to(e.to, false);
                return;
            }
        }
        return;
    }
    case P_OPS: want = pk >= PT_OP && rnd() % 2 == 0; break;
    case P_SYNC: want = pk >= PT_OP ? rnd() % 2 == 0 : pk == PT_SYNC ? rnd() % p.den == 0 : false; break;
    case P_ACCESS: want = pk >= PT_OP ? rnd() % 2 == 0 : rnd() % p.den == 0; break;
    case P_PCT: {
        bool demote = false;
        for (uint32_t i = 0; i < p.d; i++) if (pctpt[i] == g_steps) { me->prio = p.d - i; demote = true; }
        if (!demote && pk < PT_OP) return;
        int b = me->id;
        for (int j = 0; j < nT; j++) if (T[j].st == T_RUN && T[j].prio > T[b].prio) b = j;
        if (b != me->id) switch_to(b, false);
        return;
    }
    case P_STALL: {
        bool stall = false;
        for (uint32_t i = 0; i < p.d; i++) if (pctpt[i] == g_steps) stall = true;
        if (stall) { me->stall_until = g_steps + p.horizon; shm->counters[C_F_STALL]++; want = true; }
        else want = pk >= PT_OP ? rnd() % 2 == 0 : rnd() % p.den == 0;
        break;
    }
    }
    if (!want) return;
    int l[MAXT]; int n = runnable_list(l, true), m = 0;
    int o[MAXT];
    for (int j = 0; j < n; j++) if (l[j] != me->id) o[m++] = l[j];
    if (!m) return;
    switch_to(o[rnd() % m], false);
}
static inline bool live() { return __builtin_expect(g_active, 0) && cur; }
static inline void mpoint(PointKind pk) {
    if (cur->sut && !cur->inrt) point(pk);
}
static void wake_waiters(uintptr_t a) {
    for (int i = 0; i < nT; i++) if (T[i].st == T_BLOCKED && T[i].waiton == a) { T[i].st = T_RUN; T[i].waiton = 0; }
}

OpCtx op_save() { OpCtx c; c.op = cur->op; c.k = cur->k; c.allocs = cur->allocs; c.oom = cur->oomfired; c.inop = cur->inop; return c; }
void op_restore(const OpCtx& c) { cur->op = c.op; cur->k = c.k; cur->allocs = c.allocs; cur->oomfired = c.oom; cur->inop = c.inop; }
void op_begin(int uid) { cur->op = uid; cur->k = 0; cur->allocs = 0; cur->oomfired = false; cur->inop = true; }
void op_end() { cur->inop = false; cur->allocs = 0; }
void op_point() { point(PT_OP); }
void yield_point() { point(PT_YIELD); }
void set_simid(uint64_t id) { cur->simid = id; }

// ---------------------------------------------------------------- vector clocks
static Sync* sync_get(uintptr_t a, bool create = true) {
    uint32_t h = sslot(a);
    if (!sindex[h]) {
        if (!create) return nullptr;
        if (++nsyncs > NSYNC / 2) violation(K_HARNESS, "sync-table", "sync table full");
        syncs[nsyncs].addr = a;
        sindex[h] = nsyncs;
    }
    return &syncs[sindex[h]];
}
static inline void vc_join(uint32_t* d, const uint32_t* s) { for (int i = 0; i < nT; i++) if (s[i] > d[i]) d[i] = s[i]; }
static void acq(Sync* s) { vc_join(cur->vc, s->vc); }
static void rel(Sync* s) { vc_join(s->vc, cur->vc); cur->vc[cur->id]++; }
void edge_release(Edge& e) { vc_join(e.vc, cur->vc); cur->vc[cur->id]++; }
void edge_acquire(Edge& e) { vc_join(cur->vc, e.vc); }

// ---------------------------------------------------------------- access checking
static const char* describe(uintptr_t a, char* buf, size_t n) {
    if (a - ARENA < ARENA_SZ) {
        uint32_t off = a - ARENA;
        // linear search backwards is fine: only on the error path
        for (uint32_t i = nblk; i-- > 0;) {
            Blk& b = blks[i];
            if (off + 32 >= b.off && off < b.off + b.size + 32) {
                snprintf(buf, n, "%d bytes into a %u-byte block allocated by thread %d op %d%s (freed by thread %d op %d)", (int)(off - b.off), b.size, b.tid, b.op, b.freed ? ", freed" : ", live", b.freed ? b.ftid : -1, b.freed ? b.fop : -1);
                return buf;
            }
        }
    }
    snprintf(buf, n, "address %p", (void*)a);
    return buf;
}
static void attach_block_pcs(uintptr_t a) {
    uint32_t off = a - ARENA;
    for (uint32_t i = nblk; i-- > 0;) {
        Blk& b = blks[i];
        if (off + 32 >= b.off && off < b.off + b.size + 32) {
            uint32_t n = 30;
            shm->pcs[n++] = 1;  // marker: allocation
            for (int j = 0; j < 5; j++) if (b.pc[j]) shm->pcs[n++] = b.pc[j];
            shm->pcs[n++] = 2;  // marker: free
            if (b.freed) for (int j = 0; j < 5; j++) if (b.fpc[j]) shm->pcs[n++] = b.fpc[j];
            shm->pcs[n] = 0;
            return;
        }
    }
}
static void mem_error(uintptr_t a, size_t sz, bool w, uint32_t pc) {
    char d[256]; describe(a, d, sizeof d);
    uint8_t st = ((uint8_t*)STATE)[(a - ARENA) >> 3];
    attach_block_pcs(a);
    violation_pc(K_MEM, st == 0xFD ? "use-after-free" : "out-of-bounds", pc, "%s of %zu bytes at %s", w ? "write" : "read", sz, d);
}
static inline void asan_check(uintptr_t a, size_t sz, bool w, uint32_t pc) {
    uint8_t* st = (uint8_t*)STATE;
    uintptr_t o = a - ARENA, e = o + sz;
    for (uintptr_t g = o >> 3; g <= (e - 1) >> 3; g++) {
        uint8_t s = st[g];
        if (__builtin_expect(s == 8, 1)) continue;
        uintptr_t last = e < ((g + 1) << 3) ? e - (g << 3) : 8;
        if (s == 0xFD || s == 0 || last > s) mem_error(ARENA + (g << 3 > o ? g << 3 : o), sz, w, pc);
    }
}
static void race_report(uintptr_t a, size_t sz, bool w, bool at, uint32_t pc, const Slot& s) {
    char d[256]; describe(a, d, sizeof d);
    if (a - ARENA < ARENA_SZ) attach_block_pcs(a);
    shm->pcs[24] = s.pc; // other side
    shm->pcs[25] = 0;
    shm->user[15] = s.pc;
    violation_pc(K_RACE, "data-race", pc, "%s%s of %zu bytes by thread %d op %d is unordered with earlier %s%s by thread %d op %u: %s", at ? "atomic " : "", w ? "write" : "read", sz, cur->ptid, cur->op, s_at(s.v) ? "atomic " : "", s_w(s.v) ? "write" : "read", T[s_tid(s.v)].ptid, s.op, d);
}
static inline void cell_access(Cell* c, uintptr_t a, uint8_t mask, bool w, bool at, uint32_t pc, size_t sz) {
    Thread* me = cur;
    uint32_t clk = me->vc[me->id];
    int put = -1;
    for (int i = 0; i < 4; i++) {
        uint64_t v = c->s[i].v;
        if (!s_used(v)) { if (put < 0) put = i; continue; }
        int t = s_tid(v);
        if (t == me->id) {
            if (s_mask(v) == mask && s_at(v) == at && (w || !s_w(v) || s_clk(v) != clk)) {
                if (!(s_w(v) && !w)) put = i;
            }
            continue;
        }
        if (!(s_mask(v) & mask)) continue;
        if (!w && !s_w(v)) continue;
        if (at && s_at(v)) continue;
        if (s_clk(v) > me->vc[t]) race_report(a, sz, w, at, pc, c->s[i]);
        else if (w && (s_mask(v) & ~mask) == 0) put = i;  // fully superseded
    }
    if (put < 0) put = (rr_slot++) & 3;
    c->s[put].v = mkslot(me->id, clk, mask, w, at);
    c->s[put].pc = pc;
    c->s[put].op = me->op;
}
static void race_range(uintptr_t a, size_t sz, bool w, bool at, uint32_t pc) {
    if (g_alone) return;
    Cell* base; uintptr_t o;
    if (a - ARENA < ARENA_SZ) { base = (Cell*)CELLS; o = a - ARENA; }
    else { base = (Cell*)GCELLS; o = a - (g_lo & ~7ull); }
    uintptr_t e = o + sz;
    for (uintptr_t g = o >> 3; g <= (e - 1) >> 3; g++) {
        unsigned lo = g << 3 >= o ? 0 : o & 7, hi = e >= ((g + 1) << 3) ? 8 : e & 7;
        uint8_t mask = (uint8_t)((0xff << lo) & (0xff >> (8 - hi)));
        cell_access(&base[g], a, mask, w, at, pc, sz);
    }
}
static inline void access(uintptr_t a, size_t sz, bool w, uint32_t pc, bool at = false, bool pt = true) {
    if (__builtin_expect(!g_active, 0)) return;
    Thread* me = cur;
    if (!me || me->inrt) return;
    bool ar = a - ARENA < ARENA_SZ;
    if (!ar) {
        if (a < 4096 && me->sut) return;  // the real access faults and the signal handler reports it
        if (!(a >= g_lo && a < g_hi) || !me->sut) return;
    }
    if (sz == 0) return;
    if (ar) asan_check(a, sz, w, pc);
    if (me->sut) {
        if (pt) { shm->counters[C_ACCESS]++; point(PT_ACCESS); if (ar) asan_check(a, sz, w, pc); }
        race_range(a, sz, w, at, pc);
    }
}

// ---------------------------------------------------------------- allocator
static int size_class(size_t n) { int c = 0; size_t s = 16; while (s < n && c < 63) { s += s < 256 ? 16 : s < 2048 ? 128 : 2048; c++; } return s >= n ? c : 63; }
static size_t class_size(int c) { size_t s = 16; for (int i = 0; i < c; i++) s += s < 256 ? 16 : s < 2048 ? 128 : 2048; return s; }
static void stack_pcs(uint32_t* out, uint32_t pc) {
    int n = 0;
    out[n++] = pc;
    for (int i = cur->sp - 1; i >= 0 && n < 5; i--) out[n++] = i < 256 ? cur->stk[i] : 0;
    while (n < 5) out[n++] = 0;
}
static bool g_reuse;     // freed blocks are handed out again (never before run_start)
void set_alone(bool on) { static bool keep; if (on) { keep = g_reuse; g_reuse = true; } else g_reuse = keep; g_alone = on; g_quiet = on; }
static void* arena_alloc(size_t n, int kind, size_t align, uint32_t pc) {
    Thread* me = cur;
    if (align < 16) align = 16;
    size_t full = n ? n : 1;
    if (full > (64u << 20)) return nullptr;
    uint32_t idx = ~0u;
    int cls = size_class(full);
    bool can_reuse = g_reuse && cls < 63 && align == 16;
    if (can_reuse && freelist[cls]) {
        idx = freelist[cls] - 1;
        freelist[cls] = blknext[idx];
    } else {
        if (nblk >= MAXBLK) violation(K_HARNESS, "arena", "block table full");
        size_t cap = cls < 63 ? class_size(cls) : full;
        uint64_t off = (bump + 32 + align - 1) & ~(uint64_t)(align - 1);
        if (off + cap + 64 > ARENA_SZ) violation(K_HARNESS, "arena", "simulated heap exhausted");
        idx = nblk++;
        blks[idx].off = off;
        bump = (off + cap + 16 + 7) & ~7ull;
    }
    Blk& b = blks[idx];
    b.size = full; b.kind = kind; b.sut = me->sut && !me->guard; b.freed = 0;
    b.tid = me->id; b.op = me->op;
    stack_pcs(b.pc, pc);
    uintptr_t a = ARENA + b.off;
    *(uint64_t*)(a - 16) = 0x51ab51ab00000000ull | idx;
    uint8_t* st = (uint8_t*)STATE + (b.off >> 3);
    size_t g = full >> 3;
    memset(st, 8, g);
    st[g] = full & 7 ? full & 7 : 0;
    // fresh memory: garbage contents, owned by the allocating thread
    __real_memset((void*)a, 0xC7, full);
    if (g_reuse) __real_memset((void*)(CELLS + (uint64_t)(b.off >> 3) * sizeof(Cell)), 0, ((full + 7) >> 3) * sizeof(Cell));
    if (me->sut) { shm->counters[C_ALLOC]++; }
    if (b.sut) g_live_sut += full;
    return (void*)a;
}
static void drop_syncs(uintptr_t a, size_t n, uint32_t pc) {
    if (!nsyncs) return;
    // syncs are never removed while addresses are not reused; check for held locks, reset on reuse
    for (uintptr_t p = a; p < a + n; p += 4) {
        uint32_t h = sslot(p);
        if (!sindex[h]) continue;
        Sync& s = syncs[sindex[h]];
        if (s.owner || s.readers) violation_pc(K_MEM, "lock-destroyed-while-held", pc, "a lock is destroyed while thread %d holds it", s.owner ? T[s.owner - 1].ptid : -1);
        for (int i = 0; i < nT; i++) if (T[i].st == T_BLOCKED && T[i].waiton == p) violation_pc(K_MEM, "lock-destroyed-while-waited", pc, "a lock is destroyed while thread %d waits for it", T[i].ptid);
        uintptr_t ad = s.addr; memset(&s, 0, sizeof s); s.addr = ad;
    }
}
static void arena_free(void* p, int kind, uint32_t pc) {
    uintptr_t a = (uintptr_t)p;
    uint64_t h = 0;
    if ((a & 15) == 0 && a >= ARENA + 32) h = *(uint64_t*)(a - 16);
    if ((h >> 32) != 0x51ab51ab || (uint32_t)h >= nblk || blks[(uint32_t)h].off != a - ARENA) {
        char d[256]; describe(a, d, sizeof d);
        violation_pc(K_MEM, "bad-free", pc, "freeing %s", d);
    }
    Blk& b = blks[(uint32_t)h];
    if (b.freed) { attach_block_pcs(a); char d[256]; describe(a, d, sizeof d); violation_pc(K_MEM, "double-free", pc, "freeing again %s", d); }
    if (cur && b.kind != kind) violation_pc(K_MEM, "alloc-dealloc-mismatch", pc, "block allocated by kind %d freed by kind %d (0 malloc, 1 new, 2 new[])", b.kind, kind);
    if (cur && cur->sut && !cur->inrt) race_range(a, b.size, true, false, pc);
    b.freed = 1;
    if (cur) { b.ftid = cur->id; b.fop = cur->op; stack_pcs(b.fpc, pc); }
    if (b.sut) g_live_sut -= b.size;
    drop_syncs(a, b.size, pc);
    memset((uint8_t*)STATE + (b.off >> 3), 0xFD, (b.size + 7) >> 3);
    __real_memset(p, 0xDD, b.size);
    if (g_reuse && size_class(b.size) < 63) { int c = size_class(b.size); blknext[(uint32_t)h] = freelist[c]; freelist[c] = (uint32_t)h + 1; }
}
int block_state(const void* p) {
    uintptr_t a = (uintptr_t)p;
    if (a - ARENA >= ARENA_SZ) return 0;
    uint8_t s = ((uint8_t*)STATE)[(a - ARENA) >> 3];
    return s == 0xFD ? 2 : s == 0 ? 0 : 1;
}
static bool inject_oom() {
    Thread* me = cur;
    if (!me->sut || me->nofault || me->guard || !me->inop) return false;
    me->allocs++;
    for (uint32_t i = 0; i < shm->nfault; i++) {
        FaultEnt& f = shm->fault[i];
        if (f.tid != me->ptid || f.op != me->op) continue;
        if ((f.kind == F_OOM_ONE && f.n == me->allocs) || (f.kind == F_OOM_FROM && me->allocs >= f.n)) {
            shm->fault_fired |= 1ull << i;
            shm->counters[C_F_OOM]++;
            me->oomfired = true;
            return true;
        }
    }
    return false;
}
static void* alloc_new(size_t n, int kind, size_t align, uint32_t pc, bool nothrow) {
    if (live()) {
        if (!cur->inrt) {
            if (inject_oom()) { if (nothrow) return nullptr; throw std::bad_alloc(); }
            void* p = arena_alloc(n, kind, align, pc);
            if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
            return p;
        }
    }
    void* p = align > 16 ? aligned_alloc(align, (n + align - 1) & ~(align - 1)) : __real_malloc(n ? n : 1);
    if (!p) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    return p;
}
static void dealloc(void* p, int kind, uint32_t pc) {
    if (!p) return;
    if (is_arena(p)) { if (g_active) arena_free(p, kind, pc); return; }
    __real_free(p);
}
#define PC ((uint32_t)(uintptr_t)__builtin_return_address(0))

// ---------------------------------------------------------------- process life cycle
static void* mapfixed(uintptr_t a, size_t n) {
    void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)a) { fprintf(stderr, "jnisim: cannot map simulated memory\n"); exit(2); }
    return p;
}
static void on_signal(int sig, siginfo_t* si, void* uc) {
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "abort" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "signal";
    uint32_t pc = 0;
#ifdef __x86_64__
    uintptr_t ip = ((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    if (ip < 0xffffffffu) pc = ip;
#endif
    if (sig == SIGVTALRM || sig == SIGALRM) violation_pc(K_LIVELOCK, "hang", pc, "processor time limit reached without progress");
    violation_pc(K_CRASH, "crash", pc, "%s%s", n, sig == SIGSEGV && (uintptr_t)si->si_addr < 65536 ? " (null pointer)" : "");
}
static void altstack() {
    stack_t ss; ss.ss_size = 65536; ss.ss_flags = 0;
    ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    sigaltstack(&ss, 0);
}
void init_parent() {
    mapfixed(ARENA, ARENA_SZ);
    mapfixed(CELLS, (ARENA_SZ >> 3) * sizeof(Cell));
    mapfixed(STATE, ARENA_SZ >> 3);
    g_lo = (uintptr_t)&__data_start; g_hi = (uintptr_t)&_end;
    mapfixed(GCELLS, ((g_hi - g_lo) / 8 + 16) * sizeof(Cell));
    mapfixed(BLKS, (size_t)MAXBLK * sizeof(Blk) + (size_t)MAXBLK * 4);
    blknext = (uint32_t*)(BLKS + (size_t)MAXBLK * sizeof(Blk));
    mapfixed(SYNCS, (size_t)NSYNC * sizeof(Sync));
    shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    __libc_single_threaded = 0;
}
static void handlers() {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) sigaction(s, &sa, 0);
}
void run_begin() {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    altstack();
    handlers();
    struct itimerval it = {{0, 0}, {20, 0}}; setitimer(ITIMER_VIRTUAL, &it, 0);
    __libc_single_threaded = 0;
    g_steps = 0; g_limit = g_cap = 3000000;
    nT = 1;
    Thread* t = &T[0];
    t->id = 0; t->ptid = 0; t->st = T_RUN; t->simid = 0x7f5500000000ull; t->vc[0] = 1; t->op = 0xffff; t->prio = 1000;
    cur = t; g_cur = 0;
    g_active = true;
}
void pause_init() { g_active = false; }     // between the set-up of a template process and its runs
void run_start() {
    struct itimerval it = {{0, 0}, {20, 0}}; setitimer(ITIMER_VIRTUAL, &it, 0);   // not inherited by fork
    handlers();
    g_active = true;
    memset(shm->counters, 0, sizeof shm->counters); memset(shm->probes, 0, sizeof shm->probes);
    g_steps = 0; g_limit = g_cap = shm->stepcap ? shm->stepcap : 3000000;
    rng_s = shm->pol.seed; g_reuse = shm->pol.reuse;
    Policy& p = shm->pol;
    if (p.mode == P_PCT || p.mode == P_STALL) for (uint32_t i = 0; i < p.d && i < 16; i++) pctpt[i] = 1 + rnd() % (p.mode == P_PCT ? p.horizon : p.horizon * 2);
    shm->hash = 0xcbf29ce484222325ull; shm->schedhash = 0xcbf29ce484222325ull;
    shm->nsched = 0; shm->sched_overflow = 0;
    T[0].prio = 1000 + rnd() % 1000; T[0].op = 0xffff; T[0].k = 0;
}
static void* tramp(void* a) {
    Thread* t = (Thread*)a;
    cur = nullptr;
    altstack();
    cur = t;
    fut_wait(&t->fut);
    t->fn(t->arg);
    violation(K_HARNESS, "thread", "thread function returned without exit");
    return nullptr;
}
static void thread_exit() {
    Thread* me = cur;
    me->st = T_DONE; me->inop = false;
    // join edge to thread 0
    for (int i = 0; i < nT; i++) if (T[i].st == T_JOIN) {
        bool all = true;
        for (int j = 0; j < nT; j++) if (j != i && T[j].st != T_DONE) all = false;
        if (all) T[i].st = T_RUN;
    }
    me->op = 0xfffe; me->k = 0;
    int to = pick_forced();
    cur = nullptr;
    // record the switch by hand: we must not wait
    shm->counters[C_SWITCH]++;
    uint32_t n = shm->nsched;
    if (n < MAXSCHED) { shm->sched[n] = SchedEnt{(uint16_t)me->id, (uint16_t)me->op, me->k, (uint16_t)to, 1}; shm->nsched = n + 1; } else shm->sched_overflow = 1;
    uint64_t ev = ((uint64_t)me->id << 48) ^ to; mix(shm->schedhash, ev); mix(shm->hash, ev);
    g_cur = to;
    fut_wake(&T[to].fut);
    for (;;) syscall(SYS_futex, &me->fut, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0), me->fut = 0;
}
void run_thread_exit() {
    Thread* me = cur;
    int s = me->sut; me->sut = 1;
    while (me->ndt) { TlsDtor d = me->dt[--me->ndt]; d.fn(d.obj); }
    me->sut = s;
}
struct SpawnArg { void (*fn)(void*); void* arg; };
static void body(void* a) {
    SpawnArg sa = *(SpawnArg*)a; __real_free(a);
    sa.fn(sa.arg);
    thread_exit();
}
int spawn(void (*fn)(void*), void* arg, int ptid, uint64_t simid) {
    if (nT >= MAXT) violation(K_HARNESS, "threads", "too many thread lives");
    int id = nT;
    Thread* t = &T[id];
    memset(t, 0, sizeof *t);
    SpawnArg* sa = (SpawnArg*)__real_malloc(sizeof *sa); sa->fn = fn; sa->arg = arg;
    t->id = id; t->ptid = ptid; t->simid = simid; t->st = T_RUN; t->fn = body; t->arg = sa; t->op = 0xffff;
    t->prio = 1000 + (shm->pol.mode == P_REPLAY ? 0 : rnd() % 1000);
    memcpy(t->vc, cur->vc, sizeof t->vc);
    nT++;
    t->vc[id] = 1;
    cur->vc[cur->id]++;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 512 * 1024);
    int s = cur->inrt; cur->inrt = 1;
    if (pthread_create(&t->real, &at, tramp, t)) violation(K_HARNESS, "threads", "pthread_create failed");
    cur->inrt = s;
    pthread_attr_destroy(&at);
    return id;
}
void join_all() {
    for (;;) {
        bool all = true;
        for (int j = 0; j < nT; j++) if (&T[j] != cur && T[j].st != T_DONE) all = false;
        if (all) break;
        block_current(T_JOIN);
    }
    for (int j = 0; j < nT; j++) if (&T[j] != cur) vc_join(cur->vc, T[j].vc);
}
void run_end_leakcheck(bool check) {
    if (!check) return;
    uint64_t bytes = 0; uint32_t n = 0, first = ~0u;
    for (uint32_t i = 0; i < nblk; i++) if (blks[i].sut && !blks[i].freed) { bytes += blks[i].size; n++; if (first == ~0u) first = i; }
    if (!n) return;
    Blk& b = blks[first];
    attach_block_pcs(ARENA + b.off);
    violation_pc(K_LEAK, "leak", b.pc[0], "%u blocks (%llu bytes) are still allocated after the VM was destroyed; first: %u bytes allocated by thread %d op %d", n, (unsigned long long)bytes, b.size, b.tid, b.op);
}
void finish() {
    g_active = false;
    shm->counters[C_STEPS] = g_steps;
    shm->status = 1;
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}

// ---------------------------------------------------------------- locks
static int do_lock(uintptr_t a, int kind, bool tryonly) {
    if (cur->sut && !cur->inrt) point(PT_SYNC);
    shm->counters[C_LOCKS]++;
    if (is_arena((void*)a)) asan_check(a, 4, true, PC);
    for (;;) {
        Sync* s = sync_get(a);
        if (!s->owner && !s->readers) { s->owner = cur->id + 1; s->count = 1; acq(s); return 0; }
        if (s->owner == cur->id + 1) {
            if (kind == PTHREAD_MUTEX_RECURSIVE_NP) { s->count++; return 0; }
            if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
        }
        if (tryonly) return EBUSY;
        cur->waiton = a;
        block_current(T_BLOCKED);
        if (is_arena((void*)a)) asan_check(a, 4, true, PC);
    }
}
static int do_unlock(uintptr_t a, int kind) {
    if (is_arena((void*)a)) asan_check(a, 4, true, PC);
    Sync* s = sync_get(a);
    if (s->owner != cur->id + 1) {
        if (kind == PTHREAD_MUTEX_RECURSIVE_NP || kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EPERM;
        violation_pc(K_MEM, "unlock-not-owner", PC, "a lock is released by a thread that does not hold it");
    }
    if (--s->count == 0) { rel(s); s->owner = 0; wake_waiters(a); }
    if (cur->sut && !cur->inrt) point(PT_SYNC);
    return 0;
}
static void forced_yield() {
    int l[MAXT]; int n = runnable_list(l, false);
    if (n <= 1) return;
    g_steps++; cur->k++;
    if (g_steps > g_limit) violation(K_LIVELOCK, "livelock", "no completion within %llu scheduling steps", (unsigned long long)g_cap);
    int to;
    if (shm->pol.mode == P_PCT) { cur->prio = 0; }
    to = pick_forced();
    if (to == cur->id) for (int j = 0; j < n; j++) if (l[j] != cur->id) { to = l[j]; break; }
    switch_to(to, true);
}
}  // namespace rt
using namespace rt;

extern "C" {
#define MK(m) ((m)->__data.__kind & 3)
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return live() && !cur->inrt ? do_lock((uintptr_t)m, MK(m), false) : __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    if (!live() || cur->inrt) return __real_pthread_mutex_trylock(m);
    int r = do_lock((uintptr_t)m, MK(m), true);
    if (r == EBUSY) forced_yield();
    return r;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return live() && !cur->inrt ? do_unlock((uintptr_t)m, MK(m)) : __real_pthread_mutex_unlock(m); }
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) {
    if (live() && !cur->inrt) {
        Sync* s = sync_get((uintptr_t)m, false);
        if (s && s->owner) violation_pc(K_MEM, "lock-destroyed-while-held", PC, "a lock is destroyed while thread %d holds it", T[s->owner - 1].ptid);
        return 0;
    }
    return __real_pthread_mutex_destroy(m);
}
static int cond_wait_(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    point(PT_SYNC);
    Sync* sm = sync_get((uintptr_t)m);
    if (sm->owner != cur->id + 1) violation_pc(K_MEM, "cond-wait-unlocked", PC, "condition wait without the lock");
    int cnt = sm->count;
    rel(sm); sm->owner = 0; sm->count = 0; wake_waiters((uintptr_t)m);
    cur->waiton = (uintptr_t)c; cur->timed = timed; cur->timedout = false;
    block_current(T_BLOCKED);
    cur->timed = false;
    bool to = cur->timedout;
    Sync* sc = sync_get((uintptr_t)c); acq(sc);
    do_lock((uintptr_t)m, MK(m), false);
    sync_get((uintptr_t)m)->count = cnt;
    return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return live() && !cur->inrt ? cond_wait_(c, m, false) : __real_pthread_cond_wait(c, m); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return live() && !cur->inrt ? cond_wait_(c, m, true) : __real_pthread_cond_timedwait(c, m, t); }
int __wrap_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { return live() && !cur->inrt ? cond_wait_(c, m, true) : __real_pthread_cond_clockwait(c, m, k, t); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
    if (!live() || cur->inrt) return __real_pthread_cond_signal(c);
    Sync* s = sync_get((uintptr_t)c); rel(s);
    for (int i = 0; i < nT; i++) if (T[i].st == T_BLOCKED && T[i].waiton == (uintptr_t)c) { T[i].st = T_RUN; T[i].waiton = 0; break; }
    mpoint(PT_SYNC);
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
    if (!live() || cur->inrt) return __real_pthread_cond_broadcast(c);
    Sync* s = sync_get((uintptr_t)c); rel(s); wake_waiters((uintptr_t)c);
    mpoint(PT_SYNC);
    return 0;
}
static int rd_(pthread_rwlock_t* l, bool tr) {
    mpoint(PT_SYNC); shm->counters[C_LOCKS]++;
    for (;;) {
        Sync* s = sync_get((uintptr_t)l);
        if (!s->owner) { s->readers++; acq(s); return 0; }
        if (s->owner == cur->id + 1) return EDEADLK;
        if (tr) { forced_yield(); return EBUSY; }
        cur->waiton = (uintptr_t)l; block_current(T_BLOCKED);
    }
}
static int wr_(pthread_rwlock_t* l, bool tr) {
    mpoint(PT_SYNC); shm->counters[C_LOCKS]++;
    for (;;) {
        Sync* s = sync_get((uintptr_t)l);
        if (!s->owner && !s->readers) { s->owner = cur->id + 1; s->count = 1; acq(s); return 0; }
        if (s->owner == cur->id + 1) return EDEADLK;
        if (tr) { forced_yield(); return EBUSY; }
        cur->waiton = (uintptr_t)l; block_current(T_BLOCKED);
    }
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* l) { return live() && !cur->inrt ? rd_(l, false) : __real_pthread_rwlock_rdlock(l); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* l) { return live() && !cur->inrt ? wr_(l, false) : __real_pthread_rwlock_wrlock(l); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* l) { return live() && !cur->inrt ? rd_(l, true) : __real_pthread_rwlock_tryrdlock(l); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* l) { return live() && !cur->inrt ? wr_(l, true) : __real_pthread_rwlock_trywrlock(l); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* l) {
    if (!live() || cur->inrt) return __real_pthread_rwlock_unlock(l);
    Sync* s = sync_get((uintptr_t)l);
    rel(s);
    if (s->owner == cur->id + 1) s->owner = 0; else if (s->readers) s->readers--;
    wake_waiters((uintptr_t)l);
    mpoint(PT_SYNC);
    return 0;
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    if (!live() || cur->inrt) return __real_pthread_once(o, f);
    for (;;) {
        Sync* s = sync_get((uintptr_t)o);
        if (s->state == 2 || *(int*)o == 2) { acq(s); return 0; }
        if (s->state == 0) {
            s->state = 1;
            try { f(); } catch (...) { s = sync_get((uintptr_t)o); s->state = 0; wake_waiters((uintptr_t)o); throw; }
            s = sync_get((uintptr_t)o); s->state = 2; rel(s); wake_waiters((uintptr_t)o);
            return 0;
        }
        cur->waiton = (uintptr_t)o; block_current(T_BLOCKED);
    }
}
pthread_t __wrap_pthread_self() { return live() && !cur->inrt ? (pthread_t)cur->simid : __real_pthread_self(); }
int __wrap_sched_yield() { if (live() && !cur->inrt) { forced_yield(); return 0; } return __real_sched_yield(); }
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) { if (live() && !cur->inrt) { forced_yield(); return 0; } return __real_nanosleep(a, b); }
int __wrap_usleep(useconds_t u) { if (live() && !cur->inrt) { forced_yield(); return 0; } return __real_usleep(u); }
int __wrap_clock_gettime(clockid_t c, struct timespec* t) {
    if (live() && !cur->inrt) { t->tv_sec = 1000000 + g_steps / 1000000; t->tv_nsec = g_steps % 1000000 * 1000; return 0; }
    return __real_clock_gettime(c, t);
}
// function-local statics
int __wrap___cxa_guard_acquire(uint64_t* g) {
    if (!live() || cur->inrt) return __real___cxa_guard_acquire(g);
    mpoint(PT_SYNC);
    for (;;) {
        if (*(volatile char*)g) { acq(sync_get((uintptr_t)g)); return 0; }
        Sync* s = sync_get((uintptr_t)g);
        if (!s->owner) { s->owner = cur->id + 1; s->count = 1; acq(s); cur->guard++; return 1; }
        if (s->owner == cur->id + 1) violation_pc(K_DEADLOCK, "deadlock", PC, "recursive initialisation of a function-local static");
        cur->waiton = (uintptr_t)g; block_current(T_BLOCKED);
    }
}
void __wrap___cxa_guard_release(uint64_t* g) {
    if (!live() || cur->inrt) { __real___cxa_guard_release(g); return; }
    Sync* s = sync_get((uintptr_t)g);
    cur->guard--; rel(s); s->owner = 0; *(volatile char*)g = 1; wake_waiters((uintptr_t)g);
    mpoint(PT_SYNC);
}
void __wrap___cxa_guard_abort(uint64_t* g) {
    if (!live() || cur->inrt) { __real___cxa_guard_abort(g); return; }
    Sync* s = sync_get((uintptr_t)g);
    cur->guard--; rel(s); s->owner = 0; wake_waiters((uintptr_t)g);
}
int __wrap___cxa_thread_atexit(void (*f)(void*), void* o, void* d) {
    if (!live() || cur->inrt) return __real___cxa_thread_atexit(f, o, d);
    if (cur->ndt < 16) { cur->dt[cur->ndt++] = TlsDtor{f, o}; return 0; }
    violation(K_HARNESS, "tls", "too many thread exit handlers");
}
// ---------------------------------------------------------------- heap
void* __wrap_malloc(size_t n) {
    if (live() && !cur->inrt) return arena_alloc(n, 0, 16, PC);
    return __real_malloc(n);
}
void* __wrap_calloc(size_t a, size_t b) {
    if (live() && !cur->inrt) { void* p = arena_alloc(a * b, 0, 16, PC); if (p) __real_memset(p, 0, a * b); return p; }
    return __real_calloc(a, b);
}
void __wrap_free(void* p) { dealloc(p, 0, PC); }
void* __wrap_realloc(void* p, size_t n) {
    if (!p) return __wrap_malloc(n);
    if (!is_arena(p)) return __real_realloc(p, n);
    void* q = arena_alloc(n, 0, 16, PC);
    uint32_t idx = (uint32_t) * (uint64_t*)((uintptr_t)p - 16);
    __real_memcpy(q, p, blks[idx].size < n ? blks[idx].size : n);
    dealloc(p, 0, PC);
    return q;
}
// ---------------------------------------------------------------- libc memory functions
#define RD(p, n) access((uintptr_t)(p), (n), false, PC, false, false)
#define WR(p, n) access((uintptr_t)(p), (n), true, PC, false, false)
void* __wrap_memcpy(void* d, const void* s, size_t n) { if (live()) { RD(s, n); WR(d, n); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if (live()) { RD(s, n); WR(d, n); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if (live()) WR(d, n); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (live()) { RD(a, n); RD(b, n); } return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n) {
    void* r = __real_memchr(a, c, n);
    if (live()) RD(a, r ? (size_t)((char*)r - (char*)a) + 1 : n);
    return r;
}
size_t __wrap_strlen(const char* s) {
    if (live()) { RD(s, 1); size_t n = __real_strlen(s); RD(s, n + 1); return n; }
    return __real_strlen(s);
}
int __wrap_strcmp(const char* a, const char* b) { if (live()) { RD(a, __real_strlen(a) + 1); RD(b, __real_strlen(b) + 1); } return __real_strcmp(a, b); }
int __wrap_strncmp(const char* a, const char* b, size_t n) { return __real_strncmp(a, b, n); }
char* __wrap_strchr(const char* a, int c) { if (live()) RD(a, __real_strlen(a) + 1); return __real_strchr(a, c); }
char* __wrap_strrchr(const char* a, int c) { if (live()) RD(a, __real_strlen(a) + 1); return __real_strrchr(a, c); }
char* __wrap_strcpy(char* d, const char* s) { if (live()) { size_t n = __real_strlen(s) + 1; RD(s, n); WR(d, n); } return __real_strcpy(d, s); }
char* __wrap_strdup(const char* s) { size_t n = __real_strlen(s) + 1; char* p = (char*)__wrap_malloc(n); if (p) __real_memcpy(p, s, n); return p; }
int __wrap_printf(const char* f, ...) {
    va_list ap; va_start(ap, f);
    int r;
    if (live()) { char buf[4096]; Thread* me = cur; int s = me->inrt; me->inrt = 1; r = vsnprintf(buf, sizeof buf, f, ap); if (shm->verbose > 1) write(2, buf, r < (int)sizeof buf ? r : sizeof buf); me->inrt = s; }
    else r = vprintf(f, ap);
    va_end(ap);
    return r;
}
int __wrap_puts(const char* s) { if (live()) { if (shm->verbose > 1) { write(2, s, __real_strlen(s)); write(2, "\n", 1); } return 1; } return __real_puts(s); }
int __wrap_putchar(int c) { if (live()) return c; return __real_putchar(c); }

// ---------------------------------------------------------------- tsan interface
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (live()) { Thread* t = cur; if (t->sp < 256) t->stk[t->sp] = (uint32_t)(uintptr_t)pc; t->sp++; } }
void __tsan_func_exit() { if (live()) { if (cur->sp > 0) cur->sp--; } }
#define RW(n) \
    void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
    void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access((uintptr_t)p, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access((uintptr_t)p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access((uintptr_t)p, 8, true, PC); else access((uintptr_t)p, 8, false, PC); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }

static inline void atom(uintptr_t a, size_t n, bool w, bool acquire, bool release, uint32_t pc, bool post) {
    // pre: point and checks; sync edges applied around the operation
    if (!live() || cur->inrt) return;
    bool tracked = is_arena((void*)a) || (a >= g_lo && a < g_hi);
    if (!tracked) return;
    if (!post) {
        if (is_arena((void*)a)) asan_check(a, n, w, pc);
        if (cur->sut) { shm->counters[C_ATOMICS]++; point(PT_SYNC); if (is_arena((void*)a)) asan_check(a, n, w, pc); race_range(a, n, w, true, pc); }
    }
    if ((acquire || release) && !cur->noedge) {
        Sync* s = sync_get(a);
        if (acquire) acq(s);
        if (release) rel(s);
    }
}
#define ACQ(mo) ((mo) == 1 || (mo) == 2 || (mo) >= 4)
#define REL(mo) ((mo) >= 3)
#define ATOMIC(bits, type) \
    type __tsan_atomic##bits##_load(const volatile type* p, int mo) { atom((uintptr_t)p, sizeof(type), false, ACQ(mo), false, PC, false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile type* p, type v, int mo) { atom((uintptr_t)p, sizeof(type), true, false, REL(mo), PC, false); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_exchange(volatile type* p, type v, int mo) { atom((uintptr_t)p, sizeof(type), true, ACQ(mo), REL(mo), PC, false); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_add(volatile type* p, type v, int mo) { atom((uintptr_t)p, sizeof(type), true, ACQ(mo), REL(mo), PC, false); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_sub(volatile type* p, type v, int mo) { atom((uintptr_t)p, sizeof(type), true, ACQ(mo), REL(mo), PC, false); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_and(volatile type* p, type v, int mo) { atom((uintptr_t)p, sizeof(type), true, ACQ(mo), REL(mo), PC, false); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_or(volatile type* p, type v, int mo) { atom((uintptr_t)p, sizeof(type), true, ACQ(mo), REL(mo), PC, false); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_xor(volatile type* p, type v, int mo) { atom((uintptr_t)p, sizeof(type), true, ACQ(mo), REL(mo), PC, false); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_nand(volatile type* p, type v, int mo) { atom((uintptr_t)p, sizeof(type), true, ACQ(mo), REL(mo), PC, false); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile type* p, type* c, type v, int mo, int) { atom((uintptr_t)p, sizeof(type), true, ACQ(mo), REL(mo), PC, false); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile type* p, type* c, type v, int mo, int) { atom((uintptr_t)p, sizeof(type), true, ACQ(mo), REL(mo), PC, false); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_compare_exchange_val(volatile type* p, type c, type v, int mo, int) { atom((uintptr_t)p, sizeof(type), true, ACQ(mo), REL(mo), PC, false); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

void* operator new(size_t n) { return alloc_new(n, 1, 16, PC, false); }
void* operator new[](size_t n) { return alloc_new(n, 2, 16, PC, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc_new(n, 1, 16, PC, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc_new(n, 2, 16, PC, true); }
void* operator new(size_t n, std::align_val_t a) { return alloc_new(n, 1, (size_t)a, PC, false); }
void* operator new[](size_t n, std::align_val_t a) { return alloc_new(n, 2, (size_t)a, PC, false); }
void operator delete(void* p) noexcept { dealloc(p, 1, PC); }
void operator delete[](void* p) noexcept { dealloc(p, 2, PC); }
void operator delete(void* p, size_t) noexcept { dealloc(p, 1, PC); }
void operator delete[](void* p, size_t) noexcept { dealloc(p, 2, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { dealloc(p, 1, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { dealloc(p, 2, PC); }
void operator delete(void* p, std::align_val_t) noexcept { dealloc(p, 1, PC); }
void operator delete[](void* p, std::align_val_t) noexcept { dealloc(p, 2, PC); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { dealloc(p, 1, PC); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { dealloc(p, 2, PC); }
