// jnisim runtime: cooperative scheduler, race detector, memory checker and
// fault injector behind the -fsanitize=thread instrumentation callbacks.
// Everything a simulated run does is decided by the Policy/fault tables in Shm.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>

namespace rt {

constexpr int MAXT = 24;          // thread lives per run
constexpr int MAXSCHED = 6000;    // recorded context switches
constexpr int MAXFAULT = 24;

enum Kind : uint32_t {
    K_NONE = 0,
    K_RACE,      // conflicting unordered memory accesses
    K_MEM,       // use after free, out of bounds, double free, bad free
    K_CRASH,     // fatal signal, abort, terminate
    K_DEADLOCK,  // no runnable thread
    K_LIVELOCK,  // step or cpu cap
    K_LEAK,      // memory still allocated after VM destruction
    K_MODEL,     // reference model disagrees
    K_HARNESS,   // the simulator itself is confused: never reported as a violation
};

struct SchedEnt { uint16_t tid; uint16_t op; uint32_t k; uint16_t to; uint16_t forced; };
struct FaultEnt { uint16_t tid = 0; uint16_t op = 0; uint32_t kind = 0; uint32_t n = 0; };
enum FaultKind : uint32_t { F_OOM_ONE = 1, F_OOM_FROM = 2 };

enum PolicyMode : uint32_t {
    P_REPLAY = 0,  // follow the schedule table only
    P_OPS,         // switch at operation boundaries only
    P_SYNC,        // switch at synchronisation points
    P_ACCESS,      // switch at any shared memory access
    P_PCT,         // priorities with d random demotion points
    P_STALL,       // freeze threads at random points for a long time
    P_NMODES
};
struct Policy { uint32_t mode; uint32_t den; uint32_t d; uint32_t horizon; uint64_t seed; uint32_t reuse; };

enum Counter : int {
    C_STEPS, C_ACCESS, C_SWITCH, C_PREEMPT, C_BLOCK, C_LOCKS, C_ATOMICS, C_ALLOC,
    C_F_OOM, C_F_CBTHROW, C_F_STALL, C_F_REENTER_DTOR, C_F_REENTER_CB, C_F_THREXIT, C_F_IDREUSE,
    C_F_DLFAIL, C_F_ONLOADTHROW, C_F_CTORTHROW, C_F_WEAKDIE, C_F_DENY,
    C_OPS, C_OPS_EFFECT, C_N
};

struct Shm {
    // in
    Policy pol;
    uint32_t nsched_in, nfault;
    SchedEnt sched_in[MAXSCHED];
    FaultEnt fault[MAXFAULT];
    uint64_t stepcap;
    uint32_t verbose;
    // out
    uint32_t status;  // 0 running, 1 finished, 2 violation
    uint32_t kind;
    char tag[96];
    char msg[6000];
    char ctx[512];    // what the run was doing (op description)
    uint32_t npc; uint32_t pcs[64];
    uint32_t nsched; uint32_t sched_overflow;
    SchedEnt sched[MAXSCHED];
    uint64_t hash;      // full history hash (schedule, results)
    uint64_t schedhash; // schedule only
    uint64_t counters[C_N];
    uint64_t probes[224];
    uint64_t fault_fired;   // bitmap over fault[]
    uint64_t user[16];
    uint32_t oprun[64];
};
extern Shm* shm;

void init_parent();            // once, before forking
void run_begin();              // become simulated thread 0 (set-up, before the run proper)
void pause_init();             // leave the simulation until run_start (template processes)
void run_start();              // start the run described in shm
void run_end_leakcheck(bool check);
[[noreturn]] void finish();    // child: successful end
void set_simid(uint64_t id);

// threads. fn runs as a new simulated thread once scheduled; ptid is the program thread
int spawn(void (*fn)(void*), void* arg, int ptid, uint64_t simid);
void join_all();               // called by thread 0: block until every other thread is done
int self();                    // thread life index
int ptid();

struct OpCtx { int op; uint32_t k; uint64_t allocs; bool oom, inop; };
OpCtx op_save();               // around nested operations
void op_restore(const OpCtx&);
void op_begin(int uid);
void op_end();
void op_point();               // schedulable point between operations
void yield_point();            // schedulable point inside harness callbacks
uint64_t allocs_in_op();       // SUT allocations seen in the current op
bool oom_fired_in_op();
int other_threads_midop();     // number of other live threads inside an operation

void hash_mix(uint64_t v);
inline void count(Counter c) { shm->counters[c]++; }
inline void probe(int i) { shm->probes[i]++; }

[[noreturn]] void violation(Kind k, const char* tag, const char* fmt, ...) __attribute__((format(printf, 3, 4)));

// harness synchronisation objects that carry a happens-before edge
struct Edge { uint32_t vc[MAXT]; };
void edge_release(Edge&);
void edge_acquire(Edge&);

// mode switching
int sut_get();
void sut_set(int);
struct Sut { int s; Sut() : s(sut_get()) { sut_set(1); } ~Sut() { sut_set(s); } };
struct Harness { int s; Harness() : s(sut_get()) { sut_set(0); } ~Harness() { sut_set(s); } };
struct NoEdge { NoEdge(); ~NoEdge(); };     // atomics inside carry no ordering (harness peeking)
void set_quiet(bool);          // no scheduling points while set (single-threaded setup)
void set_alone(bool);          // only one thread is left: no race checks while set, freed blocks are reused
struct NoFault { NoFault(); ~NoFault(); };   // no injected allocation failure inside

uint64_t live_bytes();         // live bytes allocated in SUT mode
uint64_t steps();
void progress();                 // an operation has begun or completed: the step limit of livelocks starts anew
void run_thread_exit();        // run TLS destructors of this simulated thread (SUT mode)
bool is_arena(const void*);
int block_state(const void*);  // 0 not a heap block, 1 live, 2 freed
}
