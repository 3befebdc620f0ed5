// Programs, configurations and the interpreter that runs them against the library.
#pragma once
#include "rt.h"
#include <string>
#include <vector>

enum OpCode : uint16_t {
    OP_MK, OP_NEWLOCAL, OP_DELLOCAL, OP_PUSH, OP_POP, OP_ENSURE,
    OP_NEWGLOBAL, OP_DELGLOBAL, OP_GLOBAL2LOCAL, OP_NEWWEAK, OP_DELWEAK, OP_WEAK2LOCAL, OP_WEAK2GLOBAL, OP_WEAKCMP,
    OP_SAME, OP_REFTYPE, OP_TYPEQ, OP_FINDCLASS, OP_GETMID, OP_GETFID, OP_CALL, OP_NEWOBJ,
    OP_FPRIM, OP_FOBJ, OP_SFIELD, OP_NEWARR, OP_ARRSET, OP_ARRGET, OP_NEWPARR, OP_PARRW, OP_PARRR, OP_HOLD,
    OP_NEWSTR, OP_STRCHK, OP_NEWBUF, OP_BUFCHK, OP_THROWNEW, OP_RETHROW, OP_CLEAR, OP_MONITOR,
    OP_DYNHOOK, OP_REGTYPE, OP_ATTACH, OP_DETACH, OP_GETENV, OP_RESPAWN, OP_SHUFFLE,
    OP_REGNAT, OP_UNREGNAT, OP_CALLNAT, OP_LIBLOAD, OP_LIBUNLOAD, OP_LIBREPLACE, OP_FJSCOPE, OP_FJFIND, OP_DENYQ,
    OP_UNRESM, OP_UNRESF, OP_GETVM, OP_REFLECT, OP_FJGLOBAL, OP_YIELD, OP_NATID, OP_FJCLASSES,
    OP_ATTACHFAIL, OP_CARR, OP_BULK, OP_LOOKUP, OP_START, OP_WIDE,
    OP_N
};
struct Op {
    uint16_t uid = 0, code = 0;
    uint8_t tid = 0, depth = 0, vm = 0, pad = 0;
    uint32_t a = 0, b = 0, c = 0;
};
enum { WORLD_JNIVM, WORLD_FAKEJNI, WORLD_BARON };
struct Config {
    int world = 0, nvm = 1, nullmode = 0, nthreads = 2, rounds = 1, simreuse = 1, reenter = 0, teardown = 1;
};
struct Case {
    std::string profile;
    uint64_t seed = 0;
    Config cfg;
    std::vector<Op> ops;
    std::vector<rt::FaultEnt> faults;
    rt::Policy pol{};
    std::vector<rt::SchedEnt> sched;   // used with P_REPLAY
};
void setup_case(const Config& c);      // creates the VMs: world, nvm and nullmode only
uint64_t setup_key(const Config& c);   // configurations with the same key share a set-up
void run_case(const Case& c);          // after setup_case, in the forked child, does not return
const char* op_name(int code);
std::string op_text(const Op& o);

// properties that a model check speaks for
#define PB(n) (1u << (n))
enum Probe : int {   // coverage counters beyond faults (names in world.cpp)
    PR_DTOR_REENTER, PR_NESTED_CALL, PR_THROW_CB, PR_WEAK_DEAD, PR_WEAK_ALIVE, PR_POP_RESULT, PR_ID_REUSE, PR_CROSS_GLOBAL, PR_MON_CONTEND, PR_MON_RECURSE,
    PR_QUIESCE_CHECK, PR_DEADOBJ, PR_OOM_ESCAPE, PR_OOM_PENDING, PR_VIRT_OVERRIDE, PR_NONVIRT, PR_LATE_HOOK_CALL, PR_LATE_TYPE_CALL, PR_FABRICATED, PR_NULLRET,
    PR_NATIVE_CALL, PR_NATIVE_REPLACED, PR_LIB_OK, PR_LIB_FAIL, PR_LIB_THROW, PR_SCOPED_ATTACH, PR_DENIED, PR_ALLOWED, PR_MULTIVM, PR_REATTACH, PR_HELD_CHARS, PR_ROUNDS,
    PR_CALL_FORM0, PR_CALL_FORM1, PR_CALL_FORM2, PR_EXC_CHECKED, PR_FREED_AT_DETACH, PR_ARR_OBJ, PR_LAST_REF_RACE, PR_SCOPE_THROW, PR_SCOPE_NOENV, PR_EXIT_ATTACHED, PR_NATIVE_INSTANCE, PR_NATIVE_INHERITED, PR_NATIVE_SHADOWED, PR_WEAK_VALUE, PR_WEAK_VALUE_DEAD, PR_ENV_HOOK_THROW, PR_UNATT_QUERY, PR_ACCESSOR, PR_ACCESSOR_THROW, PR_BIG_DATA, PR_STANDIN_TYPED, PR_DENY_API, PR_MAIN_DETACH, PR_TYPE_PAIR, PR_BULK, PR_CODEGEN, PR_DENIED_MENTION, PR_MAIN_RUN, PR_MAIN_MISSING, PR_CALL_UNHELD, PR_NULL_REFUSED, PR_HOOK_REPLACED, PR_NATIVE_OBJ, PR_DEEP_FRAMES, PR_MANY_NATIVES, PR_MANY_MONITORS, PR_MANY_HELD, PR_MANY_IDS, PR_CPP_CALL, PR_SECOND_LIFE, PR_THROW_BARE, PR_PENDING_OP, PR_PENDING_DETACH, PR_DESC_FIELD, PR_ENV_HELD, PR_CPP_ARRAY, PR_IFACE_FIELD,
    PR_OP0 = 96,     // per op code execution counters
};
const char* probe_name(int i);
