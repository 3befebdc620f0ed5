// Reference model and interpreter. This file is compiled without instrumentation; only
// the library, its headers (hooks_*.cpp, bridge.cpp) and user classes are instrumented.
#include "world.h"
#include "bridge.h"
#include <jni.h>
#include <map>
#include <unistd.h>
#include <sys/mman.h>
#include <new>
#include <stdexcept>
#include <set>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <functional>

#include "keys.h"
#include "deny.h"

#define C01 PB(1)
#define C02 PB(2)
#define C03 PB(3)
#define C04 PB(4)
#define C05 PB(5)
#define C06 PB(6)
#define C07 PB(7)
#define C08 PB(8)
#define C09 PB(9)
#define C10 PB(10)
#define C11 PB(11)
#define C12 PB(12)
#define C13 PB(13)
#define C14 PB(14)
#define C15 PB(15)
#define C16 PB(16)
#define C17 PB(17)
#define C18 PB(18)
#define C19 PB(19)
#define C20 PB(20)
#define C21 PB(21)
#define C22 PB(22)
#define C23 PB(23)
#define C26 PB(26)
// profiles that stress everything accept every model check
#define ALLMASK (C13 | C14 | C20 | C22)

using rt::Sut;
using rt::probe;

static void viol(uint32_t mask, const char* tag, const char* fmt, ...) __attribute__((format(printf, 3, 4), noreturn));
static void viol(uint32_t mask, const char* tag, const char* fmt, ...) {
    char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap);
    rt::shm->user[14] = mask | ALLMASK;
    rt::violation(rt::K_MODEL, tag, "%s", b);
}

// ---------------------------------------------------------------- world state
struct Obj {
    int kind = 0, vm = 0; bool alive = true; const void* ptr = nullptr;
    int f_ref = -1, f_gref = -1, f_str = -1;      // model of reference fields
    int prim[13] = {0}, ff = 0;                            // model of primitive fields (value tokens)
    std::vector<int> elems; int eci = 0;          // object array and its element class
    int ptype = 0; std::vector<int> pdata;        // primitive array
    std::string text;                             // string
    int token = -1;                               // throwable
    void* baddr = nullptr; jlong bcap = 0;
    int lease = -1; rt::Edge edge{};
    int mon_owner = -1, mon_count = 0;
    bool seen_null = false, uncertain = false;
    int maker = 0;
};
struct LocalEnt { jobject ref; int oid; };
struct Frame { std::vector<LocalEnt> l; std::vector<int> soft; };
struct VT { bool att = false, detaching = false; JNIEnv* env = nullptr; std::vector<Frame> fr; int pend = -1, pend_oid = -1; bool pend_unc = false; int attaches = 0; };
struct Acc { int f = 0, oid = -1, tok = 0, n = 0, vm = 0; bool set = false, thr = false, thrown = false, kids = false; size_t at = 0; struct RefHold* hold[2] = {nullptr, nullptr}; };
struct MainCtx;
struct PT {
    Acc* acc = nullptr; MainCtx* mainctx = nullptr; bool hookthrow = false;
    int id = 0; VT v[2]; bool busy = false; int depth = 0; uint64_t simid = 0;
    std::vector<Op> ops; size_t pc = 0; std::vector<int> mons; int inh = 0;
};
struct Slot { int st = 0; jobject ref = nullptr; int oid = -1; bool weak = false; int busy = 0, owner = 0; rt::Edge pub{}, use{}; };
struct MidEnt { void* id = nullptr; rt::Edge e{}; bool known = false; };
struct Call {
    bool armed = false; int count = 0; int recv = -3; int ret_oid = -1; int retkind = KIND_A; bool do_throw = false; std::set<int> keys; JNIEnv* env = nullptr; int tid = -1; int vm = 0;
    size_t op = 0; std::string tag; const void* self = nullptr; const void* str = nullptr;
    struct RefHold* hold[2] = {nullptr, nullptr};   // references that may be deleted once the callback runs
};
struct NatEnt { int st = 0, variant = -1, busy = 0; bool excl = false; rt::Edge e{}, use{}; };
struct Lib { int loaded = 0, opens = 0, onload = 0, onunload = 0, closes = 0; };
static const int NG = 6, NW = 4, NCLS = 36, NLIB = 5;
struct VmS {
    JavaVM* vm = nullptr; bool closing = false;
    Slot g[NG], w[NW];
    const void* cls[NCLS] = {nullptr}; jobject clsref[NCLS] = {nullptr};
    std::map<std::string, MidEnt> ids;
    std::map<std::string, const void*> pool;      // classes looked up by generated names
    std::set<std::string> decl;                    // classes that a recorded member mentions
    int dyn[8] = {0}, dynbusy[8] = {0}, dynvar[8] = {0}; rt::Edge dyn_e[8], dyn_use[8];
    int reg[4] = {0}; rt::Edge reg_e[4];
    NatEnt nat[16]; int natall[3] = {0};
    int wide[64] = {0}, widebusy = 0; rt::Edge wide_e{}; int mainreg = 0, mainover = 0; rt::Edge main_e{};
    int so_oid = -1; int st_lease = -1; rt::Edge st_edge{}; int st_prim[11] = {0}, st_ff = 0;
    Lib lib[NLIB]; int lib_lease = -1; rt::Edge lib_edge{}; int cur_lib_pt = -1;
    std::map<int, const void*> envs;   // live env per program thread
};
struct World {
    Case c; std::vector<Obj> o; std::vector<PT> pt; VmS vm[2]; std::map<int, Call> calls; std::map<const void*, int> byptr;
    int tickets = 0, bulks = 0, wides = 0; int lives = 0; bool ending = false; int round = 0; std::vector<uint64_t> bytes; std::vector<int> freed_now;
};
static World* W;
static PT& me() { return W->pt[rt::ptid()]; }
int h_ticket(int d) { return W ? W->tickets += d : 0; }

static const char* const CLSN[NCLS] = {"sim/A", "sim/B", "sim/C", "sim/D", "sim/S", "sim/N", "sim/pkg/F", "sim/pkg/G", "java/lang/Object", "java/lang/String", "java/lang/Throwable", "java/lang/Class",
    "sim/u/X0", "sim/u/X1", "sim/u/Out$In", "sim/u/Out", "u2/y/Z0", "Top", "sim/late/R0", "sim/late/R1", "sim/late/Outer$R2", "other/R3", "sim/u/Q0", "java/lang/reflect/Method",
    "sim/Iface", "sim/E", "[I", "[J", "[Lsim/A;", "[Lsim/B;", "[Lsim/D;", "[Ljava/lang/String;", "[[I", "[Lother/A;", "[[Lsim/A;", "sim/IfaceP"};
enum { CI_A, CI_B, CI_C, CI_D, CI_S, CI_N, CI_F, CI_G, CI_OBJ, CI_STR, CI_THR, CI_CLASS, CI_X0, CI_X1, CI_IN, CI_OUT, CI_Z0, CI_TOP, CI_R0, CI_Q0 = 22, CI_IFACE = 24, CI_E, CI_ARR0, CI_AA = CI_ARR0 + 2, CI_IFP = 35 };
static int kind_ci(int k) { return k >= KIND_A && k <= KIND_D ? k - 1 : k == KIND_F ? CI_F : k == KIND_G ? CI_G : k == KIND_STR ? CI_STR : k == KIND_THR ? CI_THR : k >= KIND_R0 && k < KIND_PROBE_END ? CI_R0 + k - KIND_R0 : -1; }
static int parent_kind(int k) { switch (k) { case KIND_B: return KIND_A; case KIND_C: case KIND_D: return KIND_B; case KIND_F: return KIND_A; case KIND_G: return KIND_F; case KIND_R0: case KIND_R1: case KIND_R2: case KIND_R3: return KIND_A; default: return 0; } }
static int ci_kind(int ci) { for (int k = KIND_A; k < KIND_PROBE_END; k++) if (kind_ci(k) == ci) return k; return 0; }
static bool kind_isa(int k, int base) { for (; k; k = parent_kind(k)) if (k == base) return true; return false; }
static bool nullmode() { return W->c.cfg.world == WORLD_FAKEJNI || (W->c.cfg.world == WORLD_JNIVM && W->c.cfg.nullmode); }
static bool cls_known(int ci) { return ci <= CI_N || (ci >= CI_OBJ && ci <= CI_CLASS) || (ci >= 23 && ci <= CI_E) || ci == CI_IFP || ((ci == CI_F || ci == CI_G) && W->c.cfg.world); }
static bool cls_maybe(int ci) { return (ci >= CI_R0 && ci < CI_R0 + 4) || (ci >= CI_ARR0 && ci < CI_IFP); }   // may or may not be known
static bool isprobe(int k) { return k >= KIND_A && k < KIND_PROBE_END; }

// ---------------------------------------------------------------- reachability
static void reach(bool soft, std::vector<char>& m) {
    m.assign(W->o.size(), 0);
    std::vector<int> q;
    auto add = [&](int i) { if (i >= 0 && !m[i]) { m[i] = 1; q.push_back(i); } };
    for (auto& t : W->pt) for (auto& v : t.v) for (auto& f : v.fr) { for (auto& l : f.l) add(l.oid); if (soft) for (int s : f.soft) add(s); }
    for (auto& v : W->vm) { for (auto& s : v.g) if (s.st == 2) add(s.oid); add(v.so_oid); }
    if (soft) for (size_t i = 0; i < W->o.size(); i++) if (W->o[i].uncertain) add(i);
    while (!q.empty()) { int i = q.back(); q.pop_back(); Obj& o = W->o[i]; add(o.f_ref); add(o.f_gref); add(o.f_str); for (int e : o.elems) add(e); }
}
// a store that would close a cycle of strong references is not generated: such a cycle never dies, by design
static std::vector<std::pair<int, int>> tent;
static bool closes_cycle(int holder, int val) {
    std::vector<int> q{val}; std::set<int> seen{val};
    while (!q.empty()) {
        int i = q.back(); q.pop_back();
        if (i == holder) return true;
        auto add = [&](int n) { if (n >= 0 && seen.insert(n).second) q.push_back(n); };
        add(W->o[i].f_ref); add(W->o[i].f_gref);
        for (auto& e : tent) if (e.first == i) add(e.second);
    }
    return false;
}
static bool reachable(int oid) { std::vector<char> m; reach(false, m); return m[oid]; }

int h_obj_ctor(const void* self, int kind) {
    int id = W->o.size();
    Obj o; o.kind = kind; o.ptr = self; o.maker = rt::ptid();
    PT& t = me(); o.vm = t.ops.empty() || t.pc >= t.ops.size() ? 0 : t.ops[t.pc].vm % W->c.cfg.nvm;
    W->o.push_back(o);
    return id;
}
static void mini_ops(int oid);
void h_obj_copy(int oid) { viol(C10 | C01, "copied-object", "the library made a copy of object %d", oid); }
void h_obj_dtor(int oid, const void* self, int kind) {
    Obj& o = W->o[oid];
    if (!o.alive) viol(C04, "destroyed-twice", "object %d is destroyed a second time", oid);
    if (!W->vm[o.vm].closing && reachable(oid))
        viol(C01 | C02 | C03 | C04 | C06 | C18 | C19, "premature-destroy", "object %d (kind %d) is destroyed while a reference the program still holds keeps it alive", oid, kind);
    o.alive = false;
    rt::hash_mix(0xdead0000 + oid);
    probe(PR_DEADOBJ);
    if (W->c.cfg.reenter && !W->vm[0].closing && !W->vm[1].closing) mini_ops(oid);
}

// ---------------------------------------------------------------- calling the library
template<class F> static bool sut(F&& f) {
    try { Sut s; f(); return true; }
    catch (const std::bad_alloc&) {
        if (!rt::oom_fired_in_op() && !me().v[0].pend_unc && !me().v[1].pend_unc) viol(C14 | C11, "stray-bad-alloc", "an allocation failure that was not injected escaped from the library");
        probe(PR_OOM_ESCAPE);
    } catch (const SimEx& x) { viol(C11, "exception-escaped", "exception %d thrown by a callback escaped from the JNI function as a C++ exception", x.tok); }
    catch (const std::exception& x) {
        if (rt::oom_fired_in_op()) { probe(PR_OOM_ESCAPE); return false; }
        viol(C11 | C10 | C01 | C02 | C03 | C07 | C08, "library-threw", "the library threw an unexpected exception: %s", x.what());
    }
    return false;
}
static bool oomed() { return rt::oom_fired_in_op(); }

static int ident_oid(VT& v, jobject r) {   // model object of a strong reference, -1 if none / unknown
    Ident i = br_ident(v.env, r);
    if (i.oid >= 0) return i.oid;
    if (!i.obj) return -1;
    auto it = W->byptr.find(i.obj);
    return it == W->byptr.end() ? -2 : it->second;
}
static void soft(VT& v, int oid) { if (oid >= 0 && !v.fr.empty()) v.fr.back().soft.push_back(oid); }
static void add_local(VT& v, jobject r, int oid, uint32_t mask) {
    Obj& o = W->o[oid];
    if (!o.alive) viol(mask | C01, "dead-reference", "a reference to object %d was returned although the object has been destroyed", oid);
    v.fr.back().l.push_back({r, oid});
}
static int new_obj(VT& v, int vm, jobject r, int kind) {   // non-probe object
    Ident i = br_ident(v.env, r);
    Obj o; o.kind = kind; o.vm = vm; o.ptr = i.obj; o.maker = rt::ptid();
    int id = W->o.size(); W->o.push_back(o);
    W->byptr[i.obj] = id;
    v.fr.back().l.push_back({r, id});
    return id;
}

// ---------------------------------------------------------------- references
struct Ref { jobject r = nullptr; int oid = -1; Slot* slot = nullptr; Slot* wslot = nullptr; bool dead = false; };
static void pin(Slot* s) { s->busy++; rt::edge_acquire(s->pub); if (s->owner != rt::ptid()) probe(PR_CROSS_GLOBAL); }
static void unpin(Slot* s) { s->busy--; rt::edge_release(s->use); }
struct RefHold {
    Ref r; RefHold(Ref x) : r(x) { if (r.slot) pin(r.slot); if (r.wslot) pin(r.wslot); } ~RefHold() { drop(); } RefHold(const RefHold&) = delete;
    void drop() { if (r.slot) unpin(r.slot); if (r.wslot) unpin(r.wslot); r.slot = r.wslot = nullptr; }
};
static bool kind_match(int k, uint32_t mask) { return (mask >> k) & 1; }
static const uint32_t M_PROBE = ((1u << KIND_PROBE_END) - 1) & ~1u, M_ANY = ~0u & ~(1u << KIND_CLS);
static Ref pick(PT& t, int vm, uint32_t r, uint32_t kinds, bool nolocal = false) {
    VT& v = t.v[vm];
    std::vector<Ref> c;
    if (!nolocal) for (auto& f : v.fr) for (auto& l : f.l) if (kind_match(W->o[l.oid].kind, kinds)) { Ref x; x.r = l.ref; x.oid = l.oid; c.push_back(x); }
    for (auto& s : W->vm[vm].g) if (s.st == 2 && kind_match(W->o[s.oid].kind, kinds)) { Ref x; x.r = s.ref; x.oid = s.oid; x.slot = &s; c.push_back(x); }
    if (c.empty()) return Ref();
    return c[r % c.size()];
}
// a reference to pass as a value or receiver: sometimes a weak reference to an object the thread also holds strongly, which
// must act like a strong one, or (values only) a weak reference to a destroyed object, which must act like null
static Ref pick_val(PT& t, int vm, uint32_t r, uint32_t kinds, uint32_t sel, bool deadok) {
    Ref x = pick(t, vm, r, kinds);
    if (!x.r || sel % 3) return x;
    for (int i = 0; i < NW; i++) {
        Slot& s = W->vm[vm].w[(sel / 3 + i) % NW];
        if (s.st != 2 || !kind_match(W->o[s.oid].kind, kinds)) continue;
        if (W->o[s.oid].alive ? s.oid == x.oid : deadok) {
            if (!W->o[s.oid].alive) { x = Ref(); x.dead = true; probe(PR_WEAK_VALUE_DEAD); } else probe(PR_WEAK_VALUE);
            x.r = s.ref; x.wslot = &s;
            return x;
        }
    }
    return x;
}
static bool lease(Obj& o) { if (o.lease >= 0) return false; o.lease = rt::ptid(); rt::edge_acquire(o.edge); return true; }
static void unlease(int oid) { Obj& o = W->o[oid]; o.lease = -1; rt::edge_release(o.edge); }

// ---------------------------------------------------------------- call table
enum { AK_8, AK_IJ, AK_I, AK_OBJ, AK_OBJI, AK_STR, AK_ARR, AK_J, AK_OARR, AK_MIX, AK_BIG, AK_SAME, AK_SAMEC, AK_IZ, AK_HUGE };
struct Callable { const char* cls; int ci; const char* name; bool stat; const char* sig; int ak, rt, key; };
#define S8 "(IJDZBCSF)"
#define SBIG "(IJDFZJJDDIBJDFCJDDSJDIJDF)"
#define S5 "JDIFC"
#define SHUGE "(I" S5 S5 S5 S5 S5 S5 S5 S5 S5 S5 S5 S5 S5 S5 ")D"
static const Callable CT[] = {
    {"sim/S", CI_S, "sV", true, S8 "V", AK_8, RT_V, K_STATIC + RT_V}, {"sim/S", CI_S, "sZ", true, S8 "Z", AK_8, RT_Z, K_STATIC + RT_Z}, {"sim/S", CI_S, "sB", true, S8 "B", AK_8, RT_B, K_STATIC + RT_B},
    {"sim/S", CI_S, "sC", true, S8 "C", AK_8, RT_C, K_STATIC + RT_C}, {"sim/S", CI_S, "sS", true, S8 "S", AK_8, RT_S, K_STATIC + RT_S}, {"sim/S", CI_S, "sI", true, S8 "I", AK_8, RT_I, K_STATIC + RT_I},
    {"sim/S", CI_S, "sJ", true, S8 "J", AK_8, RT_J, K_STATIC + RT_J}, {"sim/S", CI_S, "sF", true, S8 "F", AK_8, RT_F, K_STATIC + RT_F}, {"sim/S", CI_S, "sD", true, S8 "D", AK_8, RT_D, K_STATIC + RT_D},
    {"sim/S", CI_S, "sL", true, S8 "Lsim/A;", AK_8, RT_L, K_STATIC + RT_L},
    {"sim/A", CI_A, "iV", false, S8 "V", AK_8, RT_V, K_INST + RT_V}, {"sim/A", CI_A, "iZ", false, S8 "Z", AK_8, RT_Z, K_INST + RT_Z}, {"sim/A", CI_A, "iB", false, S8 "B", AK_8, RT_B, K_INST + RT_B},
    {"sim/A", CI_A, "iC", false, S8 "C", AK_8, RT_C, K_INST + RT_C}, {"sim/A", CI_A, "iS", false, S8 "S", AK_8, RT_S, K_INST + RT_S}, {"sim/A", CI_A, "iI", false, S8 "I", AK_8, RT_I, K_INST + RT_I},
    {"sim/A", CI_A, "iJ", false, S8 "J", AK_8, RT_J, K_INST + RT_J}, {"sim/A", CI_A, "iF", false, S8 "F", AK_8, RT_F, K_INST + RT_F}, {"sim/A", CI_A, "iD", false, S8 "D", AK_8, RT_D, K_INST + RT_D},
    {"sim/A", CI_A, "iL", false, S8 "Lsim/A;", AK_8, RT_L, K_INST + RT_L},
    {"sim/A", CI_A, "mfun", false, "(IJ)I", AK_IJ, RT_I, K_MFUN},
    {"sim/A", CI_A, "vfun", false, "(I)I", AK_I, RT_I, K_VFUN_A},          // 21
    {"sim/B", CI_B, "vfun", false, "(I)I", AK_I, RT_I, K_VFUN_B},          // 22
    {"sim/A", CI_A, "wfun", false, "(I)J", AK_I, RT_J, K_WFUN_A},          // 23
    {"sim/B", CI_B, "wfun", false, "(I)J", AK_I, RT_J, K_WFUN_B},          // 24
    {"sim/D", CI_D, "wfun", false, "(I)J", AK_I, RT_J, K_WFUN_D},          // 25
    {"sim/S", CI_S, "objarg", true, "(ILsim/A;FLsim/A;)Lsim/A;", AK_OBJ, RT_L, K_OBJARG},
    {"sim/A", CI_A, "objargi", false, "(JLsim/A;I)Lsim/A;", AK_OBJI, RT_L, K_OBJARGI},
    {"sim/S", CI_S, "strarg", true, "(ILjava/lang/String;)Ljava/lang/String;", AK_STR, RT_L, K_STRARG},
    {"sim/S", CI_S, "arrarg", true, "([II)I", AK_ARR, RT_I, K_ARRARG},
    {"sim/S", CI_S, "plain", true, "(IJ)J", AK_IJ, RT_J, K_PLAIN},          // 30
    {"sim/A", CI_A, "over", false, "(I)J", AK_I, RT_J, K_OVER}, {"sim/A", CI_A, "over", false, "(J)J", AK_J, RT_J, K_OVER + 1}, {"sim/B", CI_B, "over", false, "(J)J", AK_J, RT_J, K_OVER + 2}, {"sim/D", CI_D, "over", false, "(I)J", AK_I, RT_J, K_OVER + 3},
    {"sim/S", CI_S, "sov", true, "(I)J", AK_I, RT_J, K_OVER + 4}, {"sim/S", CI_S, "sov", true, "(J)J", AK_J, RT_J, K_OVER + 5}, {"sim/N", CI_N, "nat0", true, "(I)J", AK_I, RT_J, K_OVER + 6},   // 31..37
    {"sim/S", CI_S, "dyn0", true, "(IJ)I", AK_IJ, RT_I, K_DYN + 0}, {"sim/S", CI_S, "dyn1", true, "(IJ)I", AK_IJ, RT_I, K_DYN + 1}, {"sim/S", CI_S, "dyn2", true, "(IJ)I", AK_IJ, RT_I, K_DYN + 2},
    {"sim/S", CI_S, "dyn3", true, "(IJ)I", AK_IJ, RT_I, K_DYN + 3}, {"sim/S", CI_S, "dyn4", true, "(IJ)I", AK_IJ, RT_I, K_DYN + 4}, {"sim/S", CI_S, "dyn5", true, "(IJ)I", AK_IJ, RT_I, K_DYN + 5},
    {"sim/S", CI_S, "dyn6", true, "(IJ)I", AK_IJ, RT_I, K_DYN + 6}, {"sim/S", CI_S, "dyn7", true, "(IJ)I", AK_IJ, RT_I, K_DYN + 7},   // 38..45
    {"sim/late/R0", CI_R0, "regs", true, "(I)J", AK_I, RT_J, K_REG + 16}, {"sim/late/R1", CI_R0 + 1, "regs", true, "(I)J", AK_I, RT_J, K_REG + 17},
    {"sim/late/Outer$R2", CI_R0 + 2, "regs", true, "(I)J", AK_I, RT_J, K_REG + 18}, {"other/R3", CI_R0 + 3, "regs", true, "(I)J", AK_I, RT_J, K_REG + 19},
    {"sim/late/R0", CI_R0, "regi", false, "(I)I", AK_I, RT_I, K_REG}, {"sim/late/R1", CI_R0 + 1, "regi", false, "(I)I", AK_I, RT_I, K_REG + 1},
    {"sim/late/Outer$R2", CI_R0 + 2, "regi", false, "(I)I", AK_I, RT_I, K_REG + 2}, {"other/R3", CI_R0 + 3, "regi", false, "(I)I", AK_I, RT_I, K_REG + 3},   // 46..53
    {"sim/pkg/F", CI_F, "ffun", false, "(IJ)I", AK_IJ, RT_I, K_FFUN}, {"sim/pkg/F", CI_F, "fstat", true, "(IJ)I", AK_IJ, RT_I, K_FSTAT}, {"sim/pkg/G", CI_G, "gfun", false, "(IJ)I", AK_IJ, RT_I, K_FFUN + 16},  // 54..56
    {"sim/S", CI_S, "oarA", true, "(I[Lsim/A;)I", AK_OARR, RT_I, K_OARR}, {"sim/S", CI_S, "oarB", true, "(I[Lsim/B;)I", AK_OARR, RT_I, K_OARR + 1}, {"sim/S", CI_S, "oarC", true, "(I[Lsim/C;)I", AK_OARR, RT_I, K_OARR + 2}, {"sim/S", CI_S, "oarD", true, "(I[Lsim/D;)I", AK_OARR, RT_I, K_OARR + 3},  // 57..60
    {"sim/S", CI_S, "mix", true, "([[Ljava/lang/String;ILjava/lang/Class;D[[JJ[ZF)D", AK_MIX, RT_D, K_MIX}, {"sim/A", CI_A, "imix", false, "([[Ljava/lang/String;ILjava/lang/Class;D[[JJ[ZF)D", AK_MIX, RT_D, K_MIX + 1},
    {"sim/S", CI_S, "big", true, SBIG "F", AK_BIG, RT_F, K_MIX + 2}, {"sim/A", CI_A, "ibig", false, SBIG "F", AK_BIG, RT_F, K_MIX + 3},
    {"sim/S", CI_S, "same", true, "(Ljava/lang/Object;I)Ljava/lang/Object;", AK_SAME, RT_L, K_MIX + 4}, {"sim/A", CI_A, "isame", false, "(Ljava/lang/Object;I)Ljava/lang/Object;", AK_SAME, RT_L, K_MIX + 5},
    {"sim/S", CI_S, "samep", true, "(Lsim/A;I)Lsim/A;", AK_SAME, RT_L, K_MIX + 6}, {"sim/A", CI_A, "isamep", false, "(Lsim/A;I)Lsim/A;", AK_SAME, RT_L, K_MIX + 7},
    {"sim/S", CI_S, "sref", true, "(Lsim/A;I)Lsim/A;", AK_SAME, RT_L, K_MIX + 8}, {"sim/S", CI_S, "samet", true, "(Ljava/lang/Throwable;I)Ljava/lang/Throwable;", AK_SAME, RT_L, K_MIX + 9},
    {"sim/S", CI_S, "samec", true, "(Ljava/lang/Class;I)Ljava/lang/Class;", AK_SAMEC, RT_L, K_MIX + 10},
    {"sim/S", CI_S, "samer", true, "(Ljava/lang/Object;I)Ljava/lang/Object;", AK_SAME, RT_L, K_MIX + 11}, {"sim/S", CI_S, "strv", true, "(ILjava/lang/String;Ljava/lang/String;)I", AK_STR, RT_I, K_MIX + 12},
#define SH(n, k) {"sim/S", CI_S, n, true, "(IJ)J", AK_IJ, RT_J, K_MIX + k}
#define IH(n, k) {"sim/A", CI_A, n, false, "(IJ)J", AK_IJ, RT_J, K_MIX + k}
    SH("sh0", 13), SH("sh1", 14), SH("sh2", 15), SH("sh3", 16), SH("sh4", 17), SH("sh5", 18), SH("sh6", 19), {"sim/S", CI_S, "sh7", true, "(IZ)Z", AK_IZ, RT_Z, K_MIX + 20},
    IH("ih0", 21), IH("ih1", 22), IH("ih2", 23), IH("ih3", 24), IH("ih4", 25), IH("ih5", 26), IH("ih6", 27),
    {"sim/S", CI_S, "huge", true, SHUGE, AK_HUGE, RT_D, K_MIX + 33}, {"sim/A", CI_A, "ihuge", false, SHUGE, AK_HUGE, RT_D, K_MIX + 34},   // 89, 90
    // through the second base of D
    {"sim/D", CI_D, "imeth", false, "(IJ)J", AK_IJ, RT_J, K_MIX + 35}, {"sim/D", CI_D, "pmeth", false, "(IJ)J", AK_IJ, RT_J, K_MIX + 36}, {"sim/D", CI_D, "imeth2", false, "(IJ)J", AK_IJ, RT_J, K_MIX + 37}, {"sim/D", CI_D, "istat", true, "(IJ)J", AK_IJ, RT_J, K_MIX + 38},
    {"sim/Iface", CI_IFACE, "pmeth", false, "(IJ)J", AK_IJ, RT_J, K_MIX + 36}, {"sim/IfaceP", CI_IFP, "imeth2", false, "(IJ)J", AK_IJ, RT_J, K_MIX + 39},
    // FakeJni descriptors
    {"sim/pkg/F", CI_F, "fst", true, "(IJ)J", AK_IJ, RT_J, K_MIX + 28}, {"sim/pkg/F", CI_F, "fin", false, "(IJ)J", AK_IJ, RT_J, K_MIX + 29},
    {"sim/pkg/F", CI_F, "fsg", true, "(Lsim/pkg/G;I)Lsim/pkg/G;", AK_SAME, RT_L, K_MIX + 30}, {"sim/pkg/F", CI_F, "fig", false, "(Lsim/pkg/G;I)Lsim/pkg/G;", AK_SAME, RT_L, K_MIX + 31},
};
static const int NCT = sizeof CT / sizeof *CT;
enum { CT_DYN = 38, CT_REG = 46, CT_FFUN = 54, CT_FSTAT, CT_GFUN, CT_OARR, CT_MIX = CT_OARR + 4, CT_FJ = 97 };
static int ct_index(uint32_t a) {   // of the callables that exist in this world
    int ix = a % NCT;
    if (W->c.cfg.world == WORLD_JNIVM) { if (ix >= CT_FFUN && ix <= CT_GFUN) ix -= CT_FFUN; if (ix >= CT_FJ) ix -= CT_FJ; }
    return ix;
}
// the implementation that objects of a kind have
static int impl_key(const Callable& c, int kind) {
    if (c.stat) return c.key;
    if (!strcmp(c.name, "vfun")) return kind_isa(kind, KIND_B) ? K_VFUN_B : K_VFUN_A;
    if (!strcmp(c.name, "wfun")) return kind == KIND_D ? K_WFUN_D : kind_isa(kind, KIND_B) ? K_WFUN_B : K_WFUN_A;
    if (!strcmp(c.name, "over")) return c.ak == AK_I ? (kind == KIND_D ? K_OVER + 3 : K_OVER) : kind_isa(kind, KIND_B) ? K_OVER + 2 : K_OVER + 1;
    if (!strcmp(c.name, "imeth2")) return kind ? K_MIX + 37 : K_MIX + 39;
    return c.key;
}

// typed invocation through every JNI call form
#define CALLERS(Name, T) \
    static T Name##_v(JNIEnv* e, int k, jobject o, jclass c, jmethodID m, ...) { va_list ap; va_start(ap, m); \
        struct G { va_list* a; ~G() { va_end(*a); } } g{&ap}; \
        return k == 0 ? e->CallStatic##Name##MethodV(c, m, ap) : k == 1 ? e->Call##Name##MethodV(o, m, ap) : e->CallNonvirtual##Name##MethodV(o, c, m, ap); } \
    template<class... X> static T call_##Name(JNIEnv* e, int k, int form, jobject o, jclass c, jmethodID m, const jvalue* a, X... x) { \
        if (form == 0) return k == 0 ? e->CallStatic##Name##Method(c, m, x...) : k == 1 ? e->Call##Name##Method(o, m, x...) : e->CallNonvirtual##Name##Method(o, c, m, x...); \
        if (form == 1) return Name##_v(e, k, o, c, m, x...); \
        if (form == 3) return k == 0 ? e->functions->CallStatic##Name##Method(e, c, m, x...) : k == 1 ? e->functions->Call##Name##Method(e, o, m, x...) : e->functions->CallNonvirtual##Name##Method(e, o, c, m, x...); \
        return k == 0 ? e->CallStatic##Name##MethodA(c, m, (jvalue*)a) : k == 1 ? e->Call##Name##MethodA(o, m, (jvalue*)a) : e->CallNonvirtual##Name##MethodA(o, c, m, (jvalue*)a); }
CALLERS(Void, void) CALLERS(Boolean, jboolean) CALLERS(Byte, jbyte) CALLERS(Char, jchar) CALLERS(Short, jshort) CALLERS(Int, jint) CALLERS(Long, jlong) CALLERS(Float, jfloat) CALLERS(Double, jdouble) CALLERS(Object, jobject)
template<class... X> static void call_any(jvalue& ret, int rtype, JNIEnv* e, int k, int form, jobject o, jclass c, jmethodID m, const jvalue* a, X... x) {
    switch (rtype) {
    case RT_V: call_Void(e, k, form, o, c, m, a, x...); break;
    case RT_Z: ret.z = call_Boolean(e, k, form, o, c, m, a, x...); break;
    case RT_B: ret.b = call_Byte(e, k, form, o, c, m, a, x...); break;
    case RT_C: ret.c = call_Char(e, k, form, o, c, m, a, x...); break;
    case RT_S: ret.s = call_Short(e, k, form, o, c, m, a, x...); break;
    case RT_I: ret.i = call_Int(e, k, form, o, c, m, a, x...); break;
    case RT_J: ret.j = call_Long(e, k, form, o, c, m, a, x...); break;
    case RT_F: ret.f = call_Float(e, k, form, o, c, m, a, x...); break;
    case RT_D: ret.d = call_Double(e, k, form, o, c, m, a, x...); break;
    case RT_L: ret.l = call_Object(e, k, form, o, c, m, a, x...); break;
    }
}
// how a call is made: 0 and 3 with variable arguments (through jni.h's wrapper, through the function table), 1 va_list, 2 jvalues
static int call_form(uint32_t b) { return b % 3 == 0 && (b >> 20) % 2 ? 3 : b % 3; }
static bool ret_ok(int rtype, const jvalue& r, int t) {
    switch (rtype) {
    case RT_Z: return r.z == rvZ(t); case RT_B: return r.b == rvB(t); case RT_C: return r.c == rvC(t); case RT_S: return r.s == rvS(t); case RT_I: return r.i == rvI(t);
    case RT_J: return r.j == rvJ(t); case RT_F: return r.f == rvF(t); case RT_D: return r.d == rvD(t);
    }
    return true;
}

// ---------------------------------------------------------------- pending exceptions
static void check_pending(PT& t, int vm) {   // verify the model, then clear
    VT& v = t.v[vm];
    if (!v.att) return;
    if (v.pend_unc) { sut([&] { v.env->ExceptionClear(); }); v.pend_unc = false; v.pend = -1; return; }
    jboolean p = 0;
    if (!sut([&] { p = v.env->ExceptionCheck(); })) return;
    if (v.pend < 0) {
        if (p) viol(C06 | C11, "exception-appeared", "thread %d has a pending exception although nothing was thrown on it", t.id);
        return;
    }
    probe(PR_EXC_CHECKED);
    if (!p) viol(C06 | C11, "exception-lost", "the pending exception %d of thread %d disappeared before it was cleared", v.pend, t.id);
    jthrowable th = nullptr;
    bool ok = sut([&] { th = v.env->ExceptionOccurred(); });
    if (ok) {
        if (!th) viol(C06 | C11, "exception-lost", "ExceptionOccurred returns null while exception %d is pending", v.pend);
        int tok = br_exc_token(v.env, th);
        if (tok != v.pend) viol(C06 | C11, "exception-mixed", "the pending exception of thread %d is %d, expected %d", t.id, tok, v.pend);
        int oid = ident_oid(v, th);
        if (v.pend_oid >= 0 && oid != v.pend_oid) viol(C06 | C11, "exception-mixed", "the pending exception of thread %d is another object (%d) than the one thrown or seen before (%d)", t.id, oid, v.pend_oid);
        if (oid < 0 || W->o[oid].kind != KIND_THR || W->o[oid].token != tok) { oid = new_obj(v, vm, th, KIND_THR); W->o[oid].token = tok; } else v.fr.back().l.push_back({th, oid});
    }
    sut([&] { v.env->ExceptionDescribe(); });
    sut([&] { v.env->ExceptionClear(); });
    v.pend = -1; v.pend_oid = -1;
    sut([&] { p = v.env->ExceptionCheck(); });
    if (p) viol(C06 | C11, "exception-stays", "ExceptionClear does not clear the pending exception");
}
static void after_op(PT& t, int vm) {      // the state every JNI call must leave behind
    VT& v = t.v[vm];
    if (!v.att) return;
    if (v.pend >= 0 && !v.pend_unc && !oomed()) { jboolean p = 0; rt::NoFault nf; sut([&] { p = v.env->ExceptionCheck(); }); if (!p) viol(C06 | C11, "exception-lost", "the pending exception %d of thread %d disappeared before it was cleared", v.pend, t.id); return; }
    if (oomed()) { jboolean p = 0; rt::NoFault nf; sut([&] { p = v.env->ExceptionCheck(); }); if (p && v.pend < 0) probe(PR_OOM_PENDING); if (p || v.pend >= 0) v.pend_unc = true; return; }
    if (v.pend < 0 && !v.pend_unc) {
        jboolean p = 0; rt::NoFault nf; sut([&] { p = v.env->ExceptionCheck(); });
        if (p) viol(C06 | C11, "exception-appeared", "an exception is pending on thread %d after an operation that throws nothing", t.id);
    }
}

// ---------------------------------------------------------------- callbacks
static void exec_op(PT& t, size_t at);
static void run_children(PT& t, size_t at) {   // ops following at with larger depth
    size_t i = at + 1; int d = t.ops[at].depth;
    rt::OpCtx c = rt::op_save();
    size_t savepc = t.pc;
    while (i < t.ops.size() && t.ops[i].depth > d) {
        if (t.ops[i].depth == d + 1) {
            rt::op_restore(c);
            rt::op_point();
            t.pc = i;
            exec_op(t, i);
        }
        i++;
    }
    t.pc = savepc;
    rt::op_restore(c);
    rt::yield_point();
}
static bool has_children(PT& t, size_t at) { return at + 1 < t.ops.size() && t.ops[at + 1].depth > t.ops[at].depth; }
void h_enter(int key, int tok, bool argsok, int recv, JNIEnv* env) {
    auto it = W->calls.find(tok);
    if (it == W->calls.end() || !it->second.armed) viol(C10, "stray-callback", "a callback (key %d) ran with the token %d of no call in progress", key, tok);
    Call& c = it->second;
    if (c.tid != rt::ptid()) viol(C10 | C06, "callback-thread", "the callback of call %d runs on thread %d instead of %d", tok, rt::ptid(), c.tid);
    c.count++;
    if (c.count > 1) viol(C10, "callback-twice", "the callback of call %d ran %d times", tok, c.count);
    if (!c.keys.count(key)) viol(C10 | C22 | C09, "wrong-implementation", "call %d (%s) ran implementation %d", tok, c.tag.c_str(), key);
    if (!argsok) viol(C10, "wrong-arguments", "call %d (%s) delivered wrong arguments", tok, c.tag.c_str());
    if (recv != -2 && c.recv != -3 && recv != c.recv) viol(C10, "wrong-receiver", "call %d (%s) ran on object %d instead of %d", tok, c.tag.c_str(), recv, c.recv);
    if (env && env != c.env) viol(C05 | C06 | C10, "wrong-env", "call %d (%s) was given the JNIEnv of another thread or VM", tok, c.tag.c_str());
    rt::hash_mix(0xca110000ull + tok * 64 + key);
    PT& t = me();
    size_t at = c.op;
    if (has_children(t, at)) { rt::count(rt::C_F_REENTER_CB); probe(PR_NESTED_CALL); }
    bool thr = c.do_throw; int vm = c.vm;
    // the call has resolved its references: from here on they may be deleted, and the objects must live on until it returns
    for (auto& h : c.hold) { if (h && (h->r.slot || h->r.wslot)) { h->drop(); probe(PR_CALL_UNHELD); } h = nullptr; }
    t.inh++;
    run_children(t, at);
    t.inh--;
    if (recv >= 0 && !W->o[recv].alive) viol(C10 | C01 | C03, "dead-argument", "object %d, which call %d (its implementation still running) was given, has been destroyed", recv, tok);
    if (thr) {
        rt::count(rt::C_F_CBTHROW); probe(PR_THROW_CB);
        t.v[vm].pend = tok; t.v[vm].pend_oid = -1; t.v[vm].pend_unc = false;
        rt::sut_set(0);
        sim_throw(tok, tok % 3);
    }
}

// getters and setters of hooked properties: f is the property, and the access must be the one in progress
bool h_iscls(int tok, const void* obj) { auto it = W->calls.find(tok); return it != W->calls.end() && it->second.self == obj; }
void h_access(int f, bool set, int oid) {
    PT& t = me(); Acc* a = t.acc;
    if (!a) return;
    if (a->f != f || a->set != set) viol(C10 | C22, "wrong-implementation", "%s property %d ran the %s of property %d", a->set ? "storing" : "reading", a->f, set ? "setter" : "getter", f);
    if (oid != -2 && oid != a->oid) viol(C10 | C19, "wrong-receiver", "an accessor ran on object %d instead of %d", oid, a->oid);
    if (++a->n > 1) viol(C10, "callback-twice", "the accessor of property %d ran %d times for one access", f, a->n);
    rt::hash_mix(0xacce5500ull + f * 2 + set); probe(PR_ACCESSOR);
    for (auto& h : a->hold) { if (h && (h->r.slot || h->r.wslot)) { h->drop(); probe(PR_CALL_UNHELD); } h = nullptr; }
    if (a->kids && has_children(t, a->at)) { rt::count(rt::C_F_REENTER_CB); t.acc = nullptr; t.inh++; run_children(t, a->at); t.inh--; t.acc = a; }
    if (oid >= 0 && !W->o[oid].alive) viol(C10 | C01 | C03, "dead-argument", "object %d, one of whose accessors is running, has been destroyed", oid);
    if (a->thr) {
        rt::count(rt::C_F_CBTHROW); probe(PR_ACCESSOR_THROW);
        a->thrown = true; t.v[a->vm].pend = a->tok; t.v[a->vm].pend_oid = -1; t.v[a->vm].pend_unc = false;
        rt::sut_set(0);
        sim_throw(a->tok, a->tok % 3);
    }
    if (f == 1 && set) W->o[oid].f_gref = -1;   // the setter function drops the old value now
}
// an access that must run an accessor exactly once
template<class F> static bool access(PT& t, int vm, size_t at, const Op& o, int f, bool set, int oid, bool kids, Acc& a, F&& fn, RefHold* h0 = nullptr, RefHold* h1 = nullptr) {
    a = Acc(); if (W->c.faults.empty()) { a.hold[0] = h0; a.hold[1] = h1; } a.f = f; a.set = set; a.oid = oid; a.vm = vm; a.at = at; a.kids = kids; a.tok = 40000 + o.uid; a.thr = (o.c >> 20) % 4 == 0 && (o.b & 0x400);
    t.acc = &a;
    bool ok = sut(fn);
    t.acc = nullptr;
    if (ok && !oomed() && a.n != 1) viol(C10 | C11 | C22, "callback-missing", "the accessor of property %d ran %d times for one access", f, a.n);
    if (a.thrown && !ok) { t.v[vm].pend = -1; t.v[vm].pend_unc = true; }
    return ok;
}

// ---------------------------------------------------------------- destructor re-entrancy
static void mini_ops(int oid) {
    PT& t = me();
    int vm = W->o[oid].vm;
    VT& v = t.v[vm];
    uint32_t r = (oid * 2654435761u) >> 7;
    if (!v.att) {
        return;
    }
    rt::NoFault nf;
    probe(PR_DTOR_REENTER); rt::count(rt::C_F_REENTER_DTOR);
    VmS& vs = W->vm[vm];
    if (v.detaching) {
        // user code that needs an environment while its thread is being detached
        if (W->c.cfg.world != WORLD_JNIVM) return;
        JNIEnv* e = nullptr;
        sut([&] { vs.vm->AttachCurrentThread(&e, nullptr); e->FindClass("sim/A"); vs.vm->DetachCurrentThread(); });
        return;
    }
    JNIEnv* e = v.env;
    switch (r % 6) {
    case 0: sut([&] { jclass c = e->FindClass("sim/u/X0"); e->DeleteLocalRef(c); }); break;
    case 1: sut([&] { e->PushLocalFrame(4); e->FindClass("sim/A"); e->PopLocalFrame(nullptr); }); break;
    case 2: sut([&] { jobject g = e->NewGlobalRef(vs.clsref[CI_A]); e->DeleteGlobalRef(g); }); break;
    case 3: sut([&] { jobject l = e->NewLocalRef(vs.clsref[CI_S]); e->DeleteLocalRef(l); }); break;
    case 4: sut([&] { e->PushLocalFrame(0); e->PushLocalFrame(2); e->NewStringUTF("dtor"); e->PopLocalFrame(nullptr); e->PopLocalFrame(nullptr); }); break;
    case 5: sut([&] { jobject w = e->NewWeakGlobalRef(vs.clsref[CI_B]); e->DeleteWeakGlobalRef((jweak)w); jstring s = e->NewStringUTF("x"); e->DeleteLocalRef(s); }); break;
    }
}

// ---------------------------------------------------------------- operations
static jclass clsref(int vm, int ci) { return (jclass)W->vm[vm].clsref[ci]; }
static void saw_class(int vm, int ci, const void* p, bool was_known, const void* before, uint32_t mask) {
    VmS& vs = W->vm[vm];
    if (!p) {
        if (before) viol(mask, "class-vanished", "looking up class %s finds nothing although it was found before", CLSN[ci]);
        if (was_known) viol(mask, "class-missing", "looking up the registered class %s finds nothing", CLSN[ci]);
        return;
    }
    if (vs.cls[ci] && vs.cls[ci] != p) viol(mask, "class-duplicated", "looking up class %s returns different class objects", CLSN[ci]);
    for (int i = 0; i < NCLS; i++) if (i != ci && vs.cls[i] == p) viol(mask, "class-mixed", "classes %s and %s are the same class object", CLSN[ci], CLSN[i]);
    vs.cls[ci] = p;
}
static void note_decl(VmS& vs, const char* sig) {   // an undefined member was recorded: the classes of its signature are known from now on
    for (const char* p = sig; (p = strchr(p, 'L')); ) { const char* q = strchr(p, ';'); if (!q) break; vs.decl.insert(std::string(p + 1, q)); p = q; }
}
static void* saw_id(VmS& vs, const std::string& key, void* id, bool must, bool before, uint32_t mask) {
    MidEnt& m = vs.ids[key];
    if (!id) {
        if (before) viol(mask, "id-vanished", "the lookup of %s fails although it succeeded before", key.c_str());
        if (must) viol(mask, "id-missing", "the lookup of the registered member %s fails", key.c_str());
        return nullptr;
    }
    if (m.known && m.id != id) viol(mask, "id-changed", "two lookups of %s return different IDs", key.c_str());
    if (!m.known) for (auto& o : vs.ids) if (o.second.known && o.second.id == id && o.first.substr(o.first.find('|')) != key.substr(key.find('|')))
        viol(mask, "id-mixed", "lookups of %s and %s return the same ID", key.c_str(), o.first.c_str());
    m.known = true; m.id = id; rt::edge_release(m.e);
    return id;
}
static bool ct_known(int vm, const Callable& c) {   // registered, so a lookup must succeed
    int i = &c - CT;
    if (i >= CT_DYN && i < CT_DYN + 8) return W->vm[vm].dyn[i - CT_DYN] == 2 || W->vm[vm].dyn[i - CT_DYN] == 4;
    if (i >= CT_REG && i < CT_REG + 8) return W->vm[vm].reg[(i - CT_REG) % 4] == 2;
    if ((i >= CT_FFUN && i <= CT_GFUN) || i >= CT_FJ) return W->c.cfg.world != WORLD_JNIVM;
    return true;
}
static std::string mkey(const char* cls, const Callable& c) { return std::string(cls) + "|" + (c.stat ? "static " : "") + c.name + c.sig; }
static jmethodID lookup_mid(VT& v, int vm, const Callable& c, jclass cl, const char* clsname, bool cached) {
    VmS& vs = W->vm[vm];
    std::string key = mkey(clsname, c);
    MidEnt& m = vs.ids[key];
    if (cached && m.known) { rt::edge_acquire(m.e); return (jmethodID)m.id; }
    bool before = m.known, must = ct_known(vm, c); int dy = &c - CT - CT_DYN, st = dy == 6 || dy == 7 ? vs.dyn[dy] : -1;
    jmethodID id = nullptr;
    if (!sut([&] { id = c.stat ? v.env->GetStaticMethodID(cl, c.name, c.sig) : v.env->GetMethodID(cl, c.name, c.sig); })) return nullptr;
    if (oomed()) { if (!id) return nullptr; }
    if (st == 0 && W->c.cfg.world == WORLD_BARON) {   // denied, and found only once the program defines it
        probe(PR_DENIED); rt::count(rt::C_F_DENY);
        if (id && vs.dyn[dy] == 0) viol(C17, "denied-method", "the denied method %s was found before the program defined it", key.c_str());
    }
    return (jmethodID)saw_id(vs, key, id, must, before, C08 | C22 | C21);
}

static void put(jvalue& v, jlong x) { v.j = x; }
static void put(jvalue& v, jdouble x) { v.d = x; }
static void put(jvalue& v, jint x) { v.i = x; }
static void put(jvalue& v, jfloat x) { v.f = x; }
static void put(jvalue& v, jchar x) { v.c = x; }
template<size_t... I> static bool call_huge(jvalue& ret, JNIEnv* e, int kk, int form, jobject r, jclass cl, jmethodID m, jvalue* a, int tok, std::index_sequence<I...>) {
    a[0].i = tok; (put(a[I + 1], HugeArg<I>::v(tok)), ...);
    return sut([&] { ret.d = call_Double(e, kk, form, r, cl, m, a, (jint)tok, HugeArg<I>::v(tok)...); });
}
static void do_call(PT& t, int vm, size_t at, const Op& o) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm];
    int ix = ct_index(o.a);
    const Callable* c = &CT[ix];
    if (ix >= CT_DYN && ix < CT_DYN + 8) { if (vs.dyn[ix - CT_DYN] != 2) return; rt::edge_acquire(vs.dyn_e[ix - CT_DYN]); probe(PR_LATE_HOOK_CALL); }
    struct DynUse { VmS* v; int k; ~DynUse() { if (k >= 0) { W->vm[v - W->vm].dynbusy[k]--; rt::edge_release(v->dyn_use[k]); } } } du{&vs, ix >= CT_DYN && ix < CT_DYN + 8 ? ix - CT_DYN : -1}; if (du.k >= 0) vs.dynbusy[du.k]++;
    int late = ix >= CT_REG && ix < CT_REG + 8 ? (ix - CT_REG) % 4 : -1;
    if (late >= 0) { if (vs.reg[late] != 2) return; rt::edge_acquire(vs.reg_e[late]); probe(PR_LATE_TYPE_CALL); }
    int tok = o.uid;
    int form = call_form(o.b); bool nonvirt = (o.b / 3) % 3 == 0 && !c->stat; bool thr = (o.b / 16) % 4 == 0 && (o.b >> 31); bool fresh = (o.b / 64) % 2;
    Ref recv, p1; 
    if (!c->stat) {
        uint32_t kinds = 0;
        for (int k = KIND_A; k < KIND_PROBE_END; k++) if (c->ci == CI_IFACE || c->ci == CI_IFP ? k == KIND_D : kind_isa(k, ci_kind(c->ci))) kinds |= 1u << k;
        recv = pick(t, vm, o.c, kinds);
        if (!recv.r) return;
    }
    RefHold h0(recv);
    if (c->ak == AK_OBJ || c->ak == AK_OBJI) { p1 = c->ak == AK_OBJI ? pick_val(t, vm, o.c / 7, M_PROBE, o.a >> 8, true) : pick(t, vm, o.c / 7, M_PROBE); if (c->ak == AK_OBJ && !p1.r) return; }
    if (c->ak == AK_SAME) { p1 = pick_val(t, vm, o.c / 7, c->key <= K_MIX + 5 || c->key == K_MIX + 11 ? M_ANY : c->key == K_MIX + 9 ? 1u << KIND_THR : c->key >= K_MIX + 30 ? 1u << KIND_G : M_PROBE, o.a >> 8, true); if (c->key == K_MIX + 9 && !p1.r) return; }
    bool nullref = c->key == K_MIX + 8 && (!p1.r || p1.dead);   // null for a reference parameter: refused with an exception
    if (c->ak == AK_OARR) {
        VT& v2 = t.v[vm]; std::vector<Ref> l; int k = KIND_A + ix - CT_OARR;
        auto fit = [&](int oid) { Obj& x = W->o[oid]; int ek = x.eci == CI_A || x.eci == CI_B || x.eci == CI_C || x.eci == CI_D ? ci_kind(x.eci) : 0; return x.kind == KIND_ARR && ek && kind_isa(ek, k); };
        for (auto& f : v2.fr) for (auto& y : f.l) if (fit(y.oid)) { Ref x; x.r = y.ref; x.oid = y.oid; l.push_back(x); }
        for (auto& sl : vs.g) if (sl.st == 2 && fit(sl.oid)) { Ref x; x.r = sl.ref; x.oid = sl.oid; x.slot = &sl; l.push_back(x); }
        if (l.empty()) return;
        p1 = l[(o.c / 7) % l.size()];
        if (!lease(W->o[p1.oid])) return;
    }
    RefHold h1(p1);
    struct Unl { int oid; ~Unl() { if (oid >= 0) unlease(oid); } } unl{c->ak == AK_OARR ? p1.oid : -1};
    jobject js = nullptr; jintArray ja = nullptr;
    if (c->ak == AK_STR) {
        char b[32]; snprintf(b, sizeof b, "tok%d", tok);
        if (!sut([&] { js = v.env->NewStringUTF(b); })) return;
        if (!js) return;
        int id = new_obj(v, vm, js, KIND_STR); W->o[id].text = b;
    }
    if (c->ak == AK_ARR) {
        jint d[3] = {rvI(tok), rvI(7), rvI(tok + 1)};
        if (!sut([&] { ja = v.env->NewIntArray(3); })) return;
        if (!ja) return;
        int id = new_obj(v, vm, ja, KIND_PARR); W->o[id].ptype = RT_I; W->o[id].pdata.assign(3, 0);
        W->o[id].lease = t.id;   // nobody else uses it before the call
        if (!sut([&] { v.env->SetIntArrayRegion(ja, 0, 3, d); })) return;
        W->o[id].pdata = {tok, 7, tok + 1};
    }
    jclass cl = clsref(vm, c->ci);
    int ci = c->ci, kr = c->stat ? 0 : W->o[recv.oid].kind;
    // the ID may come from a class between the one that declares the member and that of the receiver
    if (!c->stat && late < 0 && (o.b / 128) % 3 == 0) { int k = kr; if ((o.b / 384) % 2 && parent_kind(k) && kind_isa(parent_kind(k), ci_kind(c->ci))) k = parent_kind(k); ci = kind_ci(k); cl = clsref(vm, ci); }
    if (!cl) { if (!sut([&] { cl = v.env->FindClass(CLSN[ci]); }) || !cl) return; }
    jmethodID m = lookup_mid(v, vm, *c, cl, CLSN[ci], !fresh);
    if (nonvirt && ci == c->ci && late < 0 && (o.b / 1024) % 3 == 0) { ci = kind_ci(kr); cl = clsref(vm, ci); if (!cl && (!sut([&] { cl = v.env->FindClass(CLSN[ci]); }) || !cl)) return; }
    if (!m) { if (!oomed()) return; return; }
    // expected implementation
    Call& k = W->calls[tok];
    k = Call(); k.armed = true; k.tid = t.id; k.vm = vm; k.env = v.env; k.op = at; k.do_throw = thr; k.tag = mkey(c->cls, *c); k.recv = c->stat ? -1 : recv.oid;
    int key = impl_key(*c, nonvirt ? ci_kind(ci) : kr);
    // documented: a C++ member function pointer cannot be called non-virtually, such a call fails with an exception
    bool memfn = nonvirt && (!strcmp(c->name, "mfun") || !strcmp(c->name, "isamep") || key == K_VFUN_A || !strcmp(c->name, "ffun") || !strcmp(c->name, "gfun") || key == K_MIX + 26 || key == K_MIX + 27 || key == K_MIX + 31);
    if (nonvirt) probe(PR_NONVIRT);
    if (key != c->key) probe(PR_VIRT_OVERRIDE);
    if (du.k >= 0) key = c->key + 8 * vs.dynvar[du.k];
    k.keys.insert(key);
    if (c->ak == AK_OBJ) k.recv = p1.oid;
    if (c->ak == AK_OBJI) k.recv = p1.oid;   // reported object is the parameter
    if (c->ak == AK_STR || c->ak == AK_ARR) k.recv = -1;
    if (c->ak == AK_OARR) { auto& el = W->o[p1.oid].elems; k.recv = el.empty() ? -1 : el.back(); }
    if (c->key != K_MIX + 11) { k.hold[0] = &h0; k.hold[1] = &h1; }   // raw references stay in use
    jvalue a[25]; memset(a, 0, sizeof a);
    jobject pr = p1.r;
    jclass ca = clsref(vm, o.c % 2 ? CI_S : CI_B); if (c->ak == AK_SAMEC) pr = o.c % 3 ? (jobject)ca : nullptr; if (c->ak == AK_MIX || c->ak == AK_SAMEC) k.self = vs.cls[o.c % 2 ? CI_S : CI_B];
    if (c->stat && c->key >= K_MIX + 13) k.self = vs.cls[c->ci];
    jvalue ret; memset(&ret, 0, sizeof ret);
    int kk = c->stat ? 0 : nonvirt ? 2 : 1;
    probe(PR_CALL_FORM0 + form % 3);
    JNIEnv* e = v.env; jobject r = recv.r;
    if (!c->stat) soft(v, recv.oid);
    if (p1.oid >= 0) soft(v, p1.oid);
    bool ok = true, found = true; int thrown = -1;
    // the same from C++
    int shape = c->ak == AK_8 ? 0 : c->ak == AK_IJ ? 1 : c->ak == AK_I ? 2 : c->ak == AK_J ? 3 : c->ak == AK_OBJ ? 4 : c->ak == AK_OBJI ? 5 : c->ak == AK_IZ ? 6 : c->ak == AK_STR ? 7 : c->ak == AK_ARR ? 8 : c->ak != AK_SAME ? -1 : c->key <= K_MIX + 5 || c->key == K_MIX + 9 ? 9 : c->key <= K_MIX + 7 ? 10 : -1;
    bool cpp = shape >= 0 && W->c.cfg.world && (o.b >> 12) % 4 == 0 && !nonvirt && v.pend < 0 && !v.pend_unc && W->c.profile != "C26";
    if (cpp) {
        probe(PR_CPP_CALL); size_t had = W->o.size(); jobject arg = c->ak == AK_STR ? js : c->ak == AK_ARR ? (jobject)ja : pr; const char *cn = c->name, *cs = c->sig;
        if (js || ja) { jobject x = js ? js : (jobject)ja; for (auto& l : v.fr.back().l) if (l.ref == x) { soft(v, l.oid); break; } }
        ok = sut([&] { thrown = br_cpp_call(e, cl, r, cn, cs, shape, c->rt, tok, arg, &found, &ret); });
        if (c->rt == RT_L && (thrown >= 0 || !ok)) for (size_t i = had; i < W->o.size(); i++) soft(v, i);   // a stand-in result that the exception kept from the caller
        if (ok && !oomed() && !found) viol(C10 | C08, "method-missing", "the method of call %d (%s) was not found from C++", tok, k.tag.c_str());
        if (ok && !oomed() && !v.pend_unc && thrown != v.pend) viol(C10 | C11, "cpp-exception", "call %d (%s) from C++ reported exception %d instead of %d", tok, k.tag.c_str(), thrown, v.pend);
    } else switch (c->ak) {
    case AK_8:
        a[0].i = tok; a[1].j = tj(tok); a[2].d = td(tok); a[3].z = tz(tok); a[4].b = tb(tok); a[5].c = tc(tok); a[6].s = ts(tok); a[7].f = tf(tok);
        ok = sut([&] { call_any(ret, c->rt, e, kk, form, r, cl, m, a, (jint)tok, tj(tok), td(tok), tz(tok), tb(tok), tc(tok), ts(tok), tf(tok)); }); break;
    case AK_IJ: a[0].i = tok; a[1].j = tj(tok); ok = sut([&] { call_any(ret, c->rt, e, kk, form, r, cl, m, a, (jint)tok, tj(tok)); }); break;
    case AK_I: a[0].i = tok; ok = sut([&] { call_any(ret, c->rt, e, kk, form, r, cl, m, a, (jint)tok); }); break;
    case AK_J: a[0].j = tok; ok = sut([&] { call_any(ret, c->rt, e, kk, form, r, cl, m, a, (jlong)tok); }); break;
    case AK_OBJ: a[0].i = tok; a[1].l = pr; a[2].f = tf(tok); a[3].l = pr; ok = sut([&] { call_any(ret, c->rt, e, kk, form, r, cl, m, a, (jint)tok, pr, tf(tok), pr); }); break;
    case AK_OBJI: a[0].j = tj(tok); a[1].l = pr; a[2].i = tok; ok = sut([&] { call_any(ret, c->rt, e, kk, form, r, cl, m, a, tj(tok), pr, (jint)tok); }); break;
    case AK_SAME: case AK_SAMEC: a[0].l = pr; a[1].i = tok; ok = sut([&] { call_any(ret, c->rt, e, kk, form, r, cl, m, a, pr, (jint)tok); }); break;
    case AK_MIX: a[1].i = tok; a[2].l = ca; a[3].d = td(tok); a[5].j = tj(tok); a[7].f = tf(tok);
        ok = sut([&] { call_any(ret, c->rt, e, kk, form, r, cl, m, a, (jobject)nullptr, (jint)tok, ca, td(tok), (jobject)nullptr, tj(tok), (jobject)nullptr, tf(tok)); }); break;
    case AK_BIG:
        a[0].i = tok; a[1].j = tj(tok); a[2].d = td(tok); a[3].f = tf(tok); a[4].z = tz(tok); a[5].j = tj(tok + 2); a[6].j = tj(tok + 3); a[7].d = td(tok + 2); a[8].d = td(tok + 3); a[9].i = ti(tok + 2); a[10].b = tb(tok); a[11].j = tj(tok + 4); a[12].d = td(tok + 4); a[13].f = tf(tok + 2);
        a[14].c = tc(tok); a[15].j = tj(tok + 5); a[16].d = td(tok + 5); a[17].d = td(tok + 6); a[18].s = ts(tok); a[19].j = tj(tok + 6); a[20].d = td(tok + 7); a[21].i = ti(tok + 3); a[22].j = tj(tok + 7); a[23].d = td(tok + 8); a[24].f = tf(tok + 3);
        ok = sut([&] { call_any(ret, c->rt, e, kk, form, r, cl, m, a, (jint)tok, tj(tok), td(tok), tf(tok), tz(tok), tj(tok + 2), tj(tok + 3), td(tok + 2), td(tok + 3), ti(tok + 2), tb(tok), tj(tok + 4), td(tok + 4), tf(tok + 2), tc(tok), tj(tok + 5), td(tok + 5), td(tok + 6), ts(tok), tj(tok + 6), td(tok + 7), ti(tok + 3), tj(tok + 7), td(tok + 8), tf(tok + 3)); }); break;
    case AK_HUGE: {
        jvalue hv[NHUGE + 1]; ok = call_huge(ret, e, kk, form, r, cl, m, hv, tok, std::make_index_sequence<NHUGE>()); break; }
    case AK_IZ: a[0].i = tok; a[1].z = tz(tok); ok = sut([&] { call_any(ret, c->rt, e, kk, form, r, cl, m, a, (jint)tok, (jboolean)tz(tok)); }); break;
    case AK_STR: a[0].i = tok; a[1].l = js; a[2].l = js; ok = sut([&] { call_any(ret, c->rt, e, kk, form, r, cl, m, a, (jint)tok, js, js); }); break;
    case AK_OARR: a[0].i = tok; a[1].l = pr; ok = sut([&] { call_any(ret, c->rt, e, kk, form, r, cl, m, a, (jint)tok, pr); }); break;
    case AK_ARR: a[0].l = ja; a[1].i = tok; ok = sut([&] { call_any(ret, c->rt, e, kk, form, r, cl, m, a, ja, (jint)tok); }); break;
    }
    Call& q = W->calls[tok];
    q.armed = false;
    if (ja) for (auto& x : W->o) if (x.lease == t.id && x.kind == KIND_PARR) x.lease = -1;
    for (auto& h : q.hold) h = nullptr;
    if (memfn || nullref) {
        if (c->rt == RT_L && ret.l) { Ident rid = br_ident(v.env, ret.l); if (rid.oid >= 0) add_local(v, ret.l, rid.oid, C10); else new_obj(v, vm, ret.l, KIND_THR + 10); }   // a stand-in
        if (q.count) viol(C10, "callback-unexpected", "the call %d (%s), which cannot be carried out, ran an implementation", tok, q.tag.c_str());
        if (nullref) probe(PR_NULL_REFUSED);
        if (ok && !oomed()) {
            jboolean p = 0; sut([&] { p = v.env->ExceptionCheck(); v.env->ExceptionClear(); });
            if (!p && !oomed()) viol(C10 | C11, "exception-not-pending", "the unsupported call %d (%s) reports no exception", tok, q.tag.c_str());
        } else if (!sut([&] { v.env->ExceptionClear(); })) v.pend_unc = true;
        v.pend = -1;
        return;
    }
    if (!oomed() && q.count != 1) viol(C10 | C11 | C22 | C08, "callback-missing", "call %d (%s) returned but its implementation ran %d times", tok, q.tag.c_str(), q.count);
    if (!ok) { if (v.pend == tok) { v.pend = -1; v.pend_unc = true; } return; }   // out of memory while the exception was recorded
    bool threw = (thr && q.count == 1) || thrown >= 0;
    if (c->rt == RT_L) {
        bool raw = c->key == K_MIX + 11 && !threw && !oomed();
        Ident rid{nullptr, -1}; if (ret.l && !raw) rid = br_ident(v.env, ret.l);
        int ro = rid.oid; const void* same = rid.obj;
        if (raw && ret.l != pr) viol(C10 | C01, "wrong-result", "call %d (%s) did not return the reference it was given", tok, q.tag.c_str());
        if (raw) ro = p1.oid, ret.l = nullptr;   // not a new reference
        if (ret.l && c->ak == AK_SAME && ro < 0 && !threw && W->byptr.count(same) && W->o[W->byptr[same]].alive) { ro = W->byptr[same]; v.fr.back().l.push_back({ret.l, ro}); }
        else if (ret.l && c->ak == AK_SAMEC && !threw) { jobject x = ret.l; if (!sut([&] { e->DeleteLocalRef(x); })) return; }
        else if (ret.l) {
            if (ro < 0) ro = new_obj(v, vm, ret.l, c->ak == AK_STR ? KIND_STR : KIND_THR + 10);
            else if (ro >= 0) add_local(v, ret.l, ro, C10);
        }
        if (!threw && !oomed()) {
            if (c->ak == AK_8 && ro != q.ret_oid) viol(C10 | C01, "wrong-result", "call %d (%s) returned object %d instead of %d", tok, q.tag.c_str(), ro, q.ret_oid);
            if (c->ak == AK_OBJ && ro != p1.oid) viol(C10 | C01, "wrong-result", "call %d (%s) returned object %d instead of its argument %d", tok, q.tag.c_str(), ro, p1.oid);
            if (c->ak == AK_OBJI && ro != recv.oid) viol(C10 | C01, "wrong-result", "call %d (%s) returned object %d instead of the receiver %d", tok, q.tag.c_str(), ro, recv.oid);
            if (c->ak == AK_SAMEC && same != (pr ? q.self : nullptr)) viol(C10 | C01, "wrong-result", "call %d (%s) did not return its argument", tok, q.tag.c_str());
            if (c->ak == AK_SAME && !raw) { bool some = p1.r && !p1.dead; int po = some ? p1.oid : -1; if (ro != po) viol(C10 | C01, "wrong-result", "call %d (%s) returned object %d instead of its argument %d", tok, q.tag.c_str(), ro, po); }
            if (c->ak == AK_STR) { if (!ret.l) viol(C10, "wrong-result", "call %d (%s) returned no string", tok, q.tag.c_str()); W->o[ro].kind = KIND_STR; W->o[ro].text = "ret" + std::to_string(tok); }
        }
    } else if (!threw && !oomed() && !ret_ok(c->rt, ret, tok)) viol(C10, "wrong-result", "call %d (%s) returned a wrong value", tok, q.tag.c_str());
    rt::hash_mix(ret.j);
    if (threw) {
        jboolean p = 0; sut([&] { p = v.env->ExceptionCheck(); });
        if (!p && !oomed()) viol(C11, "exception-not-pending", "the exception thrown by the callback of call %d is not pending after the call", tok);
    }
}
int h_call_ret(int tok, int* kind) { auto it = W->calls.find(tok); if (kind) *kind = it == W->calls.end() ? KIND_A : it->second.retkind; return 0; }
void h_call_retset(int tok, int oid) { auto it = W->calls.find(tok); if (it != W->calls.end()) it->second.ret_oid = oid; }

static void do_newobj(PT& t, int vm, size_t at, const Op& o) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm];
    int kind = o.a % 2 ? KIND_B : KIND_A; if (W->c.cfg.world && o.a / 2 % 3 == 0) kind = KIND_F;
    jclass cl = clsref(vm, kind_ci(kind)); if (!cl) { const char* n = CLSN[kind_ci(kind)]; if (!sut([&] { cl = v.env->FindClass(n); }) || !cl) return; }
    if (W->c.cfg.world && o.a / 8 % 6 == 0) {   // the constructor of a descriptor that takes nothing
        kind = o.a % 2 ? KIND_F : KIND_G; const char* n = CLSN[kind_ci(kind)]; JNIEnv* e = v.env; jmethodID m = nullptr; jobject r = nullptr; size_t had = W->o.size();
        std::string key = std::string(n) + "|static <init>()"; bool before = vs.ids[key].known;
        if (!sut([&] { cl = e->FindClass(n); }) || !cl || !sut([&] { m = e->GetMethodID(cl, "<init>", "()V"); }) || (oomed() && !m)) return;
        if (!saw_id(vs, key, m, true, before, C08 | C22 | C21)) return;
        if (!sut([&] { r = o.b % 2 ? e->NewObject(cl, m) : e->functions->NewObject(e, cl, m); })) return;
        int ro = r ? ident_oid(v, r) : -1; if (r && ro >= 0) add_local(v, r, ro, C10);
        if (!oomed() && (ro < (int)had || W->o[ro].kind != kind)) viol(C10 | C01, "wrong-result", "constructing a %s produced object %d", n, ro);
        return;
    }
    int tok = o.uid; int form = call_form(o.b); bool thr = (o.b / 16) % 4 == 0 && (o.b >> 31);
    std::string key = std::string(CLSN[kind_ci(kind)]) + "|static <init>(IJ)";
    MidEnt& me_ = vs.ids[key]; jmethodID m = nullptr;
    bool before = me_.known;
    if ((o.b / 64) % 2 && before) { rt::edge_acquire(me_.e); m = (jmethodID)me_.id; }
    else {
        if (!sut([&] { m = v.env->GetMethodID(cl, "<init>", "(IJ)V"); })) return;
        if (oomed() && !m) return;
        // distinct per class: <init> names carry the class
        MidEnt& x = vs.ids[key];
        if (!m) viol(C08, "id-missing", "the lookup of the constructor of %s fails", CLSN[kind_ci(kind)]);
        if (x.known && x.id != m) viol(C08, "id-changed", "two lookups of the constructor of %s return different IDs", CLSN[kind_ci(kind)]);
        x.known = true; x.id = m; rt::edge_release(x.e);
    }
    Call& k = W->calls[tok]; k = Call(); k.armed = true; k.tid = t.id; k.vm = vm; k.env = v.env; k.op = at; k.do_throw = thr; k.tag = key; k.recv = -1; k.retkind = kind; k.keys.insert(kind == KIND_F ? K_MIX + 32 : K_CTOR);
    jvalue a[2]; memset(a, 0, sizeof a); a[0].i = tok; a[1].j = tj(tok);
    jobject r = nullptr; JNIEnv* e = v.env;
    struct VF { static jobject f(JNIEnv* e, jclass c, jmethodID m, ...) { va_list ap; va_start(ap, m); struct G { va_list* a; ~G() { va_end(*a); } } g{&ap}; return e->NewObjectV(c, m, ap); } };
    bool ok = sut([&] { r = form == 0 ? e->NewObject(cl, m, (jint)tok, tj(tok)) : form == 3 ? e->functions->NewObject(e, cl, m, (jint)tok, tj(tok)) : form == 1 ? VF::f(e, cl, m, (jint)tok, tj(tok)) : e->NewObjectA(cl, m, a); });
    Call& q = W->calls[tok]; q.armed = false;
    if (!oomed() && q.count != 1) viol(C10 | C11, "callback-missing", "constructor call %d returned but the constructor ran %d times", tok, q.count);
    if (!ok) { if (v.pend == tok) { v.pend = -1; v.pend_unc = true; } return; }
    int ro = r ? ident_oid(v, r) : -1;
    if (r && ro >= 0) add_local(v, r, ro, C10);
    if (thr && q.count == 1) return;
    if (!oomed() && ro != q.ret_oid) viol(C10 | C01, "wrong-result", "constructor call %d returned object %d instead of %d", tok, ro, q.ret_oid);
}

// reference field "fref" / "gref" ids and primitive fields
static const struct { const char* n; const char* sig; int rt; } PF[] = {{"fi", "I", RT_I}, {"fj", "J", RT_J}, {"fd", "D", RT_D}, {"ff", "F", RT_F}, {"fz", "Z", RT_Z}, {"fb", "B", RT_B}, {"fc", "C", RT_C}, {"fs", "S", RT_S}, {"gi", "I", RT_I}, {"gj", "J", RT_J}, {"gd", "D", RT_D}, {"ifi", "I", RT_I}, {"pfj", "J", RT_J}};
static const int NPF = 11, PFA[NPF + 2] = {0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 4};   // the last three run accessors; then those of the second base of D
static jfieldID lookup_fid(VT& v, int vm, int ci, const char* n, const char* sig, bool stat, bool cached, bool must) {
    VmS& vs = W->vm[vm];
    std::string key = std::string(CLSN[ci]) + "|" + (stat ? "static " : "") + n + ":" + sig;
    MidEnt& m = vs.ids[key];
    if (cached && m.known) { rt::edge_acquire(m.e); return (jfieldID)m.id; }
    bool before = m.known; jfieldID id = nullptr; jclass cl = clsref(vm, ci);
    if (!cl && (!sut([&] { cl = v.env->FindClass(CLSN[ci]); }) || !cl)) return nullptr;
    if (!sut([&] { id = stat ? v.env->GetStaticFieldID(cl, n, sig) : v.env->GetFieldID(cl, n, sig); })) return nullptr;
    if (oomed() && !id) return nullptr;
    return (jfieldID)saw_id(vs, key, id, must, before, C08 | C22 | C21);
}
#define FIELD_RW(N, T, fld, rv) \
    { T x = 0; if (wr) { T y = tv ? rv(tv) : 0; \
          if (acs ? !access(t, vm, at, o, PFA[i], true, rr.oid, true, ac, [&] { e->Set##N##Field(r, f, y); }) : !sut([&] { e->Set##N##Field(r, f, y); })) break; \
          if (acs && (ac.thrown || (oomed() && !ac.n))) break; W->o[rr.oid].prim[i] = tv; if (acs && has_children(t, at)) break; } \
      if (acs ? !access(t, vm, at, o, PFA[i], false, rr.oid, !wr, ac, [&] { x = e->Get##N##Field(r, f); }, wr ? nullptr : &h) : !sut([&] { x = e->Get##N##Field(r, f); })) break; \
      if (acs && ac.thrown) break; \
      int mv = W->o[rr.oid].prim[i]; T want = mv ? rv(mv) : 0; \
      if (!oomed() && x != want) viol(C10 | C18 | C19, "field-value", "field %s of object %d does not hold the value last stored", PF[i].n, rr.oid); }
// fields that FakeJni descriptors declare
static void do_ffield(PT& t, int vm, const Op& o, bool st) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; JNIEnv* e = v.env; Ref rr; bool wr = o.b & 0x100; int tv = 1 + o.c % 1000;
    if (!st) { rr = pick_val(t, vm, o.a, 1u << KIND_F | 1u << KIND_G, o.a >> 8, false); if (!rr.r) return; }
    RefHold h(rr);
    int ci = !st && W->o[rr.oid].kind == KIND_G && o.b & 0x400 ? CI_G : CI_F; jclass c = nullptr; const char* n = CLSN[ci];
    if (!sut([&] { c = e->FindClass(n); }) || !c) return;
    std::string key = std::string(n) + (st ? "|static fsfield:I" : "|ffield:I"); bool before = vs.ids[key].known; jfieldID f = nullptr;
    if (!sut([&] { f = st ? e->GetStaticFieldID(c, "fsfield", "I") : e->GetFieldID(c, "ffield", "I"); }) || (oomed() && !f)) return;
    if (!saw_id(vs, key, f, true, before, C08 | C22 | C21)) return;
    if (st ? vs.st_lease >= 0 : !lease(W->o[rr.oid])) return;
    if (st) { vs.st_lease = t.id; rt::edge_acquire(vs.st_edge); }
    jobject r = rr.r; jint x = 0; probe(PR_DESC_FIELD);
    if (wr && sut([&] { if (st) e->SetStaticIntField(c, f, rvI(tv)); else e->SetIntField(r, f, rvI(tv)); })) { if (st) vs.st_ff = tv; else W->o[rr.oid].ff = tv; }
    int want = st ? vs.st_ff : W->o[rr.oid].ff;
    if (sut([&] { x = st ? e->GetStaticIntField(c, f) : e->GetIntField(r, f); }) && !oomed() && x != (want ? rvI(want) : 0)) viol(C10 | C18 | C19, "field-value", "field %s does not hold the value last stored", key.c_str());
    if (st) { vs.st_lease = -1; rt::edge_release(vs.st_edge); } else unlease(rr.oid);
}
static void do_fprim(PT& t, int vm, size_t at, const Op& o) {
    VT& v = t.v[vm]; JNIEnv* e = v.env;
    if (W->c.cfg.world && (o.b >> 12) % 5 == 0) { do_ffield(t, vm, o, (o.b >> 15) % 2); return; }
    Ref rr = pick_val(t, vm, o.a, M_PROBE, o.a >> 8, false); if (!rr.r) return;
    RefHold h(rr);
    int i = o.b % NPF; bool wr = o.b & 0x100; int tv = 1 + o.c % 1000, kr = W->o[rr.oid].kind, ci = CI_A;
    if (kr == KIND_D && (o.b >> 17) % 3 == 0) { i = NPF + (o.b >> 19) % 2; ci = (o.b >> 20) % 3 == 0 ? CI_IFACE : (o.b >> 20) % 3 == 1 && i > NPF ? CI_IFP : CI_D; probe(PR_IFACE_FIELD); }   // through its second base
    else if (kr <= KIND_D && (o.b >> 17) % 3 == 1) { int k = kr; for (int s = (o.b >> 19) % 3; s && parent_kind(k); s--) k = parent_kind(k); ci = kind_ci(k); }   // the ID from a class between
    bool acs = i >= 8 && i < NPF;
    jfieldID f = lookup_fid(v, vm, ci, PF[i].n, PF[i].sig, false, o.b & 0x200, true);
    if (!f) return;
    if (!lease(W->o[rr.oid])) return;
    jobject r = rr.r; Acc ac;
    if (acs) soft(v, rr.oid);
    do {
        switch (PF[i].rt) {
        case RT_I: FIELD_RW(Int, jint, fi, rvI) break;
        case RT_J: FIELD_RW(Long, jlong, fj, rvJ) break;
        case RT_D: FIELD_RW(Double, jdouble, fd, rvD) break;
        case RT_F: FIELD_RW(Float, jfloat, ff, rvF) break;
        case RT_Z: FIELD_RW(Boolean, jboolean, fz, rvZ) break;
        case RT_B: FIELD_RW(Byte, jbyte, fb, rvB) break;
        case RT_C: FIELD_RW(Char, jchar, fc, rvC) break;
        case RT_S: FIELD_RW(Short, jshort, fs, rvS) break;
        }
    } while (0);
    unlease(rr.oid);
}
static void do_fobj(PT& t, int vm, size_t at, const Op& o) {
    VT& v = t.v[vm]; JNIEnv* e = v.env;
    Ref rr = pick_val(t, vm, o.a, M_PROBE, o.a >> 8, false); if (!rr.r) return;
    RefHold h(rr);
    int which = o.b % 3; bool wr = (o.b / 3) % 2, null = (o.b / 6) % 4 == 0;
    jfieldID f = lookup_fid(v, vm, CI_A, which == 0 ? "fref" : which == 1 ? "gref" : "fstr", which == 2 ? "Ljava/lang/String;" : "Lsim/A;", false, o.b & 0x200, true);
    if (!f) return;
    Ref val; if (wr && !null) { val = pick_val(t, vm, o.c, which == 2 ? 1u << KIND_STR : M_PROBE, o.c >> 8, true); if (!val.r) return; }
    RefHold h2(val);
    if (wr && which < 2 && val.oid >= 0 && closes_cycle(rr.oid, val.oid)) return;
    if (!lease(W->o[rr.oid])) return;
    if (wr && which < 2) tent.push_back({rr.oid, val.oid});
    soft(v, rr.oid);
    auto slotp = [&](int oid) -> int& { Obj& x = W->o[oid]; return which == 0 ? x.f_ref : which == 1 ? x.f_gref : x.f_str; };
    jobject r = rr.r, x = val.r; Acc ac;
    if (which == 1) soft(v, val.oid);
    if (wr) {
        int old = slotp(rr.oid);
        if (which != 1) slotp(rr.oid) = -1;   // a setter function stores after nested work
        bool ok = which == 1 ? access(t, vm, at, o, 1, true, rr.oid, true, ac, [&] { e->SetObjectField(r, f, x); }, &h, &h2) : sut([&] { e->SetObjectField(r, f, x); });
        if (ac.thrown) slotp(rr.oid) = old; else
        if (!ok || oomed()) {
            // either the old or the new value is stored
            if (old >= 0) W->o[old].uncertain = true;
            if (val.oid >= 0) W->o[val.oid].uncertain = true;
            int cur = -1; jobject g = nullptr;
            { rt::NoFault nf; if (sut([&] { g = e->GetObjectField(r, f); }) && g) { cur = ident_oid(v, g); if (cur >= 0) v.fr.back().l.push_back({g, cur}); } }
            if (cur != old && cur != val.oid) viol(C14 | C19, "field-value", "a failed store left object %d in a reference field, neither the old nor the new value", cur);
            slotp(rr.oid) = cur;
        } else slotp(rr.oid) = val.oid;
        if (which < 2) for (size_t i = 0; i < tent.size(); i++) if (tent[i].first == rr.oid) { tent.erase(tent.begin() + i); break; }
    } else {
        jobject g = nullptr;
        if (which == 1 ? access(t, vm, at, o, 1, false, rr.oid, true, ac, [&] { g = e->GetObjectField(r, f); }, &h) : sut([&] { g = e->GetObjectField(r, f); })) {
            int got = g ? ident_oid(v, g) : -1, want = slotp(rr.oid);
            if (g && got >= 0) add_local(v, g, got, C19);
            if (!oomed() && !ac.thrown && got != want) viol(C19 | C10, "field-value", "a reference field of object %d holds object %d, expected %d", rr.oid, got, want);
        }
    }
    unlease(rr.oid);
}
#define PRIM_CASES(X) X(RT_Z, Boolean, jboolean, rvZ) X(RT_B, Byte, jbyte, rvB) X(RT_C, Char, jchar, rvC) X(RT_S, Short, jshort, rvS) X(RT_I, Int, jint, rvI) X(RT_J, Long, jlong, rvJ) X(RT_F, Float, jfloat, rvF) X(RT_D, Double, jdouble, rvD)
static const char RTN[] = "VZBCSIJFDL";
static void do_sfield(PT& t, int vm, size_t at, const Op& o) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; JNIEnv* e = v.env;
    if (W->c.cfg.nvm > 1) return;    // the storage behind the hooks is one per process
    int which = o.b % 11; bool wr = (o.b / 16) % 2;
    static const char* const N[] = {"si", "sj", "so", "gsi", "sz", "sb", "sc", "ss", "sf", "sd", "gsd"}; static const char* const SG[] = {"I", "J", "Lsim/A;", "I", "Z", "B", "C", "S", "F", "D", "D"};
    jfieldID f = lookup_fid(v, vm, CI_S, N[which], SG[which], true, o.b & 0x200, true);
    if (!f) return;
    Ref val; if (which == 2 && wr && (o.b / 32) % 4) { val = pick_val(t, vm, o.c, M_PROBE, o.c >> 8, true); if (!val.r) return; }
    RefHold h2(val);
    if (vs.st_lease >= 0) return;
    vs.st_lease = t.id; rt::edge_acquire(vs.st_edge);
    jclass cl = clsref(vm, CI_S); jobject x = val.r; int tv = 1 + o.c % 1000;
    if (which == 2) {
        if (wr) {
            int old = vs.so_oid; vs.so_oid = -1;
            bool ok = sut([&] { e->SetStaticObjectField(cl, f, x); });
            if (!ok || oomed()) { if (old >= 0) W->o[old].uncertain = true; if (val.oid >= 0) W->o[val.oid].uncertain = true;
                jobject g = nullptr; rt::NoFault nf; int cur = -1; if (sut([&] { g = e->GetStaticObjectField(cl, f); }) && g) { cur = ident_oid(v, g); if (cur >= 0) v.fr.back().l.push_back({g, cur}); } vs.so_oid = cur; }
            else vs.so_oid = val.oid;
        } else {
            jobject g = nullptr;
            if (sut([&] { g = e->GetStaticObjectField(cl, f); })) {
                int got = g ? ident_oid(v, g) : -1;
                if (g && got >= 0) add_local(v, g, got, C19);
                if (!oomed() && got != vs.so_oid) viol(C19 | C10, "field-value", "a static reference field holds object %d, expected %d", got, vs.so_oid);
            }
        }
    } else {
        Acc ac; int ty = strchr(RTN, *SG[which]) - RTN, fa = which == 3 ? 2 : which == 10 ? 5 : -1;
        auto set = [&] { switch (ty) {
#define X(R, N, T, rv) case R: e->SetStatic##N##Field(cl, f, rv(tv)); break;
            PRIM_CASES(X)
#undef X
        } };
        if (wr) { if (fa >= 0 ? access(t, vm, at, o, fa, true, -2, true, ac, set) && !ac.thrown && !(oomed() && !ac.n) : sut(set)) vs.st_prim[which] = tv; }
        jvalue x; memset(&x, 0, sizeof x); int mv = vs.st_prim[which];
        auto get = [&] { switch (ty) {
#define X(R, N, T, rv) case R: *(T*)&x = e->GetStatic##N##Field(cl, f); break;
            PRIM_CASES(X)
#undef X
        } };
        if (!ac.thrown && (fa >= 0 ? access(t, vm, at, o, fa, false, -2, !wr, ac, get) : sut(get)) && !ac.thrown && !oomed()) {
            jvalue z; memset(&z, 0, sizeof z); if (mv ? !ret_ok(ty, x, mv) : memcmp(&x, &z, sizeof z) != 0) viol(C10 | C19, "field-value", "static field %s does not hold the value last stored", N[which]);
        }
    }
    vs.st_lease = -1; rt::edge_release(vs.st_edge);
}

// ---- primitive arrays
#define PARR_CASES(X) X(RT_Z, Boolean, jboolean, rvZ) X(RT_B, Byte, jbyte, rvB) X(RT_C, Char, jchar, rvC) X(RT_S, Short, jshort, rvS) X(RT_I, Int, jint, rvI) X(RT_J, Long, jlong, rvJ) X(RT_F, Float, jfloat, rvF) X(RT_D, Double, jdouble, rvD)
static int arr_len(uint32_t r) { return r / 6 % 8 ? r % 6 : r / 48 % 8 ? 7 + r / 384 % 40 : r / 384 % 4 ? 100 + r / 1536 % 200 : 300 + r / 1536 % 3000; }
static const char* const SG_P[] = {"V", "Z", "B", "C", "S", "I", "J", "F", "D"};
static void do_newparr(PT& t, int vm, const Op& o) {
    VT& v = t.v[vm]; JNIEnv* e = v.env; int n = arr_len(o.b); if (n > 6) probe(PR_BIG_DATA); jarray r = nullptr; int ty = RT_Z + o.a % 8; bool ok = false;
    bool cpp = o.c % 4 == 1; std::vector<int> vals(n); if (cpp) for (int i = 0; i < n; i++) vals[i] = 1 + (o.c / 64 + i * 7) % 5000;
    if (cpp) ok = sut([&] { r = (jarray)br_parr_make(e, *SG_P[ty], n, o.c / 4 % 4, vals.data()); });
    else switch (ty) {
#define X(R, N, T, rv) case R: ok = sut([&] { r = e->New##N##Array(n); }); break;
    PARR_CASES(X)
#undef X
    }
    if (!ok) return;
    if (!r) { if (!oomed()) viol(C18 | C10, "null-array", "a primitive array could not be created"); return; }
    int id = new_obj(v, vm, r, KIND_PARR); W->o[id].ptype = ty; W->o[id].pdata = vals; if (cpp) probe(PR_CPP_ARRAY);
    jsize len = -1; sut([&] { len = e->GetArrayLength(r); });
    if (!oomed() && len != n) viol(C18, "array-length", "a new array of length %d reports length %d", n, len);
}
static void do_parr(PT& t, int vm, const Op& o, bool wr) {
    VT& v = t.v[vm]; JNIEnv* e = v.env;
    Ref rr = pick(t, vm, o.a, 1u << KIND_PARR); if (!rr.r) return;
    RefHold h(rr);
    Obj& ob = W->o[rr.oid]; int n = ob.pdata.size(); if (!n || !lease(ob)) return;
    int st = o.b % (n + 1), ln = o.c % (n - st + 1); if (!ln && o.c % 8) { if (st == n) st--; ln = 1; } jarray r = (jarray)rr.r; int ty = ob.ptype; int base = 1 + o.c % 5000;
    switch (ty) {
#define X(R, N, T, rv) case R: { std::vector<T> bv(ln + 1); T* b = bv.data(); \
        if (wr) { for (int i = 0; i < ln; i++) b[i] = rv(base + i); if (sut([&] { e->Set##N##ArrayRegion((T##Array)r, st, ln, b); })) for (int i = 0; i < ln; i++) W->o[rr.oid].pdata[st + i] = base + i; } \
        else { memset(b, 0x5a, ln * sizeof *b); if (sut([&] { e->Get##N##ArrayRegion((T##Array)r, st, ln, b); })) for (int i = 0; i < ln; i++) { int mv = W->o[rr.oid].pdata[st + i]; T want = mv ? rv(mv) : 0; if (b[i] != want) viol(C18, "array-content", "element %d of array %d does not hold the value last stored", st + i, rr.oid); } } \
        break; }
    PARR_CASES(X)
#undef X
    }
    unlease(rr.oid);
}
static void put_unit(std::string& s, uint32_t c) {   // one UTF-16 unit in modified UTF-8
    if (c && c < 0x80) s += (char)c; else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); } else { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
}
static std::string mkstr(uint32_t r) {
    static const char* const parts[] = {"a", "Zz9", "\xc3\xa9", "\xe2\x82\xac", "hello world ", "0123456789abcdef0123456789abcdef"};
    std::string s;
    if (r % 8 == 7) {   // any units, those at the limits of an encoding length and surrogates more often
        static const uint16_t edge[] = {0, 1, 0x7f, 0x80, 0x81, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffe, 0xffff};
        uint64_t x = r * 0x9E3779B97F4A7C15ull + 1; auto nx = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (uint32_t)(x >> 20); };
        int n = r / 8 % 8 ? 1 + r / 64 % 12 : r / 64 % 4 ? 30 + r / 256 % 120 : 150 + r / 256 % 2500; if (n > 20) probe(PR_BIG_DATA);
        for (int i = 0; i < n; i++) put_unit(s, nx() % 3 ? nx() & (nx() % 2 ? 0x7ff : 0xffff) : edge[nx() % 18]);
        return s;
    }
    int n = r % 4; r /= 4; for (int i = 0; i < n; i++) { s += parts[r % 6]; r /= 6; } return s;
}
static std::vector<jchar> utf16(const std::string& s) {
    std::vector<jchar> o;
    for (size_t i = 0; i < s.size();) { unsigned char c = s[i]; if (c < 0x80) { o.push_back(c); i++; } else if (c < 0xe0) { o.push_back((c & 31) << 6 | (s[i + 1] & 63)); i += 2; } else { o.push_back((c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63)); i += 3; } }
    return o;
}
static void do_hold(PT& t, int vm, size_t at, const Op& o) {
    // obtain a pointer into a string or array, let other things happen, then check and release it
    VT& v = t.v[vm]; JNIEnv* e = v.env;
    Ref rr = pick(t, vm, o.a, (1u << KIND_STR) | (1u << KIND_PARR) | (1u << KIND_BUF)); if (!rr.r) return;
    RefHold h(rr);
    int oid = rr.oid; int kind = W->o[oid].kind;
    bool arr = kind == KIND_PARR;
    if (arr && !lease(W->o[oid])) return;
    jobject g = nullptr;
    if (!sut([&] { g = e->NewGlobalRef(rr.r); }) || !g) { if (arr) unlease(oid); return; }
    // the extra global keeps the object alive whatever the nested operations delete
    W->o[oid].uncertain = true;
    probe(PR_HELD_CHARS);
    std::string text = W->o[oid].text;
    if (kind == KIND_STR) {
        if (o.b & 1) {
            const char* c = nullptr; jboolean cp = 0;
            if (sut([&] { c = e->GetStringUTFChars((jstring)g, &cp); }) && c) {
                run_children(t, at);
                jsize len = -1;
                for (size_t i = 0; i <= text.size(); i++) if (c[i] != text.c_str()[i]) viol(C18, "string-content", "characters handed out for string %d changed or are wrong", oid);
                sut([&] { len = e->GetStringUTFLength((jstring)g); e->ReleaseStringUTFChars((jstring)g, c); });
                if (!oomed() && len != (jsize)text.size()) viol(C18, "string-length", "string %d reports a wrong length", oid);
            }
        } else {
            const jchar* c = nullptr; jboolean cp = 0; bool crit = o.b & 2;
            if (sut([&] { c = crit ? e->GetStringCritical((jstring)g, &cp) : e->GetStringChars((jstring)g, &cp); }) && c) {
                run_children(t, at);
                auto u = utf16(text);
                for (size_t i = 0; i < u.size(); i++) if (c[i] != u[i]) viol(C18, "string-content", "characters handed out for string %d changed or are wrong", oid);
                sut([&] { if (crit) e->ReleaseStringCritical((jstring)g, c); else e->ReleaseStringChars((jstring)g, c); });
            }
        }
    } else if (kind == KIND_BUF) {
        void* a = nullptr; jlong cap = 0;
        run_children(t, at);
        if (sut([&] { a = e->GetDirectBufferAddress(g); cap = e->GetDirectBufferCapacity(g); }) && !oomed() && (a != W->o[oid].baddr || cap != W->o[oid].bcap)) viol(C18, "buffer", "direct buffer %d lost its address or capacity", oid);
    } else {
        int n = W->o[oid].pdata.size(); int tv = 1 + o.c % 3000; jarray ga = (jarray)g; bool crit = o.b & 2; jboolean cp = 0;
        switch (W->o[oid].ptype) {
#define X(R, N, T, rv) case R: { T* p = nullptr; \
            if (!sut([&] { p = crit ? (T*)e->GetPrimitiveArrayCritical(ga, &cp) : e->Get##N##ArrayElements((T##Array)ga, &cp); }) || !p) break; \
            for (int i = 0; i < n; i++) { int mv = W->o[oid].pdata[i]; T want = mv ? rv(mv) : 0; if (p[i] != want) viol(C18, "array-content", "element %d handed out for array %d is wrong", i, oid); } \
            if (n) { p[n - 1] = rv(tv); W->o[oid].pdata[n - 1] = tv; } \
            run_children(t, at); \
            for (int i = 0; i < n; i++) { int mv = W->o[oid].pdata[i]; T want = mv ? rv(mv) : 0; if (p[i] != want) viol(C18, "array-content", "element %d handed out for array %d changed while held", i, oid); } \
            if (o.b & 4) { sut([&] { if (crit) e->ReleasePrimitiveArrayCritical(ga, p, JNI_COMMIT); else e->Release##N##ArrayElements((T##Array)ga, p, JNI_COMMIT); }); for (int i = 0; i < n; i++) { int mv = W->o[oid].pdata[i]; T want = mv ? rv(mv) : 0; if (p[i] != want) viol(C18, "array-content", "element %d handed out for array %d changed when it was stored", i, oid); } if (n) { p[0] = rv(tv + 1); W->o[oid].pdata[0] = tv + 1; } } /* stored so far, but still held */ \
            sut([&] { if (crit) e->ReleasePrimitiveArrayCritical(ga, p, 0); else e->Release##N##ArrayElements((T##Array)ga, p, 0); }); \
            break; }
        PARR_CASES(X)
#undef X
        }
    }
    if (arr) unlease(oid);
    W->o[oid].uncertain = false;
    rt::NoFault nf;
    sut([&] { e->DeleteGlobalRef(g); });
}

// ---------------------------------------------------------------- attach / detach
static void model_attach(PT& t, int vm, JNIEnv* e, bool fresh) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm];
    if (!e) viol(C05, "no-env", "attaching thread %d produced no environment", t.id);
    if (!fresh) { if (e != v.env) viol(C05 | C06, "env-changed", "an attached thread was given a different environment"); return; }
    for (auto& x : vs.envs) if (x.first != t.id && x.second == e) viol(C05 | C06, "env-shared", "threads %d and %d share one environment", t.id, x.first);
    if (v.attaches++) probe(PR_REATTACH);
    v.env = e; v.att = true; v.fr.clear(); v.fr.emplace_back(); v.pend = -1; v.pend_unc = false;
    vs.envs[t.id] = e;
    jboolean p = 1; { rt::NoFault nf; sut([&] { p = e->ExceptionCheck(); }); }
    if (p) viol(C05 | C06 | C11, "env-not-clean", "a freshly attached thread has a pending exception");
}
static void do_attach(PT& t, int vm, uint32_t how) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; JNIEnv* e = nullptr; bool fresh = !v.att; jint rc = -1;
    JavaVM* j = vs.vm;
    bool ok = sut([&] { rc = how % 3 == 1 ? j->AttachCurrentThreadAsDaemon(&e, nullptr) : j->AttachCurrentThread(&e, nullptr); });
    if (!ok) {
        // an attach that ran out of memory must not leave a half attached thread
        rt::NoFault nf;
        if (fresh) { ok = sut([&] { rc = j->AttachCurrentThread(&e, nullptr); }); } else return;
    }
    if (ok) { if (rc != 0) { if (!oomed()) viol(C05, "attach-failed", "attaching reports error %d", rc); return; } model_attach(t, vm, e, fresh); if (fresh && t.id == 0) { rt::NoFault nf; sut([&] { e->PushLocalFrame(0); }); } }   // the main thread works in a frame of its own so that it can be emptied
}
static void do_detach(PT& t, int vm) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm];
    if (!v.att) return;
    size_t n = 0; for (auto& f : v.fr) n += f.l.size();
    if (n) probe(PR_FREED_AT_DETACH);
    if (v.pend >= 0 && (v.attaches + t.id) % 2) probe(PR_PENDING_DETACH); else   // the exception goes with the environment
    check_pending(t, vm);
    v.fr.clear(); v.detaching = true; vs.envs.erase(t.id);
    jint rc = -1; JavaVM* j = vs.vm;
    rt::NoFault nf;
    sut([&] { rc = j->DetachCurrentThread(); });
    if (rc != 0) viol(C05, "detach-failed", "detaching reports error %d", rc);
    v.detaching = false; v.att = false; v.env = nullptr; v.pend = -1;
}
// ---------------------------------------------------------------- natives
void h_native(int variant, JNIEnv* env, jobject self, jint tok, jlong j, bool argsok) {
    auto it = W->calls.find(tok);
    if (it == W->calls.end() || !it->second.armed) viol(C09 | C10, "stray-callback", "a native ran with the token %d of no call in progress", tok);
    probe(PR_NATIVE_CALL);
    if (br_ident(env, self).obj != it->second.self) viol(C09 | C10, "wrong-receiver", "native call %d (%s) was given another class or receiver", tok, it->second.tag.c_str());
    h_enter(K_NATIVE + variant, tok, j == tj(tok) && argsok, -2, env);
}
jobject h_native_obj(int variant, JNIEnv* env, jobject self, jint tok, jlong j, jobject a, jstring s) {
    auto it = W->calls.find(tok); bool ok = it != W->calls.end();
    if (ok) { int want = it->second.ret_oid; const void* str = it->second.str; Ident x = a ? br_ident(env, a) : Ident{nullptr, -1};
        ok = (want < 0 ? !a : a && x.obj && x.oid == want) && (!str ? !s : s && br_ident(env, s).obj == str); }
    h_native(variant, env, self, tok, j, ok);
    if (ok && a) probe(PR_NATIVE_OBJ);
    return variant & 1 ? nullptr : a;
}
static const int NNAT = 15, NNAT0 = 13;
static const struct { const char* name; const char* sig; int rt, ci, grp; } NT[NNAT] = {{"nat0", "(IJ)I", RT_I, CI_N, 0}, {"nat1", "(IJ)I", RT_I, CI_N, 0}, {"nat2", "(IJ)I", RT_I, CI_N, 0}, {"nat3", "(IJ)I", RT_I, CI_N, 0},
    {"nat0", "(IJ)J", RT_J, CI_N, 0}, {"nat1", "(IJ)V", RT_V, CI_N, 0}, {"anat", "(IJ)I", RT_I, CI_A, 1}, {"anat", "(IJ)I", RT_I, CI_B, 2},
    {"nat0", "(IJ)Z", RT_Z, CI_N, 0}, {"natb", "(IJ)B", RT_B, CI_N, 0}, {"natc", "(IJ)C", RT_C, CI_N, 0}, {"nats", "(IJ)S", RT_S, CI_N, 0}, {"natf", "(IJ)F", RT_F, CI_N, 0}, {"nat1", "(IJDZBCSF)D", RT_D, CI_N, 0}, {"natl", "(IJLsim/A;Ljava/lang/String;)Lsim/A;", RT_L, CI_N, 0}};
static int nat0(uint32_t i) { uint32_t n = (i / 64) % 2 ? i % 6 : i % NNAT0; return n < 6 ? n : n + 2; }   // natives of the class N
static int nat_variant(int v, int rt_) { return (v & 7) + 8 * rt_; }
static void do_regnat(PT& t, int vm, const Op& o) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; if (W->c.cfg.world == WORLD_JNIVM) return;
    JNINativeMethod m[3]; int idx[3], n = 0, cnt = 1 + o.a % 3, first = (o.a / 4) % 8 < 6 ? nat0(o.b) : 6 + (int)(o.b % 2), grp = NT[first].grp;
    if (vs.natall[grp]) return;
    for (int i = 0; i < cnt; i++) {
        int k = grp ? first : i ? nat0(o.b + i) : first; NatEnt& x = vs.nat[k]; if (x.busy || x.excl || (grp && i)) continue;
        idx[n] = k; m[n].name = (char*)NT[k].name; m[n].signature = (char*)NT[k].sig; m[n].fnPtr = br_native_fn(o.c + k, NT[k].rt); n++;
    }
    if (!n) return;
    for (int i = 0; i < n; i++) { NatEnt& x = vs.nat[idx[i]]; x.excl = true; rt::edge_acquire(x.use); rt::edge_acquire(x.e); if (x.st == 2) probe(PR_NATIVE_REPLACED); }
    jclass c = clsref(vm, NT[first].ci); jint rc = -1;
    bool ok = sut([&] { rc = v.env->RegisterNatives(c, m, n); });
    bool sure = ok && !oomed();
    if (sure && rc != 0) viol(C09, "register-failed", "RegisterNatives reports error %d", rc);
    for (int i = 0; i < n; i++) { NatEnt& x = vs.nat[idx[i]]; x.excl = false; x.st = sure ? 2 : 3; x.variant = nat_variant(o.c + idx[i], NT[idx[i]].rt); rt::edge_release(x.e); }
}
static void do_unregnat(PT& t, int vm, const Op& o) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; if (W->c.cfg.world == WORLD_JNIVM) return;
    int grp = o.a % 8 < 5 ? 0 : 1 + o.b % 2, ci = grp == 0 ? CI_N : grp == 1 ? CI_A : CI_B;
    if (vs.natall[grp]) return;
    for (int k = 0; k < NNAT; k++) if (NT[k].grp == grp && (vs.nat[k].busy || vs.nat[k].excl)) return;
    vs.natall[grp] = 1;
    for (int k = 0; k < NNAT; k++) if (NT[k].grp == grp) { vs.nat[k].excl = true; rt::edge_acquire(vs.nat[k].use); rt::edge_acquire(vs.nat[k].e); }
    jclass c = clsref(vm, ci); jint rc = -1;
    bool ok = sut([&] { rc = v.env->UnregisterNatives(c); });
    for (int k = 0; k < NNAT; k++) if (NT[k].grp == grp) { NatEnt& x = vs.nat[k]; x.excl = false; x.st = ok && !oomed() ? 0 : 3; rt::edge_release(x.e); }
    vs.natall[grp] = 0;
}
static void check_standin(PT& t, int vm, jobject l, const char* sig, const char* what);
static void do_callnat(PT& t, int vm, size_t at, const Op& o) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; if (W->c.cfg.world == WORLD_JNIVM) return;
    if (v.pend >= 0 || v.pend_unc) return;
    int k = (o.a / 64) % 4 ? nat0(o.a / 4) : 6 + o.a % 2, ci = NT[k].ci;
    if (k < 6 || k > 7) { for (int i = 0; i < 4 && vs.nat[k].st != 2 && (o.a >> 16) % 4; i++) k = nat0(o.a / 4 + 1 + i * 67); ci = NT[k].ci; }
    // an instance native, called on an object: the implementation of the most derived class
    Ref recv; if (NT[k].grp && o.b % 4) { recv = pick(t, vm, o.c, M_PROBE); if (!recv.r) return; }
    RefHold hr(recv);
    if (recv.r) { int kd = W->o[recv.oid].kind; ci = kind_ci(kd); if (ci >= CI_R0 && ci < CI_R0 + 4) ci = CI_A; k = kind_isa(kd, KIND_B) ? 7 : 6; if ((o.b / 8) % 4 == 0) { k = 6; ci = CI_A; } }
    else if (NT[k].grp) { static const int CC[] = {CI_A, CI_B, CI_C, CI_D}; ci = CC[(o.b / 8) % 4]; k = ci == CI_A ? 6 : 7; }
    int alt = k == 7 ? 6 : -1;
    if (!clsref(vm, ci)) return;
    if (vs.nat[k].excl || vs.nat[k].st == 3) return;
    if (alt >= 0) { if (vs.nat[alt].excl || vs.nat[alt].st == 3) return; if (vs.nat[k].st == 0) std::swap(k, alt); }
    NatEnt& x = vs.nat[k]; x.busy++; rt::edge_acquire(x.e);
    if (alt >= 0) { vs.nat[alt].busy++; rt::edge_acquire(vs.nat[alt].e); }
    int tok = o.uid, st = x.st, variant = x.variant; jclass cl = clsref(vm, ci); jobject rr = recv.r;
    Call& c = W->calls[tok]; c = Call(); c.armed = true; c.tid = t.id; c.vm = vm; c.env = v.env; c.op = at; c.tag = std::string(CLSN[ci]) + "." + NT[k].name + NT[k].sig; c.keys.insert(K_NATIVE + variant); c.recv = -3;
    c.self = rr ? W->o[recv.oid].ptr : vs.cls[ci];
    if (rr) { c.self = br_ident(v.env, rr).obj; soft(v, recv.oid); }
    c.do_throw = (o.b / 16) % 4 == 0 && (o.b >> 31) && st == 2;
    Ref arg, str; if (NT[k].rt == RT_L) { if (o.b % 4) arg = pick(t, vm, o.b / 4, M_PROBE); if ((o.c / 2) % 4) str = pick(t, vm, o.c / 8, 1u << KIND_STR); }
    RefHold ha(arg), hs(str);
    if (arg.r) { c.ret_oid = arg.oid; soft(v, arg.oid); }
    if (str.r) { c.str = br_ident(v.env, str.r).obj; soft(v, str.oid); }
    if (arg.r && st == 2) c.hold[0] = &ha;
    bool found = false; jvalue r; memset(&r, 0, sizeof r); int thrown = -1;
    bool ok = sut([&] { thrown = br_native_call(v.env, cl, rr, NT[k].name, NT[k].sig, NT[k].rt, tok, tj(tok), arg.r, (jstring)str.r, &found, &r); });
    Call& q = W->calls[tok]; q.armed = false;
    if (ok && !oomed()) {
        if (st == 2) {
            if (rr) probe(PR_NATIVE_INSTANCE);
            if (NT[k].ci != ci) probe(PR_NATIVE_INHERITED);
            if (vs.ids.count(std::string(CLSN[ci]) + "|" + NT[k].name + NT[k].sig) && W->c.cfg.world == WORLD_BARON) probe(PR_NATIVE_SHADOWED);
            if (!found || q.count != 1) viol(C09 | C10 | C08, "native-missing", "the registered native %s was %s and ran %d times", q.tag.c_str(), found ? "found" : "not found", q.count);
            // an exception left pending by the native is reported to the C++ caller
            if (thrown != v.pend && !v.pend_unc) viol(C09 | C10 | C11, "native-exception", "invoking native %s reported exception %d to the C++ caller, expected %d", q.tag.c_str(), thrown, v.pend);
            if (thrown < 0) {
                bool good = NT[k].rt == RT_V ? true : NT[k].rt != RT_L ? ret_ok(NT[k].rt, r, tok + (variant & 7)) : variant & 1 ? !r.l : !arg.r ? !r.l : r.l && br_ident(v.env, r.l).oid == arg.oid;
                if (!good) viol(C09 | C10, "wrong-result", "native %s returned a wrong value", q.tag.c_str());
            }
        } else if (q.count) viol(C09, "native-stays", "the unregistered native %s can still be called", q.tag.c_str());
        else if (found && nullmode()) viol(C09 | C21, "native-invented", "the unregistered native %s is still found", q.tag.c_str());
    }
    if (ok && st != 2 && !q.count && thrown < 0) {   // an undefined method
        if (NT[k].rt == RT_L) { if (r.l) { if (oomed()) { int id = br_ident(v.env, r.l).oid; if (id >= 0) add_local(v, r.l, id, C21); } else check_standin(t, vm, r.l, "Lsim/A;", "native method"); } }
        else if (found && r.j && NT[k].rt != RT_V) viol(C21 | C09, "unresolved-result", "invoking the undefined native method %s returned a value", q.tag.c_str());
    }
    if (v.pend >= 0) { v.pend = -1; v.pend_unc = true; }
    NatEnt& y = W->vm[vm].nat[k]; y.busy--; rt::edge_release(y.use);
    if (alt >= 0) { NatEnt& z = W->vm[vm].nat[alt]; z.busy--; rt::edge_release(z.use); }
}
static void do_natid(PT& t, int vm, const Op& o) {   // a JNI lookup of a native's name and signature
    VT& v = t.v[vm]; VmS& vs = W->vm[vm];
    int k = o.a % NNAT, ci = NT[k].ci, st = o.b % 2; static const int CC[] = {CI_A, CI_B, CI_C, CI_D}; if (NT[k].grp) ci = CC[o.c % 4];
    std::string key = std::string(CLSN[ci]) + "|" + (st ? "static " : "") + NT[k].name + NT[k].sig; bool before = vs.ids[key].known; jmethodID id = nullptr; jclass c = clsref(vm, ci);
    if (!sut([&] { id = st ? v.env->GetStaticMethodID(c, NT[k].name, NT[k].sig) : v.env->GetMethodID(c, NT[k].name, NT[k].sig); }) || oomed()) return;
    if (nullmode()) return;
    saw_id(vs, key, id, true, before, C08 | C21);
}
// ---------------------------------------------------------------- shared objects
static const char* const LIBN[NLIB] = {"/lib/libfull.so", "libnoload.so", "libmissing.so", "bare", "libthrow.so"};
static int lib_ix(void* h) { return (int)(intptr_t)h - 100; }
static void lib_cb(int ix, bool load) {
    PT& t = me(); (void)t;
    Lib& l = W->vm[0].lib[ix];
    if (load) { if (ix != 4) l.onload++; if (l.onload - l.onunload > 1) viol(C15, "onload-twice", "JNI_OnLoad of %s runs while the library is loaded", LIBN[ix]); }
    else { l.onunload++; if (l.closes >= l.opens) viol(C15, "unload-after-close", "JNI_OnUnload of %s runs after the library was closed", LIBN[ix]); }
    if (W->vm[0].cur_lib_pt >= 0 && has_children(W->pt[W->vm[0].cur_lib_pt], W->pt[W->vm[0].cur_lib_pt].pc)) { PT& p = me(); p.inh++; run_children(p, p.pc); p.inh--; }
    if (load && ix == 4) { rt::count(rt::C_F_ONLOADTHROW); probe(PR_LIB_THROW); sim_throw(4242, l.opens % 2); }
}
struct HS { int s; HS() : s(rt::sut_get()) { rt::sut_set(0); } ~HS() { rt::sut_set(s); } };
template<int I> static jint onload(JavaVM*, void*) { HS h; lib_cb(I, true); return 0x00010006; }
template<int I> static void onunload(JavaVM*, void*) { HS h; lib_cb(I, false); }
void* h_dlopen(const char* n) {
    VmS& vs = W->vm[0];
    if (!n) { vs.lib[3].opens++; return (void*)(intptr_t)103; }
    for (int i = 0; i < NLIB; i++) if (!strcmp(n, LIBN[i])) {
        if (i == 2 || i == 3) { rt::count(rt::C_F_DLFAIL); probe(PR_LIB_FAIL); return nullptr; }
        vs.lib[i].opens++;
        return (void*)(intptr_t)(100 + i);
    }
    return nullptr;
}
void* h_dlsym(void* h, const char* s) {
    int i = lib_ix(h);
    if (i < 0 || i >= NLIB) viol(C15, "bad-handle", "dlsym is called with a handle that dlopen did not return");
    Lib& l = W->vm[0].lib[i];
    if (l.closes >= l.opens) viol(C15, "use-after-close", "dlsym is called on the closed library %s", LIBN[i]);
    bool load = !strncmp(s, "JNI_OnLoad", 10), un = !strncmp(s, "JNI_OnUnload", 12);
    if (i == 3) { if (strcmp(s, "JNI_OnLoad_bare") && strcmp(s, "JNI_OnUnload_bare")) return nullptr; }
    else if (strcmp(s, "JNI_OnLoad") && strcmp(s, "JNI_OnUnload")) return nullptr;
    if (i == 1 && load) return nullptr;
    switch (i) {
    case 0: return load ? (void*)&onload<0> : un ? (void*)&onunload<0> : nullptr;
    case 1: return un ? (void*)&onunload<1> : nullptr;
    case 3: return load ? (void*)&onload<3> : un ? (void*)&onunload<3> : nullptr;
    case 4: return load ? (void*)&onload<4> : un ? (void*)&onunload<4> : nullptr;
    }
    return nullptr;
}
int h_dlclose(void* h) {
    int i = lib_ix(h);
    if (i < 0 || i >= NLIB) viol(C15, "bad-handle", "dlclose is called with a handle that dlopen did not return");
    Lib& l = W->vm[0].lib[i];
    if (++l.closes > l.opens) viol(C15, "closed-twice", "library %s is closed more often than it was opened", LIBN[i]);
    return 0;
}
static void check_libs(bool final) {
    VmS& vs = W->vm[0];
    for (int i = 0; i < NLIB; i++) {
        Lib& l = vs.lib[i]; bool on = l.loaded && !final;
        if (l.opens - l.closes != (on && i != 2 ? 1 : 0)) viol(C15, "handle-balance", "library %s is %s but %d of its %d handles are open", LIBN[i], on ? "loaded" : "not loaded", l.opens - l.closes, l.opens);
        bool hasload = i == 0 || i == 3;
        if (hasload && l.onload - l.onunload != (on ? 1 : 0)) viol(C15, "onload-balance", "library %s is %s but JNI_OnLoad ran %d and JNI_OnUnload %d times", LIBN[i], on ? "loaded" : "not loaded", l.onload, l.onunload);
        if (i == 1 && l.onunload != l.closes) viol(C15, "onunload-missing", "library %s was closed %d times but JNI_OnUnload ran %d times", LIBN[i], l.closes, l.onunload);
        if (i == 4 && on) viol(C15, "failed-load", "library %s counts as loaded although its JNI_OnLoad threw", LIBN[i]);
    }
}
static void do_lib(PT& t, int vm, const Op& o, int act) {
    VmS& vs = W->vm[0]; if (W->c.cfg.world == WORLD_JNIVM || vs.lib_lease >= 0) return;
    vs.lib_lease = t.id; vs.cur_lib_pt = t.id; rt::edge_acquire(vs.lib_edge);
    int i = o.a % NLIB; Lib& l = vs.lib[i];
    if (act == 0) {
        bool was = l.loaded; Lib b = l;
        if (i == 4) {
            bool threw = false;
            try { Sut s; br_lib_attach(vs.vm, LIBN[i]); } catch (const SimEx& x) { threw = x.tok == 4242; } catch (const std::bad_alloc&) { if (!oomed()) throw; threw = true; }
            if (!threw) viol(C15, "onload-exception", "an exception thrown by JNI_OnLoad was swallowed");
        } else {
            bool ok = sut([&] { br_lib_attach(vs.vm, LIBN[i]); });
            if (ok && !oomed()) {
                l.loaded = 1; probe(PR_LIB_OK);
                if (!was && (i == 0 || i == 3) && l.onload != b.onload + 1) viol(C15, "onload-missing", "loading %s did not run JNI_OnLoad exactly once", LIBN[i]);
                if (was && (l.opens != b.opens || l.onload != b.onload || l.onunload != b.onunload || l.closes != b.closes)) viol(C15, "reload", "attaching the loaded library %s again opened, initialised or closed it", LIBN[i]);
            } else l.loaded = l.opens > l.closes;
        }
    } else {
        Lib b = l; bool ok = sut([&] { br_lib_remove(vs.vm, LIBN[i]); });
        if (ok) { if (l.loaded && i != 2 && l.closes != b.closes + 1) viol(C15, "close-missing", "removing %s did not close it exactly once", LIBN[i]); l.loaded = 0; }
        else l.loaded = l.opens > l.closes;
    }
    if (!oomed()) check_libs(false);
    vs.lib_lease = -1; vs.cur_lib_pt = -1; rt::edge_release(vs.lib_edge);
}

// ---------------------------------------------------------------- types
static int find_ci(const std::string& n) { for (int i = 0; i < NCLS; i++) if (n == CLSN[i]) return i; return -1; }
static std::string arr_class(const Obj& o) {
    return o.kind == KIND_PARR ? std::string("[") + SG_P[o.ptype] : *CLSN[o.eci] == '[' ? "[" + std::string(CLSN[o.eci]) : "[L" + std::string(CLSN[o.eci]) + ";";
}
// element classes of object arrays: class, kinds of objects stored, and the class index of the element class
static uint32_t kinds_of(int k) { uint32_t m = 0; for (int i = KIND_A; i < KIND_PROBE_END; i++) if (kind_isa(i, k)) m |= 1u << i; return m; }
static const int EC[] = {CI_A, CI_A, CI_A, CI_B, CI_B, CI_C, CI_D, CI_F, CI_G, CI_S, CI_STR, CI_AA};
static uint32_t ec_kinds(int ci) { return ci == CI_STR ? 1u << KIND_STR : ci == CI_S ? M_PROBE : ci == CI_AA ? 0 : kinds_of(ci_kind(ci)); }
static bool fits(const Obj& o, int ci) { return ci == CI_AA ? o.kind == KIND_ARR && o.eci == CI_A : kind_match(o.kind, ec_kinds(ci)); }
static Ref pick_elem(PT& t, int vm, uint32_t r, int ci, uint32_t sel) {
    if (ci != CI_AA) return pick_val(t, vm, r, ec_kinds(ci), sel, true);
    VT& v = t.v[vm]; std::vector<Ref> c;
    for (auto& f : v.fr) for (auto& l : f.l) if (fits(W->o[l.oid], ci)) { Ref x; x.r = l.ref; x.oid = l.oid; c.push_back(x); }
    for (auto& s : W->vm[vm].g) if (s.st == 2 && fits(W->o[s.oid], ci)) { Ref x; x.r = s.ref; x.oid = s.oid; x.slot = &s; c.push_back(x); }
    return c.empty() ? Ref() : c[r % c.size()];
}
static void do_newarr(PT& t, int vm, const Op& o) {
    VT& v = t.v[vm]; JNIEnv* e = v.env;
    int n = o.a % 8 == 7 ? (o.a >> 8) % 16 ? 6 + (int)(o.a >> 8) % 40 : 60 + (int)(o.a >> 12) % 400 : o.a % 5, ci = EC[(o.a >> 4) % 12]; if (!W->c.cfg.world && (ci == CI_F || ci == CI_G)) ci = CI_B;
    Ref init; if (o.b % 2) init = pick_elem(t, vm, o.c, ci, o.c >> 8); RefHold h(init); jobjectArray r = nullptr; jobject x = init.r; jclass c = ci == CI_AA ? nullptr : clsref(vm, ci);
    bool cpp = ci != CI_S && o.b / 2 % 4 == 1; if (cpp) probe(PR_CPP_ARRAY);
    if (!cpp && !c && (!sut([&] { c = e->FindClass(CLSN[ci]); }) || !c)) return;
    if (!sut([&] { r = cpp ? (jobjectArray)br_arr_make(e, ci == CI_AA ? -1 : ci == CI_STR ? 0 : ci_kind(ci), n, x) : e->NewObjectArray(n, c, x); })) { soft(v, init.oid); return; }
    if (!r) { if (!oomed()) viol(C19, "null-array", "an object array could not be created"); return; }
    int id = new_obj(v, vm, r, KIND_ARR); W->o[id].elems.assign(n, init.oid); W->o[id].eci = ci;
}
static void do_arr(PT& t, int vm, const Op& o, int act) {   // 0 store, 1 load, 2 through the C++ view
    VT& v = t.v[vm]; JNIEnv* e = v.env;
    Ref a = pick(t, vm, o.a, 1u << KIND_ARR); if (!a.r) return; RefHold h(a); int n = W->o[a.oid].elems.size(), ci = W->o[a.oid].eci; if (!n) return;
    int i = o.b % n; jobjectArray ar = (jobjectArray)a.r;
    int view = 0, form = o.b / 1024 % 5; bool wr = act == 0;
    if (act == 2) {   // the array as an array of Object or of any base of its element class
        int k = ci == CI_A || ci == CI_B || ci == CI_C || ci == CI_D ? ci_kind(ci) : 0; wr = o.b / 64 % 2;
        for (int skip = o.b / 128 % 4; k; k = parent_kind(k), skip--) if (skip <= 0) break;
        view = k; if (ci == CI_D && o.b / 8192 % 4 == 1) view = 100 + o.b / 128 % 2;   // or of its second base
    }
    Ref x; if (wr && o.c % 4) { x = pick_elem(t, vm, o.c / 4, ci, o.c >> 8); if (!x.r) return; } RefHold h2(x);
    if (!lease(W->o[a.oid])) return;
    if (act == 2 && wr && view && o.c % 16 == 4) {   // an object of another type is refused and changes nothing
        Ref y = pick(t, vm, o.c / 16, M_PROBE | 1u << KIND_STR); RefHold h3(y);
        int k = y.r ? W->o[y.oid].kind : 0; bool thrown = false; jobject yr = y.r;
        if (k && (k >= KIND_PROBE_END || !kind_isa(k, ci_kind(ci)))) {
            bool ok = sut([&] { try { br_arr_set(e, ar, view, i, yr, form); } catch (const std::runtime_error&) { thrown = true; } });
            if (ok && !oomed() && !thrown) viol(C19 | C23, "wrong-element", "an object of kind %d was stored in array %d of %s", k, a.oid, CLSN[ci]);
            int cur = -1; rt::NoFault nf; jobject g = nullptr; if (sut([&] { g = e->GetObjectArrayElement(ar, i); }) && g) { cur = ident_oid(v, g); if (cur >= 0) add_local(v, g, cur, C19); }
            if (cur != W->o[a.oid].elems[i]) viol(C19, "array-element", "a refused store changed element %d of array %d from object %d to %d", i, a.oid, W->o[a.oid].elems[i], cur);
            unlease(a.oid); return;
        }
    }
    auto load = [&]() -> jobject { return act == 2 ? br_arr_get(e, ar, view, i, form) : e->GetObjectArrayElement(ar, i); };
    if (wr) {
        jobject xr = x.r; int old = W->o[a.oid].elems[i]; W->o[a.oid].elems[i] = -1;
        bool ok = sut([&] { if (act == 2) br_arr_set(e, ar, view, i, xr, form); else e->SetObjectArrayElement(ar, i, xr); });
        if (!ok || oomed()) { jobject g = nullptr; int cur = -1; rt::NoFault nf; if (sut([&] { g = e->GetObjectArrayElement(ar, i); }) && g) { cur = ident_oid(v, g); if (cur >= 0) v.fr.back().l.push_back({g, cur}); }
            if (cur != old && cur != x.oid) viol(C14 | C19, "array-element", "a failed store left object %d in an array", cur); W->o[a.oid].elems[i] = cur; if (old >= 0) W->o[old].uncertain = true; if (x.oid >= 0) W->o[x.oid].uncertain = true; }
        else W->o[a.oid].elems[i] = x.oid;
    } else {
        jobject r = nullptr; jsize len = -1;
        if (sut([&] { r = load(); len = e->GetArrayLength(ar); })) {
            int got = r ? ident_oid(v, r) : -1; probe(PR_ARR_OBJ);
            if (r && got >= 0) add_local(v, r, got, C19);
            if (!oomed()) { if (got != W->o[a.oid].elems[i]) viol(C19, "array-element", "element %d of array %d is object %d, expected %d", i, a.oid, got, W->o[a.oid].elems[i]);
                if (len != n) viol(C19, "array-length", "array %d reports length %d, expected %d", a.oid, len, n); }
        }
    }
    unlease(a.oid);
}
static int late_owner(int k) { return k % W->c.cfg.nthreads; }   // R2 and R3 are registered by one thread only, which may use their names before
static void do_typepair(PT& t, int vm, const Op& o) {   // two classes, known or not yet known
    VmS& vs = W->vm[vm]; JNIEnv* e = t.v[vm].env;
    static const int Q[] = {CI_A, CI_B, CI_C, CI_D, CI_F, CI_G, CI_OBJ, CI_IFACE, CI_S, CI_N, CI_E, CI_STR, CI_R0, CI_R0 + 1, CI_R0 + 2, CI_R0 + 3, CI_IFP, CI_X0, CI_OUT, CI_R0, CI_R0 + 1, CI_R0 + 2, CI_R0 + 3};
    int ci[2] = {Q[o.a % 23], o.b / 4 % 2 ? CI_A : Q[o.b / 8 % 19]}; jclass c[2] = {};
    for (int i = 0; i < 2; i++) {
        if (ci[i] >= CI_R0 && ci[i] < CI_R0 + 4) {
            int st = vs.reg[ci[i] - CI_R0];
            if (st == 2) rt::edge_acquire(vs.reg_e[ci[i] - CI_R0]); else if (st == 3) return;
        }
        c[i] = clsref(vm, ci[i]);
        const char* n = CLSN[ci[i]]; if (!c[i] && (!sut([&] { c[i] = e->FindClass(n); }) || !c[i])) return;
    }
    auto isa = [&](int late) {   // the declared hierarchy; late: the least state of registration that counts
        std::vector<int> up{ci[0]}; bool want = false;
        for (size_t i = 0; i < up.size(); i++) {
            int x = up[i]; if (x == ci[1]) want = true;
            if ((x >= CI_R0 && x < CI_R0 + 4 && vs.reg[x - CI_R0] < late) || ((x == CI_F || x == CI_G) && !W->c.cfg.world)) continue;   // known by name only
            int k = ci_kind(x);
            if (x == CI_E) up.push_back(CI_A); else if (x == CI_A || x == CI_IFP) up.push_back(CI_OBJ); else if (x == CI_IFACE) up.push_back(CI_IFP); else if (k && parent_kind(k)) up.push_back(kind_ci(parent_kind(k)));
            if (x == CI_D) up.push_back(CI_IFACE);
        }
        return want;
    };
    bool lo = isa(2);
    jboolean as = 0, as2 = 0; if (!sut([&] { as = e->IsAssignableFrom(c[0], c[1]); if (o.c / 3 % 2) as2 = e->IsAssignableFrom(c[0], c[1]); else as2 = as; }) || oomed()) return;
    bool hi = isa(1);   // under way in between
    if (ci[1] == CI_OBJ && !lo) return;   // classes outside the declared hierarchy report no superclass
    probe(PR_TYPE_PAIR);
    if ((bool)as < lo || as2 < as || hi < (bool)as2) viol(C23 | C22, "assignable", "IsAssignableFrom of class %s and class %s yields %d", CLSN[ci[0]], CLSN[ci[1]], as);
}
static void do_typeq(PT& t, int vm, const Op& o) {
    if (o.c % 3 == 0) { do_typepair(t, vm, o); return; }
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; JNIEnv* e = v.env;
    if (o.c / 3 % 16 == 5) {   // the class of a class and of null
        jclass c = clsref(vm, o.b % 2 ? CI_A : CI_STR), cc = nullptr; jobjectRefType nt = JNILocalRefType; jboolean own = 0, oth = 1;
        if (!c || !sut([&] { cc = e->GetObjectClass(c); nt = e->GetObjectRefType(nullptr); own = e->IsInstanceOf(c, clsref(vm, CI_CLASS)); oth = e->IsInstanceOf(c, clsref(vm, CI_B)); }) || oomed()) return;
        std::string n = cc ? br_class_name(e, cc) : "nothing"; if (n != "java/lang/Class") viol(C23 | C07, "wrong-class", "the class of a class is %s", n.c_str());
        if (!own || oth) viol(C23, "instance-of", "a class is %s", own ? "an instance of sim/B" : "no instance of java/lang/Class");
        if (nt != JNIInvalidRefType) viol(C23, "ref-type", "null has the reference type %d", (int)nt);
        return;
    }
    Ref a = pick_val(t, vm, o.a, M_PROBE | 1u << KIND_STR | 1u << KIND_ARR | 1u << KIND_PARR | 1u << KIND_THR | 1u << KIND_BUF, o.c >> 4, false); if (!a.r) return;
    RefHold h(a); int kd = W->o[a.oid].kind, ci = kind_ci(kd); jobject x = a.r;
    jclass c = nullptr; if (!sut([&] { c = e->GetObjectClass(x); })) return;
    if (kd == KIND_ARR || kd == KIND_PARR) {
        std::string n = arr_class(W->o[a.oid]);
        if (!c) { if (!oomed()) viol(C23 | C07, "no-class", "an array of class %s has no class", n.c_str()); return; }
        std::string got = br_class_name(e, c);
        if (got != n) viol(C23 | C07, "wrong-class", "an array of class %s reports the class %s", n.c_str(), got.c_str());
        int ac = find_ci(n); if (ac >= 0) saw_class(vm, ac, br_ident(e, c).obj, false, nullptr, C23 | C07);
        jboolean own = 0, other = 0; jclass b = clsref(vm, CI_B); jclass again = nullptr;
        if (!sut([&] { own = e->IsInstanceOf(x, c); other = e->IsInstanceOf(x, b); again = e->FindClass(n.c_str()); }) || oomed()) return;
        if (!own || other) viol(C23, "instance-of", "IsInstanceOf of an array of class %s and %s yields %d", n.c_str(), own ? CLSN[CI_B] : "its class", own ? other : own);
        if (br_ident(e, again).obj != br_ident(e, c).obj) viol(C23 | C07, "wrong-class", "the class of an array and the class found as %s differ", n.c_str());
        return;
    }
    if (kd == KIND_BUF) { std::string n = c ? br_class_name(e, c) : ""; if (n != "java/nio/ByteBuffer" && !oomed()) viol(C23 | C07, "wrong-class", "a direct buffer is of class %s", n.c_str()); return; }
    if (!c) { if (!oomed()) viol(C23 | C07, "no-class", "an object of class %s has no class", CLSN[ci]); return; }
    if (isprobe(kd) && ci >= CI_R0 && ci < CI_R0 + 4) { int k = ci - CI_R0; rt::edge_acquire(vs.reg_e[k]); saw_class(vm, ci, br_ident(e, c).obj, true, nullptr, C23 | C07 | C22); }
    Ident i = br_ident(e, c);
    if (i.obj != vs.cls[ci]) viol(C23 | C07 | C22, "wrong-class", "an object of class %s reports another class: %s", CLSN[ci], br_class_name(e, c).c_str());
    if (W->c.cfg.world != WORLD_JNIVM && o.c / 3 % 4 == 0) {
        const void* k = nullptr; if (!sut([&] { k = br_class_of(e, x); })) return;
        if (k != i.obj && !oomed()) viol(C23 | C07, "wrong-class", "getClass of an object of class %s is not its class", CLSN[ci]);
    }
    // query classes: the declared ones, Object, the second base of D, unrelated ones and those registered while running
    static const int Q[] = {CI_A, CI_B, CI_C, CI_D, CI_F, CI_G, CI_OBJ, CI_IFACE, CI_S, CI_N, CI_E, CI_STR, CI_R0, CI_R0 + 1, CI_R0 + 2, CI_R0 + 3, CI_IFP};
    int q = Q[o.b % 17], qk = ci_kind(q); jclass qc = clsref(vm, q);
    if (q >= CI_R0 && q < CI_R0 + 4) { if (vs.reg[q - CI_R0] != 2) return; rt::edge_acquire(vs.reg_e[q - CI_R0]); if (!sut([&] { qc = e->FindClass(CLSN[q]); })) return; }
    if (!qc) return;
    bool want = q == ci || (isprobe(kd) && (q == CI_OBJ || (qk && kind_isa(kd, qk)) || ((q == CI_IFACE || q == CI_IFP) && kd == KIND_D)));
    if (!isprobe(kd) && q == CI_OBJ) return;   // classes outside the declared hierarchy report no superclass
    if (o.c / 3 % 8 == 1) { jboolean z = 0; if (sut([&] { z = e->IsInstanceOf(nullptr, qc); }) && !oomed() && !z) viol(C23, "instance-of", "null is not an instance of class %s", CLSN[q]); }
    jboolean r = 0, as = 0; jclass sup = nullptr;
    if (!sut([&] { r = e->IsInstanceOf(x, qc); as = e->IsAssignableFrom(c, qc); sup = e->GetSuperclass(c); }) || oomed()) return;
    if ((bool)r != want) viol(C23 | C22, "instance-of", "IsInstanceOf of a %s object and class %s yields %d", CLSN[ci], CLSN[q], r);
    if ((bool)as != want) viol(C23 | C22, "assignable", "IsAssignableFrom of class %s and class %s yields %d", CLSN[ci], CLSN[q], as);
    if (!isprobe(kd)) return;
    int pk = parent_kind(kd);
    if (br_ident(e, sup).obj != vs.cls[pk ? kind_ci(pk) : CI_OBJ]) viol(C23, "superclass", "the superclass of %s is wrong", CLSN[ci]);
}
// ---------------------------------------------------------------- scope objects
static bool denied_class(const std::string& n);
static void check_unattached(PT& t, int vm);
struct ScopeCtx { PT* t; int vm; size_t at; bool was, frame, thr, entered, hold; int tok; rt::NoFault* nf; void* held; };
static void scope_fn(void* a, JNIEnv* e) {
    ScopeCtx& s = *(ScopeCtx*)a; PT& t = *s.t; VT& v = t.v[s.vm]; VmS& vs = W->vm[s.vm];
    s.entered = true; s.nf = new rt::NoFault;
    if (s.was) { if (e != v.env) viol(C16 | C05, "env-changed", "a scope object on an attached thread uses another environment"); }
    else model_attach(t, s.vm, e, true);
    if (br_fj_current() != e) viol(C16 | C05, "current-env", "the current environment is not the one of the scope object");
    if (s.frame) v.fr.emplace_back();
    if (s.hold && !s.was) { rt::Sut x; s.held = br_env_hold(vs.vm); }
    delete s.nf; s.nf = nullptr;
    run_children(t, s.at);
    s.nf = new rt::NoFault;
    check_pending(t, s.vm);
    if (s.frame) v.fr.pop_back();
    if (!s.was) { v.fr.clear(); v.detaching = true; vs.envs.erase(t.id); }
    if (s.thr) { rt::count(rt::C_F_CBTHROW); probe(PR_SCOPE_THROW); sim_throw(s.tok, s.tok % 3); }
}
static void do_scope(PT& t, int vm, size_t at, const Op& o) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; if (W->c.cfg.world == WORLD_JNIVM) return;
    ScopeCtx s; memset(&s, 0, sizeof s); s.t = &t; s.vm = vm; s.at = at; s.was = v.att; s.tok = 30000 + o.uid; s.thr = (o.b / 8) % 4 == 0;
    int kind = (o.b / 64) % 2 ? 0 : (o.b / 128) % 4; s.frame = kind % 2 == 0; s.hold = o.c / 8 % 3 == 0;
    if (!s.was) probe(kind >= 2 ? PR_SCOPE_NOENV : PR_SCOPED_ATTACH);
    int got = 0, tok = -1; std::string what; bool hk = !s.was && kind < 2 && o.c % 8 == 0;
    t.hookthrow = hk;
    try { Sut x; br_fj_scope(vs.vm, kind, o.a % 5, scope_fn, &s); }
    catch (const SimEx& x) { got = 1; tok = x.tok; }
    catch (const std::bad_alloc&) { got = 2; }
    catch (const std::exception& x) { got = 3; what = x.what(); }
    delete s.nf; t.hookthrow = false;
    if (s.held) { rt::Sut x; br_env_drop(s.held); probe(PR_ENV_HELD); }    // the program kept the environment a moment longer than the thread was attached
    if (hk) { if (s.entered || got == 0) viol(C16 | C05, "scope-entered", "a scope object was created although its environment could not be"); check_unattached(t, vm); return; }
    if (s.entered) {
        if (s.thr ? got != 1 || tok != s.tok : got != 0) viol(C16 | C11, "scope-exception", "a scope left %s reported %s", s.thr ? "by an exception" : "normally", got == 0 ? "none" : got == 1 ? "an exception" : got == 2 ? "bad_alloc" : what.c_str());
    } else if (kind >= 2 && !s.was) { if (got != 3 && !oomed()) viol(C16 | C05, "scope-without-env", "a scope object without a VM on an unattached thread reports no error"); }
    else if (!oomed()) viol(C16 | C05, "scope-failed", "a scope object could not be created: %s", what.c_str());
    if (!s.was) { v.detaching = false; v.att = false; v.env = nullptr; v.pend = -1; v.pend_unc = false; if (br_fj_current()) viol(C16 | C05, "scope-leak", "the thread stays attached after the scope object that attached it ended"); }
    else if (br_fj_current() != v.env) viol(C16 | C05, "scope-detach", "a scope object detached a thread that was attached before it");
}
// the main method and start: like a local frame in which the registered function runs
struct MainCtx { ScopeCtx s; int n, runs; const std::string* args; };
void h_main(int overload, int n, const std::string* args) {
    PT& t = me(); MainCtx* m = t.mainctx;
    if (!m) { viol(C10 | C22, "stray-callback", "the main method ran on a thread that does not start the program"); return; }
    VmS& vs = W->vm[m->s.vm];
    if (++m->runs > 1) viol(C10, "callback-twice", "the main method ran %d times for one start", m->runs);
    if (overload != vs.mainover) viol(C10 | C22, "wrong-implementation", "start ran another function than the registered main method");
    if (n != m->n) viol(C10, "wrong-arguments", "the main method was given %d arguments instead of %d", n, m->n);
    for (int i = 0; i < n && i < 4; i++) if (args[i] != m->args[i]) viol(C10, "wrong-arguments", "the main method was given '%s' instead of '%s'", args[i].c_str(), m->args[i].c_str());
    rt::hash_mix(0x3a130000ull + n); probe(PR_MAIN_RUN);
    t.mainctx = nullptr; t.inh++;
    struct Back { PT& t; MainCtx* m; ~Back() { t.inh--; t.mainctx = m; } } back{t, m};
    scope_fn(&m->s, br_fj_current());
}
static void do_start(PT& t, int vm, size_t at, const Op& o) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; if (W->c.cfg.world == WORLD_JNIVM) return;
    if (v.pend >= 0 || v.pend_unc) return;     // start reports the exception that is pending
    if (vs.mainreg == 0 && v.att && o.b % 4) {
        vs.mainreg = 1; vs.mainover = (o.b / 4) % 2;
        bool ok = sut([&] { br_main_reg(vs.vm, vs.mainover); });
        vs.mainreg = ok && !oomed() ? 2 : 3; rt::edge_release(vs.main_e); probe(PR_LATE_HOOK_CALL);
        return;
    }
    int st = vs.mainreg;
    if (st == 2) rt::edge_acquire(vs.main_e);
    std::string a[4] = {"main"}; bool dflt = o.c % 4 == 0; int n = dflt ? 1 : (o.c / 4) % 4;
    if (!dflt) for (int i = 0; i < n; i++) { unsigned k = (o.c / 16 + i) % 4; a[i] = k == 0 ? "" : "arg" + std::to_string(o.uid) + (k == 1 ? "\xc3\xa4\xe2\x82\xac" : "") + std::to_string(i); if (k == 3) a[i] += std::string(100, 'x'); }
    MainCtx m; memset(&m.s, 0, sizeof m.s); m.n = n; m.runs = 0; m.args = a;
    ScopeCtx& s = m.s; s.t = &t; s.vm = vm; s.at = at; s.was = v.att; s.tok = 30000 + o.uid; s.thr = (o.b / 8) % 4 == 0; s.frame = true;
    MainCtx* save = t.mainctx; t.mainctx = &m;
    int got = 0, tok = -1; std::string what;
    try { Sut x; br_start(vs.vm, dflt ? -1 : n, a); }
    catch (const SimEx& x) { got = 1; tok = x.tok; }
    catch (const std::bad_alloc&) { got = 2; }
    catch (const std::exception& x) { got = 3; what = x.what(); }
    delete s.nf; t.mainctx = save;
    if (m.runs && vs.mainreg == 0) viol(C10 | C22, "stray-callback", "start ran a main method before one was registered");
    if (oomed()) { if (s.was && v.att) v.pend_unc = true; }
    else if (m.runs) {
        if (s.thr ? got != 1 || tok != s.tok : got != 0) viol(C11 | C10, "main-exception", "start, whose main method %s, reported %s", s.thr ? "threw an exception" : "returned", got == 0 ? "none" : got == 1 ? "an exception" : got == 2 ? "bad_alloc" : what.c_str());
        if (s.was && s.thr) v.pend_unc = true;
    } else {
        if (st == 2) viol(C10 | C22, "callback-missing", "start did not run the registered main method and reported %s", got == 0 ? "nothing" : got == 1 ? "an exception" : got == 2 ? "bad_alloc" : what.c_str());
        if (got != 3) viol(C11 | C22, "main-missing", "start without a main method reported %s", got == 0 ? "nothing" : "another exception");
        probe(PR_MAIN_MISSING);
    }
    if (!s.was) { v.detaching = false; v.att = false; v.env = nullptr; v.pend = -1; v.pend_unc = false; if (br_fj_current()) viol(C16 | C05, "scope-leak", "the thread stays attached after start"); }
    else if (br_fj_current() != v.env) viol(C16 | C05, "scope-detach", "start detached a thread that was attached before it");
}
struct ListCtx { int vm; std::set<const void*> objs; std::set<std::string> names; };
static void list_cb(void* a, const void* obj, const char* name) {
    ListCtx& l = *(ListCtx*)a;
    if (!l.objs.insert(obj).second || !l.names.insert(name).second) viol(C07 | C16, "class-duplicated", "the list of classes contains class %s more than once", name);
    if (W->c.cfg.world == WORLD_BARON && denied_class(name)) viol(C17, "denied-class", "the list of classes contains the denied class %s", name);
    for (int ci = 0; ci < NCLS; ci++) if (!strcmp(CLSN[ci], name)) saw_class(l.vm, ci, obj, false, nullptr, C07 | C16);
}
// ---------------------------------------------------------------- undefined members
static void check_standin(PT& t, int vm, jobject l, const char* type, const char* what) {   // what an undefined member returned
    VT& v = t.v[vm]; JNIEnv* e = v.env;
    std::string n = *type == 'L' ? std::string(type + 1, strlen(type) - 2) : type;
    if (!l) return;
    if (n == "sim/E") viol(C21, "unsafe-stand-in", "the undefined %s returned an object for class %s, which cannot be created", what, n.c_str());
    jclass c = nullptr; jsize len = 0; bool str = n == "java/lang/String";
    int oid = br_ident(e, l).oid;
    if (oid >= 0) add_local(v, l, oid, C21); else { oid = new_obj(v, vm, l, str ? KIND_STR : KIND_CLS); }
    if (!sut([&] { c = e->GetObjectClass(l); if (*type == '[') len = e->GetArrayLength((jarray)l); else if (str) len = e->GetStringUTFLength((jstring)l); }) || oomed()) return;
    std::string got = c ? br_class_name(e, c) : "";
    probe(PR_STANDIN_TYPED);
    if (got != n) viol(C21 | C23, "stand-in-type", "the undefined %s of type %s returned an object of class %s", what, n.c_str(), got.c_str());
    if (len) viol(C21, "unresolved-result", "the undefined %s of type %s returned an object with %d elements", what, n.c_str(), (int)len);
}
static void do_unresm(PT& t, int vm, const Op& o) {
    // members nobody defined: in null mode the lookup fails, otherwise calls return a default and nothing runs
    static const struct { const char* n; const char* s; int rt; } U[] = {{"un0", "(I)V", RT_V}, {"un1", "(IJ)I", RT_I}, {"un2", "(J)J", RT_J}, {"un3", "()Z", RT_Z}, {"un4", "(I)D", RT_D}, {"un5", "()Lsim/A;", RT_L}, {"un6", "()Lsim/u/X1;", RT_L}, {"un7", "()[I", RT_L}, {"un8", "(F)F", RT_F},
        {"un9", "()B", RT_B}, {"una", "()C", RT_C}, {"unb", "()S", RT_S}, {"unc", "()Lsim/E;", RT_L}, {"und", "()Lsim/S;", RT_L}, {"une", "()Ljava/lang/String;", RT_L}, {"unf", "()[Lsim/A;", RT_L}, {"ung", "()[[I", RT_L}, {"unh", "()Lsim/D;", RT_L}, {"uni", "()[D", RT_L}, {"unj", "()[Lsim/u/X0;", RT_L},
        {"unk", "()Lsim/u/Out$In;", RT_L}, {"unl", "()[Z", RT_L}, {"unm", "()Ljava/lang/Object;", RT_L},
        {"unn", "()[J", RT_L}, {"uno", "()[S", RT_L}, {"unp", "()[[Ljava/lang/String;", RT_L}, {"unq", "()[[[J", RT_L}, {"unr", "()[[Lsim/A;", RT_L}, {"uns", "()[F", RT_L}, {"unt", "()[C", RT_L}, {"unu", "()[B", RT_L}, {"<init>", "()V", RT_L},
        {"unv", "()Lsim/u/a_class_with_a_rather_long_name/C1;", RT_L}, {"unv", "()Lsim/u/a_class_with_a_rather_long_name/C12;", RT_L}, {"unv", "(Lsim/u/a_class_with_a_rather_long_name/C1;)V", RT_V}, {"unv", "(Lsim/u/a_class_with_a_rather_long_name/C2;)V", RT_V}, {"unv2", "()Lsim/u/a_class_with_a_rather_long_name/C1;", RT_L}, {"unv", "(II)I", RT_I}, {"unv", "(IJ)I", RT_I}, {"unv", "(IJ)J", RT_J},
        {"unw", "()Lsim/late/R0;", RT_L}, {"unw", "()Lother/R3;", RT_L}, {"unw", "()[Lsim/late/R1;", RT_L}};
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; JNIEnv* e = v.env;
    static const int UC[] = {CI_A, CI_S, CI_A, CI_E, CI_A, CI_S, CI_R0, CI_N, CI_R0 + 1, CI_R0 + 2};
    int w = o.a / 64 % 6 == 0 ? 40 + o.a % 3 : o.a % 43, st = o.b % 2; bool ctor = w == 31; if (ctor) st = 0; int ci = ctor && o.b / 2 % 2 ? CI_X0 : UC[o.b / 2 % 2 + o.b / 64 % 5 * 2]; jmethodID id = nullptr; jclass c = clsref(vm, ci);
    if (!c) { if (ctor || (!st && ci != CI_A)) return; const char* cn = CLSN[ci]; if (!sut([&] { c = e->FindClass(cn); }) || !c) return; }   // its type may get registered meanwhile
    std::string key = std::string(CLSN[ci]) + "|" + (st ? "static " : "") + U[w].n + U[w].s; bool before = vs.ids[key].known;
    if (!sut([&] { id = st ? e->GetStaticMethodID(c, U[w].n, U[w].s) : e->GetMethodID(c, U[w].n, U[w].s); }) || (oomed() && !id)) return;
    if (nullmode()) { probe(PR_NULLRET); if (id) viol(C21, "id-invented", "the unknown method %s was found", key.c_str()); return; }
    probe(PR_FABRICATED);
    saw_id(vs, key, id, true, before, C21 | C08); if (!before) note_decl(vs, U[w].s);
    if (ctor) {   // constructing with a constructor nobody defined: like any other undefined member that returns the class
        jobject nw = nullptr; jvalue na[1]; memset(na, 0, sizeof na);
        if (sut([&] { nw = o.b / 4 % 2 ? e->NewObject(c, id) : e->NewObjectA(c, id, na); })) check_standin(t, vm, nw, ("L" + std::string(CLSN[ci]) + ";").c_str(), "constructor");
        return;
    }
    Ref r0; if (!st) { r0 = pick_val(t, vm, o.c, M_PROBE, o.c >> 8, false); if (!r0.r) return; } RefHold h(r0); jobject r = r0.r; if (!st && ci != CI_A) return;
    jvalue ret; memset(&ret, 0, sizeof ret); jvalue a[2]; memset(a, 0, sizeof a); int form = call_form(o.b / 4), k = st ? 0 : o.b / 16 % 3 ? 1 : 2;
    bool ok;
    if (w == 37) ok = sut([&] { call_any(ret, U[w].rt, e, k, form, r, c, id, a, (jint)1, (jint)2); });
    else if (w == 34 || w == 35) ok = sut([&] { call_any(ret, U[w].rt, e, k, form, r, c, id, a, r); });
    else if (w == 1 || w == 38 || w == 39) ok = sut([&] { call_any(ret, U[w].rt, e, k, form, r, c, id, a, (jint)1, (jlong)2); });
    else if (w == 2) ok = sut([&] { call_any(ret, U[w].rt, e, k, form, r, c, id, a, (jlong)2); });
    else if (w == 8) ok = sut([&] { call_any(ret, U[w].rt, e, k, form, r, c, id, a, (jfloat)2); });
    else if (w == 0 || w == 4) ok = sut([&] { call_any(ret, U[w].rt, e, k, form, r, c, id, a, (jint)2); });
    else ok = sut([&] { call_any(ret, U[w].rt, e, k, form, r, c, id, a); });
    if (!ok) return;
    if (U[w].rt != RT_L) { if (ret.j && U[w].rt != RT_V) viol(C21, "unresolved-result", "calling an undefined method returned a value"); }
    else check_standin(t, vm, ret.l, strchr(U[w].s, ')') + 1, "method");
}
static void do_unresf(PT& t, int vm, const Op& o) {
    static const struct { const char* n; const char* s; int rt; } U[] = {{"uf0", "I", RT_I}, {"uf1", "J", RT_J}, {"uf2", "Lsim/A;", RT_L}, {"uf3", "Ljava/lang/String;", RT_L}, {"uf4", "D", RT_D}, {"uf5", "Z", RT_Z}, {"uf6", "[I", RT_L}, {"uf7", "Lsim/E;", RT_L}, {"uf8", "[[I", RT_L}, {"uf9", "Lsim/u/X1;", RT_L}, {"ufa", "[Lsim/B;", RT_L}, {"ufb", "Lsim/S;", RT_L}, {"ufl", "Lsim/u/a_class_with_a_rather_long_name/C1;", RT_L}, {"ufl", "Lsim/u/a_class_with_a_rather_long_name/C12;", RT_L}, {"ufl", "Lsim/u/a_class_with_a_rather_long_name/C2;", RT_L}, {"ufl", "I", RT_I}, {"ufl", "J", RT_J}, {"ufl2", "I", RT_I}, {"ufw", "Lsim/late/R0;", RT_L}, {"ufw", "Lsim/late/R1;", RT_L}};
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; JNIEnv* e = v.env;
    int w = o.a % 20, st = o.b % 2; int ci = o.b / 2 % 2 || !st ? CI_A : o.b / 64 % 4 == 0 ? CI_E : CI_S; jfieldID id = nullptr; jclass c = clsref(vm, ci);
    std::string key = std::string(CLSN[ci]) + "|" + (st ? "static " : "") + U[w].n + ":" + U[w].s; bool before = vs.ids[key].known;
    if (!sut([&] { id = st ? e->GetStaticFieldID(c, U[w].n, U[w].s) : e->GetFieldID(c, U[w].n, U[w].s); }) || (oomed() && !id)) return;
    if (nullmode()) { probe(PR_NULLRET); if (id) viol(C21, "id-invented", "the unknown field %s was found", key.c_str()); return; }
    probe(PR_FABRICATED);
    saw_id(vs, key, id, true, before, C21 | C08); if (!before) note_decl(vs, U[w].s);
    Ref r0; if (!st) { r0 = pick_val(t, vm, o.c, M_PROBE, o.c >> 8, false); if (!r0.r) return; } RefHold h(r0); jobject r = r0.r; jlong x = 0; jobject l = nullptr;
    Ref wv; if (U[w].rt == RT_L && o.b / 4 % 2) wv = pick_val(t, vm, o.c / 5, M_PROBE, o.c >> 12, true); RefHold h2(wv); jobject wr = wv.r;   // a write that must have no effect
    bool ok = sut([&] {
        switch (U[w].rt) {
        case RT_I: if (st) { e->SetStaticIntField(c, id, 5); x = e->GetStaticIntField(c, id); } else { e->SetIntField(r, id, 5); x = e->GetIntField(r, id); } break;
        case RT_J: x = st ? e->GetStaticLongField(c, id) : e->GetLongField(r, id); break;
        case RT_D: if (st) { e->SetStaticDoubleField(c, id, 5); x = e->GetStaticDoubleField(c, id) != 0; } else { e->SetDoubleField(r, id, 5); x = e->GetDoubleField(r, id) != 0; } break;
        case RT_Z: if (st) { e->SetStaticBooleanField(c, id, 1); x = e->GetStaticBooleanField(c, id); } else { e->SetBooleanField(r, id, 1); x = e->GetBooleanField(r, id); } break;
        default:
            if (wr) { if (st) e->SetStaticObjectField(c, id, wr); else e->SetObjectField(r, id, wr); }
            l = st ? e->GetStaticObjectField(c, id) : e->GetObjectField(r, id); } });
    if (!ok) return;
    if (x) viol(C21, "unresolved-result", "reading an undefined field returned a value");
    if (l && wr) { int oid = br_ident(e, l).oid; if (oid >= 0 && oid == wv.oid) viol(C21, "unresolved-result", "writing an undefined field had an effect"); }
    check_standin(t, vm, l, U[w].s, "field");
}
// ---------------------------------------------------------------- lookups by generated names, generated code
static bool denied(const DenyRule* r, int n, const char* name, const char* sig, const char* cls);
#define R10(s) s s s s s s s s s s
#define LONGA R10("aVeryLongNameOf_a_Member_") "A"
#define LONGB R10("aVeryLongNameOf_a_Member_") "B"
static std::string pool_class(uint32_t x) {
    static const char* const PK[] = {"", "g/", "g/h/", "g/h/i/", "k/", "k/g/"}; static const char* const LF[] = {"P0", "P1", "Kl", "Inn"};
    if (x / 144 % 8 == 1) return std::string(x & 1 ? "com/example_of_a_long_name/application/" : "com/example_of_a_long_name/application2/") + (x & 2 ? "SomeClassWithALongName" : "SomeClassWithALongName2") + (x & 4 ? "$InnerClassWithALongName" : x & 8 ? "$InnerClassWithALongName$1" : "") + (x & 16 ? x & 32 ? LONGA : LONGB : ""); static const char* const NS[] = {"", "", "$In", "$In$Deep", "$Kl", "$P0$P0"};
    return std::string(PK[x % 6]) + LF[x / 6 % 4] + NS[x / 24 % 6];
}
static std::string pool_type(uint32_t& x) {
    std::string r; auto nx = [&] { x = x * 1664525u + 1013904223u; return x >> 16; };
    uint32_t d = nx(); for (int i = d % 8 == 0 ? 1 + d / 8 % 4 : 0; i > 0; i--) r += '[';
    uint32_t k = nx() % 14;
    return k < 8 ? r + "ZBCSIJFD"[k] : k < 9 ? r + "Ljava/lang/String;" : k < 10 ? r + "Lsim/A;" : k < 11 ? r + "Ljava/lang/Object;" : r + "L" + pool_class(nx()) + ";";
}
static void do_lookup(PT& t, int vm, const Op& o) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; JNIEnv* e = v.env;
    uint32_t x = o.b ^ (o.a << 7); std::string cn = pool_class(o.a % 16 == 7 ? 144 + o.a / 16 % 64 : o.a % (o.a % 3 ? 144 : 12)); const char* n = cn.c_str();
    auto it = vs.pool.find(cn); const void* before = it == vs.pool.end() ? nullptr : it->second;
    jclass c = nullptr;
    if (!sut([&] { c = e->FindClass(n); })) return;
    if (oomed() && !c) return;
    const void* p = c ? br_ident(e, c).obj : nullptr;
    if (nullmode()) { probe(PR_NULLRET); if (p) viol(C07 | C21, "class-invented", "the unknown class %s was found", n); return; }
    if (!p) viol(C07 | C22 | C21, "class-missing", "looking up class %s finds nothing", n);
    before = vs.pool[cn];
    if (before && before != p) viol(C07 | C22, "class-duplicated", "looking up class %s returns different class objects", n);
    for (auto& q : vs.pool) if (q.second == p && q.first != cn) viol(C07, "class-mixed", "classes %s and %s are the same class object", n, q.first.c_str());
    for (int i = 0; i < NCLS; i++) if (vs.cls[i] == p) viol(C07, "class-mixed", "classes %s and %s are the same class object", n, CLSN[i]);
    vs.pool[cn] = p;
    std::string nm = br_class_name(e, c); if (nm != cn) viol(C07, "class-name", "the class found as %s is called %s", n, nm.c_str());
    // members of it
    for (int i = o.c % 3; i > 0; i--) {
        static const char* const MN[] = {"ma", "mb", "getX", "ma2", "<init>", "aMemberWithAName_thatIsRatherLong", "aMemberWithAName_thatIsRatherLonger", LONGA, LONGB};
        uint32_t k = (x = x * 22695477u + 1u) >> 9; bool fld = k % 3 == 0, st = k / 3 % 2; const char* mn = MN[k / 512 % 8 == 0 ? 5 + k / 4096 % 4 : k / 8 % (fld ? 4 : 5)];
        if (*mn == '<') st = false;
        std::string sig; if (fld) sig = pool_type(x); else { sig = "("; for (int j = k / 1024 % 8 == 0 ? k / 64 % 13 : k / 64 % 4; j > 0; j--) sig += pool_type(x); sig += ")"; sig += *mn == '<' || k / 256 % 4 == 0 ? std::string("V") : pool_type(x); }
        std::string key = cn + "|" + (st ? "static " : "") + mn + (fld ? ":" : "") + sig; bool bef = vs.ids[key].known; void* id = nullptr; const char* sg = sig.c_str();
        if (!sut([&] { id = fld ? (void*)(st ? e->GetStaticFieldID(c, mn, sg) : e->GetFieldID(c, mn, sg)) : (void*)(st ? e->GetStaticMethodID(c, mn, sg) : e->GetMethodID(c, mn, sg)); }) || (oomed() && !id)) return;
        if (W->c.cfg.world == WORLD_BARON && (fld ? denied(DENY_F, sizeof DENY_F / sizeof *DENY_F, mn, sg, n) : denied(DENY_M, sizeof DENY_M / sizeof *DENY_M, mn, sg, n))) { if (id) viol(C17, "denied-member", "the denied member %s was found", key.c_str()); continue; }
        saw_id(vs, key, id, true, bef, C08 | C21 | C22);
        note_decl(vs, sg);
    }
}
// What the generator has to write for a type, a member, a class: the reference against which the generated text is compared.
static std::string repl(std::string s) { std::string r; for (char c : s) if (c == '/' || c == '$') r += "::"; else r += c; return r; }
static const char* cg_type(const char* p, std::string& out) {
    switch (*p) {
    case 'V': out = "void"; return p + 1; case 'Z': out = "jboolean"; return p + 1; case 'B': out = "jbyte"; return p + 1; case 'C': out = "jchar"; return p + 1; case 'S': out = "jshort"; return p + 1;
    case 'I': out = "jint"; return p + 1; case 'J': out = "jlong"; return p + 1; case 'F': out = "jfloat"; return p + 1; case 'D': out = "jdouble"; return p + 1;
    case 'L': { const char* q = strchr(p, ';'); out = "std::shared_ptr<jnivm::" + repl(std::string(p + 1, q)) + ">"; return q + 1; }
    case '[': { std::string e; p = cg_type(p + 1, e); static const std::string SP = "std::shared_ptr<"; if (!e.compare(0, SP.size(), SP)) e = e.substr(SP.size(), e.size() - SP.size() - 1); out = SP + "jnivm::Array<" + e + ">>"; return p; }
    }
    return p + 1;
}
static const char* const CG_BL[] = {"java/lang/Object", "java/lang/String", "java/lang/Class", "java/nio/ByteBuffer", "java/lang/Throwable", "java/lang/reflect/Method", "java/lang/reflect/Field", "java/lang/ref/WeakReference", "internal/lang/Global"};
static bool cg_builtin(const std::string& n) { for (auto b : CG_BL) if (n == b) return true; return false; }
static std::vector<std::string> cg_line(const std::string& text) { std::vector<std::string> r; size_t i = 0; while (i <= text.size()) { size_t j = text.find('\n', i); if (j == std::string::npos) j = text.size(); std::string l = text.substr(i, j - i); size_t a = l.find_first_not_of(" \t"), b = l.find_last_not_of(" \t\r"); r.push_back(a == std::string::npos ? "" : l.substr(a, b - a + 1)); i = j + 1; } return r; }
static const std::vector<std::string> cg_owners(const std::string& c) {   // a member found through a class may belong to a base class
    static const std::map<std::string, std::vector<std::string>> M = {{"sim/B", {"sim/A"}}, {"sim/C", {"sim/B", "sim/A"}}, {"sim/D", {"sim/B", "sim/Iface", "sim/A", "sim/IfaceP"}}, {"sim/Iface", {"sim/IfaceP"}}, {"sim/E", {"sim/A"}}, {"sim/pkg/F", {"sim/A"}}, {"sim/pkg/G", {"sim/pkg/F", "sim/A"}}, {"sim/late/R0", {"sim/A"}}, {"sim/late/R1", {"sim/A"}}, {"sim/late/Outer$R2", {"sim/A"}}, {"other/R3", {"sim/A"}}};
    std::vector<std::string> r{c}; auto it = M.find(c); if (it != M.end()) r.insert(r.end(), it->second.begin(), it->second.end()); return r;
}
typedef std::map<std::string, std::map<std::string, int>> CgMap;
static std::string sq(const std::string& s) { std::string r; for (char c : s) if (c != ' ' && c != '\t') r += c; return r; }   // layout does not matter
static void do_codegen(int vm) {
    VmS& vs = W->vm[vm]; std::string g[5];
    auto add = [](void* a, const char* p, size_t n) { ((std::string*)a)->append(p, n); };
    rt::op_begin(0xfb00);
    for (int i = 0; i < 5; i++) { g[i].clear(); if (!sut([&] { br_codegen(vs.vm, i, add, &g[i]); })) g[i].clear(); }
    bool failed = oomed();
    rt::op_end();
    rt::op_begin(0xfb01); rt::NoFault nf; probe(PR_CODEGEN);
    for (int i = 0; i < 5 && (failed || W->c.seed % 4 == 0); i++) { std::string s; if (!sut([&] { br_codegen(vs.vm, i, add, &s); })) { rt::op_end(); return; } if (s != g[i] && !failed) viol(C26, "generator-unstable", "generating the same code twice yields different text"); g[i] = s; }
    rt::op_end();
    if (W->c.seed % 8 == 1) {   // the same, written to a file
        int fd = memfd_create("dump", 0); if (fd >= 0) {
            std::string path = "/proc/self/fd/" + std::to_string(fd), s, want = g[0] + "\n" + g[1] + g[2] + "void InitJNIBinding(jnivm::ENV* env) {\n" + g[3] + g[4] + "\n}"; const char* pp = path.c_str();
            if (!sut([&] { br_codegen_file(vs.vm, pp); })) return;
            char b[8192]; ssize_t n; lseek(fd, 0, SEEK_SET); while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
            close(fd);
            if (s != want) viol(C26, "dump-incomplete", "the code written to a file differs from the generated code (%zu bytes instead of %zu)", s.size(), want.size());
        }
    }
    // classes that have to appear: everything found by name, the classes around nested ones, and those that recorded members mention
    std::set<std::string> cls;
    auto want = [&](const std::string& n) { if (n.empty() || n[0] == '[') return; if (!cg_builtin(n)) cls.insert(n); for (size_t i = n.find('$'); i != std::string::npos; i = n.find('$', i + 1)) cls.insert(n.substr(0, i)); };
    for (int i = 0; i < NCLS; i++) if (vs.cls[i]) want(CLSN[i]);
    for (auto& p : vs.pool) if (p.second) want(p.first);
    for (auto& d : vs.decl) want(d);
    CgMap head, bind; std::map<std::string, int> fwd, reg, stub;
    std::string cur;
    for (auto& l : cg_line(g[1])) {
        if (cur.empty()) { if (!l.compare(0, 6, "class ") && l.find(" : ") != std::string::npos) { cur = l.substr(6, l.find(" : ") - 6); if (++head[cur][""] > 1) viol(C26 | C07, "declared-twice", "the generated header defines class %s twice", cur.c_str()); } }
        else if (l == "};") cur.clear();
        else if (!l.empty() && l != "public:" && ++head[cur][sq(l)] > 1) viol(C26 | C08, "declared-twice", "the generated header declares '%s' twice in class %s", l.c_str(), cur.c_str());
    }
    std::vector<std::string> ns;
    for (auto& l : cg_line(g[0])) {
        if (!l.compare(0, 10, "namespace ")) ns.push_back(l.substr(10, l.find(" {") - 10)); else if (l == "}" && !ns.empty()) ns.pop_back();
        else if (!l.compare(0, 6, "class ")) { std::string q; for (auto& n : ns) q += n + "::"; q += l.substr(6, l.size() - 7); if (++fwd[q] > 1) viol(C26 | C07, "declared-twice", "class %s has two forward declarations", q.c_str()); }
    }
    auto sl = cg_line(g[2]);
    for (size_t i = 0; i < sl.size(); i++) { std::string k = sl[i]; if (!k.empty() && k.back() == '{') { while (++i < sl.size() && sl[i] != "}") if (!sl[i].empty()) k += " " + sl[i]; k += " }"; } if (!k.empty() && ++stub[sq(k)] > 1) viol(C26 | C08, "declared-twice", "the generated stubs define '%s' twice", k.c_str()); }
    for (auto& l : cg_line(g[3])) if (!l.empty() && ++reg[sq(l)] > 1) viol(C26 | C07, "declared-twice", "the generated code registers '%s' twice", l.c_str());
    ns.clear();
    for (auto& l : cg_line(g[4])) {
        static const std::string GC = "auto c = env->GetClass(\"";
        if (l == "{") ns.push_back(""); else if (l == "}") { if (!ns.empty()) ns.pop_back(); }
        else if (!ns.empty() && !l.compare(0, GC.size(), GC)) { ns.back() = l.substr(GC.size(), l.find('"', GC.size()) - GC.size()); bind[ns.back()][""]++; }
        else if (!l.empty() && !ns.empty()) bind[ns.back()][sq(l)]++;
    }
    for (auto& c : cls) {
        std::string q = "jnivm::" + repl(c);
        if (!head.count(q)) viol(C26, "class-not-declared", "class %s was looked up but the generated header does not define it", c.c_str());
        if (!bind.count(c)) viol(C26, "class-not-bound", "class %s was looked up but the generated bindings leave it out", c.c_str());
        if (!reg.count(sq("env->GetClass<" + q + ">(\"" + c + "\");"))) viol(C26, "class-not-registered", "class %s was looked up but the generated code does not register it", c.c_str());
        size_t d = c.rfind('$');
        if (d == std::string::npos) { if (!fwd.count(q)) viol(C26, "class-not-declared", "class %s was looked up but it has no forward declaration", c.c_str()); }
        else if (!cg_builtin(c.substr(0, d)) && !head["jnivm::" + repl(c.substr(0, d))].count(sq("class " + c.substr(d + 1) + ";"))) viol(C26, "class-not-declared", "nested class %s is not declared inside its outer class", c.c_str());
    }
    for (auto& m : vs.ids) if (m.second.known) {
        size_t bar = m.first.find('|'); std::string c = m.first.substr(0, bar), r = m.first.substr(bar + 1); if (c[0] == '[') continue;
        bool st = !r.compare(0, 7, "static "); if (st) r = r.substr(7);
        size_t col = r.find(':'), par = r.find('('); bool fld = col != std::string::npos; std::string name = r.substr(0, fld ? col : par), sig = r.substr(fld ? col + 1 : par); bool ctor = name == "<init>", ok = false; if (ctor) st = true;
        std::string first;
        for (auto& ow : cg_owners(c)) {
            if (cg_builtin(ow)) { ok = true; break; }
            std::string q = "jnivm::" + repl(ow), leaf = q.rfind("::") == std::string::npos ? q : q.substr(q.rfind("::") + 2), hl, sk, bl, ty;
            if (fld) {
                cg_type(sig.c_str(), ty); hl = (st ? "static " : "") + ty + " " + name + ";"; sk = st ? ty + " " + q + "::" + name + " = {};" : ""; bl = "c->Hook(env, \"" + name + "\", &" + q + "::" + name + ");";
            } else {
                std::vector<std::string> ps; const char* p = sig.c_str() + 1; while (*p && *p != ')') { p = cg_type(p, ty); ps.push_back(ty); }
                if (*p) cg_type(p + 1, ty);
                std::string a, b, cargs, cnames; for (size_t i = 0; i < ps.size(); i++) { std::string ai = " arg" + std::to_string(i); a += ", " + ps[i]; b += ", " + ps[i] + ai; cnames += "," + ai; }
                hl = (ctor ? leaf : (st ? "static " : "") + ty + " " + name) + "(jnivm::ENV* env" + (st ? ", jnivm::Class* cl" : "") + a + ");";
                sk = (ctor ? q + "::" + leaf : ty + " " + q + "::" + name) + "(jnivm::ENV *" + (st ? ", jnivm::Class* cl" : "") + b + ") {" + (ctor || ty == "void" ? "" : " return {};") + " }";
                bl = ctor ? "c->Hook(env, \"<init>\", [](jnivm::ENV *env, jnivm::Class* cl" + b + ") {   return std::make_shared<" + q + ">(env, cl" + cnames + ");});" : "c->Hook(env, \"" + name + "\", &" + q + "::" + name + ");";
            }
            if (first.empty()) first = hl;
            if (!head.count(q) || !head[q].count(sq(hl))) continue;
            ok = true;
            if (!sk.empty() && !stub.count(sq(sk))) viol(C26, "member-not-defined", "the generated stubs do not define '%s'", sk.c_str());
            if (!bind.count(ow) || !bind[ow].count(sq(bl))) viol(C26, "member-not-bound", "the generated bindings of class %s leave out '%s'", ow.c_str(), bl.c_str());
            break;
        }
        if (!ok) viol(C26 | C08, "member-not-declared", "%s was looked up but the generated header does not declare it (expected '%s')", m.first.c_str(), first.c_str());
    }
}
// ---------------------------------------------------------------- denials
static bool denied(const DenyRule* r, int n, const char* name, const char* sig, const char* cls) {   // an empty part of a rule matches everything
    for (int i = 0; i < n; i++) if ((!*r[i].n || !strcmp(r[i].n, name)) && (!*r[i].s || !strcmp(r[i].s, sig)) && (!*r[i].c || !strcmp(r[i].c, cls))) return true;
    return false;
}
static bool denied_class(const std::string& n) { for (auto d : DENY_C) if (n == d) return true; return false; }
static void do_denymem(PT& t, int vm, const Op& o, bool meth) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; JNIEnv* e = v.env;
    static const char* const MN[] = {"dm0", "dm1", "dm2", "dm3", "dm4", "dm", "okm", "dmp", "dmpp", "dmq"}; static const char* const MS[] = {"(I)I", "(J)J", "(F)F", "(I)V", "(Z)V", "()V", "(JJJ)V", "(FFF)F"};
    static const char* const FN[] = {"df0", "df1", "df2", "df3", "df", "okf", "dfp", "dfpp"}; static const char* const FS[] = {"I", "J", "F", "Z", "Lsim/Q;", "[[S", "[I"};
    static const char* const CN[] = {"sim/S", "sim/N", "sim/u/X0", "sim/den/All", "sim/u/Out", "sim/u/Out$In", "sim/u/X01", "u/Out"};
    const char* n = meth ? MN[o.b % 10] : FN[o.b % 8]; const char* s = meth ? MS[o.b / 11 % 8] : FS[o.b / 11 % 7]; int cx = o.c / 1024 % 8; bool st = o.c / 4 % 2;
    bool want = meth ? denied(DENY_M, sizeof DENY_M / sizeof *DENY_M, n, s, CN[cx]) : denied(DENY_F, sizeof DENY_F / sizeof *DENY_F, n, s, CN[cx]);
    if (o.c / 64 % 6 == 0) { if (jclass k = clsref(vm, CI_S)) lookup_mid(v, vm, CT[CT_DYN + 6 + o.b % 2], k, "sim/S", false); return; }
    if (o.c / 8 % 8 == 0) {   // the rules themselves
        bool r = false; if (!sut([&] { r = br_is_denied(vs.vm, meth, o.c / 512 % 2, n, s, CN[cx]); })) return;
        probe(PR_DENY_API);
        if (r != want) viol(C17, "denial-rule", "the %s %s %s of %s is reported as %s", meth ? "method" : "field", n, s, CN[cx], r ? "denied" : "permitted");
        return;
    }
    jclass c = cx == 0 ? clsref(vm, CI_S) : cx == 1 ? clsref(vm, CI_N) : nullptr; void* id = nullptr;
    if (!c) { const char* cn = CN[cx]; if (!sut([&] { c = e->FindClass(cn); }) || !c) return; }
    if (!sut([&] { id = meth ? (void*)(st ? e->GetStaticMethodID(c, n, s) : e->GetMethodID(c, n, s)) : (void*)(st ? e->GetStaticFieldID(c, n, s) : e->GetFieldID(c, n, s)); }) || (oomed() && !id)) return;
    probe(want ? PR_DENIED : PR_ALLOWED);
    if (want) { rt::count(rt::C_F_DENY); if (id) viol(C17, meth ? "denied-method" : "denied-field", "the denied %s %s %s of %s was found", meth ? "method" : "field", n, s, CN[cx]); return; }
    std::string key = std::string(CN[cx]) + "|" + (st ? "static " : "") + n + (meth ? "" : ":") + s;
    saw_id(vs, key, id, true, vs.ids[key].known, C17 | C21 | C08);
}
static void do_denycls(PT& t, int vm, const Op& o) {
    JNIEnv* e = t.v[vm].env; VmS& vs = W->vm[vm];
    static const char* const K[] = {"sim/deny/K0", "sim/deny/K1", "sim/den/Out$In", "DenyTop", "sim/deny/K2", "sim/den/Out", "sim/deny/K", "sim/deny/K00"};
    const char* n = K[o.b % 8]; bool want = denied_class(n), cpp = o.c % 2; const void* p = nullptr; jclass c = nullptr;
    if (o.a / 5 % 8 == 0) { bool r = false; if (sut([&] { r = br_class_denied(vs.vm, cpp, n); }) && r != want) viol(C17, "denial-rule", "the class %s is reported as %s", n, r ? "denied" : "permitted"); probe(PR_DENY_API); return; }
    if (o.c / 2 % 3) {   // first let the class be mentioned: by a nested class, an array of it, the signature of an undefined member, the result of one
        std::string nn = n; int how = o.c / 6 % 7, kk = o.b % 8; char un[16]; snprintf(un, sizeof un, "den%d", kk); jclass s = clsref(vm, CI_S); void* id = nullptr; probe(PR_DENIED_MENTION);
        if (how == 0) nn += "$X"; else if (how == 1) nn = "[L" + nn + ";"; else if (how < 4) nn = "()L" + nn + ";"; else if (how == 6) nn = "()[L" + nn + ";"; else nn = "L" + nn + ";";
        const char* np = nn.c_str();
        if (!sut([&] { if (how < 2) id = e->FindClass(np); else if (how < 4 || how == 6) id = (void*)e->GetStaticMethodID(s, un, np); else id = (void*)e->GetStaticFieldID(s, un, np); }) || (oomed() && !id)) return;
        if (how >= 2) saw_id(vs, "sim/S|static " + std::string(un) + (how < 4 || how == 6 ? "" : ":") + nn, id, true, false, C17 | C21 | C08);
        else if (!id) viol(C17 | C21, "class-missing", "the allowed class %s was not found", np);
        if (how == 3 || how == 6) { jobject r = nullptr; if (!sut([&] { r = e->CallStaticObjectMethod(s, (jmethodID)id); }) || oomed()) return; if (r) e->DeleteLocalRef(r); }
        if (how < 2) e->DeleteLocalRef((jclass)id);
        n = K[o.b % 8];
    }
    if (!sut([&] { if (cpp) p = br_fj_find(vs.vm, n); else c = e->FindClass(n); }) || (oomed() && !c && !p)) return;
    if (c) p = br_ident(e, c).obj;
    if (want && p) viol(C17, "denied-class", "the denied class %s was found", n);
    if (!want && !p) viol(C17 | C21, "class-missing", "the allowed class %s was not found", n);
    if (p && !cpp) { std::string nm = br_class_name(e, c); if (nm != n) viol(C17 | C07, "class-name", "the class found as %s is called %s", n, nm.c_str()); }
    probe(want ? PR_DENIED : PR_ALLOWED); if (want) rt::count(rt::C_F_DENY);
}
// ---------------------------------------------------------------- failing attachment, unattached threads
void h_env_hook() {   // runs while an environment is created
    if (!W || !me().hookthrow) return;
    me().hookthrow = false; rt::count(rt::C_F_CBTHROW); probe(PR_ENV_HOOK_THROW);
    rt::sut_set(0);
    sim_throw(777, me().ops.size() % 2);
}
static void check_unattached(PT& t, int vm) {
    VmS& vs = W->vm[vm]; const void* e = nullptr;
    rt::NoFault nf;
    if (sut([&] { e = br_vm_env(vs.vm); }) && e) viol(C05 | C16, "env-invented", "the VM reports an environment for thread %d, which is not attached", t.id);
    if (W->c.cfg.world && br_fj_current()) viol(C16 | C05, "env-invented", "the current environment of thread %d is set although it is not attached", t.id);
    probe(PR_UNATT_QUERY);
}
static void do_attachfail(PT& t, int vm, const Op& o) {
    VmS& vs = W->vm[vm]; JavaVM* j = vs.vm; JNIEnv* e = nullptr; int rc = -1; bool threw = false;
    t.hookthrow = true;
    try { Sut s; void* p = nullptr; rc = o.a % 3 == 0 ? j->GetEnv(&p, JNI_VERSION_1_6) : o.a % 3 == 1 ? j->AttachCurrentThreadAsDaemon(&e, nullptr) : j->AttachCurrentThread(&e, nullptr); }
    catch (const SimEx& x) { threw = true; if (x.tok != 777) viol(C05 | C11, "exception-mixed", "a failing attach threw exception %d", x.tok); }
    catch (const std::bad_alloc&) { if (!oomed()) throw; threw = true; }
    bool ran = !t.hookthrow; t.hookthrow = false;
    if (!threw && rc == 0) {
        if (ran) viol(C05, "attach-succeeded", "attaching thread %d succeeded although its environment could not be created", t.id);
        viol(C05, "hook-missing", "attaching thread %d created no environment", t.id);
    }
    check_unattached(t, vm);
    if (o.b % 2) do_attach(t, vm, o.b / 2);
}
// ---------------------------------------------------------------- long balanced histories
static void do_bulk(PT& t, int vm, const Op& o) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; JNIEnv* e = v.env;
    Ref a = pick(t, vm, o.a >> 8, M_ANY); if (!a.r) return; RefHold h(a); jobject x = a.r;
    if (W->bulks++ >= 8) return;    // long enough
    rt::NoFault nf; probe(PR_BULK);
    jclass ca = clsref(vm, CI_A), cs = clsref(vm, CI_S); int kind = o.a % 18; bool prb = isprobe(W->o[a.oid].kind);
    const void* obj = br_ident(e, x).obj;
    auto same = [&](jobject r) { if (r && br_ident(e, r).obj == obj) return; viol(C01 | C02 | C03, "wrong-reference", "one of many references to object %d denotes something else", a.oid); };
    if (kind >= 15) {   // many references live at once, deleted in another order
        int n = 12 + o.b % (o.c % 4 ? 40 : 150); std::vector<jobject> r(n);
        bool weak = kind == 16, local = kind == 17;
        sut([&] { for (int i = 0; i < n; i++) r[i] = weak ? e->NewWeakGlobalRef(x) : local ? e->NewLocalRef(x) : e->NewGlobalRef(x); });
        uint64_t y = o.c * 0x9E3779B97F4A7C15ull + 7; for (int i = n - 1; i > 0; i--) { y ^= y << 13; y ^= y >> 7; y ^= y << 17; std::swap(r[i], r[(y >> 16) % (i + 1)]); }
        for (int i = 0; i < n; i++) {
            if (i % 16 == 0) for (int j = i; j < n; j += 5) same(r[j]);
            jobject d = r[i]; sut([&] { if (weak) e->DeleteWeakGlobalRef((jweak)d); else if (local) e->DeleteLocalRef(d); else e->DeleteGlobalRef(d); });
        }
        same(x);
        return;
    }
    bool changed = false;
    auto unit = [&] {
        switch (kind) {
        case 0: { jobject g = e->NewGlobalRef(x); e->DeleteGlobalRef(g); break; }
        case 1: { jobject l = e->NewLocalRef(x); e->DeleteLocalRef(l); break; }
        case 2: { e->PushLocalFrame(3); for (int i = 0; i < 5; i++) e->NewLocalRef(x); e->PopLocalFrame(nullptr); break; }
        case 3: { jweak w = e->NewWeakGlobalRef(x); jobject l = e->NewLocalRef(w); e->DeleteLocalRef(l); e->DeleteWeakGlobalRef(w); break; }
        case 4: { jclass c = e->GetObjectClass(x); e->DeleteLocalRef(c); break; }
        case 5: { jclass c = e->FindClass("sim/B"); e->DeleteLocalRef(c); break; }
        case 6: { e->GetFieldID(ca, "f3", "I"); e->GetStaticMethodID(cs, "m0", "(I)V"); e->GetMethodID(ca, "unb0", "()V"); e->GetStaticFieldID(cs, "unbf", "I"); break; }
        case 7: { e->PushLocalFrame(4); jstring s = e->NewStringUTF("bulk"); const char* c = e->GetStringUTFChars(s, nullptr); e->ReleaseStringUTFChars(s, c); const jchar* w = e->GetStringChars(s, nullptr); e->ReleaseStringChars(s, w); e->PopLocalFrame(nullptr); break; }
        case 8: { jintArray r = e->NewIntArray(9); jint* p = e->GetIntArrayElements(r, nullptr); e->ReleaseIntArrayElements(r, p, 0); e->DeleteLocalRef(r); break; }
        case 9: { e->PushLocalFrame(4); jobjectArray r = e->NewObjectArray(5, ca, prb ? x : nullptr); e->SetObjectArrayElement(r, 1, nullptr); e->GetObjectArrayElement(r, 2); e->PopLocalFrame(nullptr); break; }
        case 10: { e->EnsureLocalCapacity(20); break; }
        case 11: { e->PushLocalFrame(0); e->PushLocalFrame(9); jobject l = e->NewLocalRef(x); e->PopLocalFrame(l); e->PopLocalFrame(nullptr); break; }
        case 12: { e->PushLocalFrame(0); e->IsInstanceOf(x, ca); e->IsSameObject(x, ca); e->GetObjectRefType(x); e->GetSuperclass(ca); e->PopLocalFrame(nullptr); break; }
        case 13: { JavaVM* j = vs.vm; JNIEnv* q = nullptr; j->AttachCurrentThread(&q, nullptr); j->GetEnv((void**)&q, JNI_VERSION_1_6); if (q != e) changed = true; break; }
        case 14: { e->PushLocalFrame(0); char b[4]; jobject r = e->NewDirectByteBuffer(b, 4); e->GetDirectBufferCapacity(r); e->PopLocalFrame(nullptr); break; }
        }
    };
    bool alone = W->c.cfg.nthreads == 1; uint64_t b[5]; int k = 0, done = 0;
    for (int until : {12, 60, 300}) {   // a table that keeps doubling grows in each part
        if (!alone && until > 60) break;
        if (!sut([&] { for (; done < until; done++) { unit(); if (done % 16 == 0) rt::progress(); } })) return;
        b[k++] = rt::live_bytes();
    }
    if (changed) viol(C05 | C06, "env-changed", "an attached thread was given a different environment");
    if (alone && b[1] > b[0] && b[2] > b[1]) viol(C04 | C01 | C02 | C03, "memory-grows", "memory in use grows with the length of a balanced history (kind %d): %llu, %llu, %llu bytes", kind, (unsigned long long)b[0], (unsigned long long)b[1], (unsigned long long)b[2]);
}
// ---------------------------------------------------------------- many of one thing at once
static void shuffle(std::vector<int>& v, uint64_t y) { y = y * 0x9E3779B97F4A7C15ull + 7; for (int i = (int)v.size() - 1; i > 0; i--) { y ^= y << 13; y ^= y >> 7; y ^= y << 17; std::swap(v[i], v[(y >> 16) % (i + 1)]); } }
static void do_wide(PT& t, int vm, size_t at, const Op& o) {
    VT& v = t.v[vm]; VmS& vs = W->vm[vm]; JNIEnv* e = v.env; if (W->wides++ >= 6) return;
    rt::NoFault nf; int kind = o.a % 6; bool big = o.c % 4 == 0;
    switch (kind) {
    case 0: {   // deep frames, each with objects of its own
        Ref a = pick(t, vm, o.a >> 8, M_ANY); if (!a.r) return; RefHold h(a); jobject x = a.r; const void* obj = br_ident(e, x).obj;
        int n = 8 + o.b % (big ? 57 : 14), carry = -1; jobject carried = nullptr; uint64_t y = o.c * 0x9E3779B97F4A7C15ull + 11; auto rnd = [&] { y ^= y << 13; y ^= y >> 7; y ^= y << 17; return (uint32_t)(y >> 20); };
        std::vector<jobject> l(n), s(n); std::vector<jweak> w(n); probe(PR_DEEP_FRAMES);
        auto alive = [&](int i, bool want, const char* when) { bool dead = true; sut([&] { dead = e->IsSameObject(w[i], nullptr); }); if (dead == want) viol(want ? C01 | C03 : C01 | C03 | C04, want ? "freed-early" : "freed-late", want ? "the object made in frame %d of %d is gone %s" : "the object made in frame %d of %d is still there %s", i, n, when); };
        auto ok = [&](int i) { if (br_ident(e, l[i]).obj != obj) viol(C01, "wrong-reference", "the reference made in frame %d of %d denotes something else", i, n); };
        for (int i = 0; i < n; i++) {
            char b[24]; snprintf(b, sizeof b, "deep%d", i); const char* bp = b;
            if (!sut([&] { if (e->PushLocalFrame(rnd() % 12) != 0) return; s[i] = e->NewStringUTF(bp); w[i] = e->NewWeakGlobalRef(s[i]); l[i] = e->NewLocalRef(x); for (int k = rnd() % 9; k > 0; k--) e->NewLocalRef(rnd() % 2 ? x : s[i]); if (rnd() % 4 == 0) e->EnsureLocalCapacity(20); })) return;
            if (!s[i] || !w[i] || !l[i]) viol(C01, "push-failed", "no frame, or no reference in it, at depth %d", i);
        }
        for (int i = n - 1; i >= 0; i--) {
            int j = rnd() % (i + 1); ok(j); alive(j, true, "before its frame is popped"); ok(i); if (carry >= 0) alive(carry, true, "although a pop returned it");
            int mode = rnd() % 4; jobject res = mode == 0 ? nullptr : mode == 1 ? l[i] : mode == 2 ? s[i] : carried ? carried : s[i], r = nullptr;
            if (!sut([&] { r = e->PopLocalFrame(res); })) return;
            if (!r != !res) viol(C01, "pop-result", "PopLocalFrame %s at depth %d", res ? "lost its result" : "invented a result", i);
            int now = mode == 2 || (mode == 3 && !carried) ? i : mode == 3 ? carry : -1;
            if (mode == 1 && br_ident(e, r).obj != obj) viol(C01, "pop-result", "PopLocalFrame returned a reference to something else at depth %d", i);
            if (now >= 0) { bool same = false; sut([&] { same = e->IsSameObject(r, w[now]); }); if (!same) viol(C01, "pop-result", "PopLocalFrame returned a reference to something else at depth %d", i); }
            if (now != i) alive(i, false, "after its frame was popped");
            if (carry >= 0 && now != carry) alive(carry, false, "after the frame that held it was popped");
            carry = now; carried = mode == 0 ? nullptr : mode == 1 ? nullptr : r;
            if (mode == 1 && (rnd() % 2 || !i)) sut([&] { e->DeleteLocalRef(r); });
            if (i % 8 == 0) rt::progress();
        }
        if (carried) { sut([&] { e->DeleteLocalRef(carried); }); alive(carry, false, "after its last reference was deleted"); }
        for (int i = 0; i < n; i++) sut([&] { e->DeleteWeakGlobalRef(w[i]); });
        break; }
    case 1: case 5: {   // many names
        if (nullmode()) return;
        int n = big ? 90 : 24; Op q = o; uint32_t x = o.b; probe(PR_MANY_IDS); bool one = kind == 5;
        for (int i = 0; i < n; i++) {
            x = x * 1664525u + 1013904223u; q.b = x >> 4; q.c = 2; if (!one) q.a = x >> 8; else q.c = 5;
            sut([&] { e->PushLocalFrame(4); }); do_lookup(t, vm, q); sut([&] { e->PopLocalFrame(nullptr); });
            if (i % 4 == 0) rt::progress();
        }
        break; }
    case 2: {   // many natives of one class
        if (W->c.cfg.world == WORLD_JNIVM || v.pend >= 0 || v.pend_unc || vs.widebusy) return;
        vs.widebusy = 1; rt::edge_acquire(vs.wide_e); probe(PR_MANY_NATIVES); jclass c = clsref(vm, CI_S);
        int n = 6 + o.b % (big ? 58 : 18); std::vector<JNINativeMethod> m(n); std::vector<std::string> nm(n); static const char* const SG[] = {"(IJ)I", "(IJ)J", "(IJ)Z"}; static const int RT[] = {RT_I, RT_J, RT_Z};
        for (int i = 0; i < n; i++) { nm[i] = "wn" + std::to_string(i / 2); m[i].name = (char*)nm[i].c_str(); m[i].signature = (char*)SG[i % 2 + (i / 2 % 3 == 2 && i % 2)]; m[i].fnPtr = br_native_fn(o.c + i, RT[i % 2 + (i / 2 % 3 == 2 && i % 2)]); }
        jint rc = -1; int cut = o.c % 3 ? n : 1 + o.c % n;   // in one go or in two
        bool okk = sut([&] { rc = e->RegisterNatives(c, m.data(), cut); if (!rc && cut < n) rc = e->RegisterNatives(c, m.data() + cut, n - cut); });
        if (okk && rc != 0) viol(C09, "register-failed", "RegisterNatives reports error %d", rc);
        for (int i = 0; okk && i < n; i++) vs.wide[i] = nat_variant(o.c + i, RT[i % 2 + (i / 2 % 3 == 2 && i % 2)]) + 1;
        for (int k = 0; okk && k < 5; k++) {
            int i = (o.c / 4 + k * 29) % n, rt_ = RT[i % 2 + (i / 2 % 3 == 2 && i % 2)], tok = o.uid, variant = vs.wide[i] - 1;
            Call& q = W->calls[tok]; q = Call(); q.armed = true; q.tid = t.id; q.vm = vm; q.env = v.env; q.op = at; q.tag = "sim/S." + nm[i] + m[i].signature; q.keys.insert(K_NATIVE + variant); q.recv = -3; q.self = vs.cls[CI_S];
            bool found = false; jvalue r; memset(&r, 0, sizeof r); int thrown = -1;
            if (!sut([&] { thrown = br_native_call(v.env, c, nullptr, m[i].name, m[i].signature, rt_, tok, tj(tok), nullptr, nullptr, &found, &r); })) break;
            Call& z = W->calls[tok]; z.armed = false;
            if (!found || z.count != 1) viol(C09 | C10 | C08, "native-missing", "the native %s, one of %d, was %s and ran %d times", z.tag.c_str(), n, found ? "found" : "not found", z.count);
            if (thrown != v.pend && !v.pend_unc) viol(C09 | C10 | C11, "native-exception", "invoking native %s reported exception %d to the C++ caller, expected %d", z.tag.c_str(), thrown, v.pend);
            if (thrown < 0 && !ret_ok(rt_, r, tok + (variant & 7))) viol(C09 | C10, "wrong-result", "native %s returned a wrong value", z.tag.c_str());
            if (v.pend >= 0) { v.pend = -1; v.pend_unc = true; }
            if (thrown >= 0 || v.pend_unc) break;
        }
        rt::edge_release(vs.wide_e); vs.widebusy = 0;
        break; }
    case 3: {   // pointers into many strings and arrays held at once
        int n = 4 + o.b % (big ? 60 : 16); std::vector<jobject> r(n); std::vector<const void*> p(n); std::vector<std::string> tx(n); std::vector<int> ord(n); probe(PR_MANY_HELD);
        static const char* const TAIL[] = {"", "\xc3\xa9", "\xe2\x82\xac uro", " and quite a bit more text than fits in a small buffer"};
        auto shape = [&](int i) { return (i + o.c) % 4; };
        sut([&] { e->PushLocalFrame(n); });
        for (int i = 0; i < n; i++) {
            ord[i] = i; tx[i] = "wide" + std::to_string(i) + TAIL[(i + o.a / 8) % 4]; const char* bp = tx[i].c_str(); int len = 1 + i % 7; jint el[8]; for (int k = 0; k < 8; k++) el[k] = i * 100 + k; const jint* ep = el;
            if (i && shape(i) < 2 && i % 5 == 0 && shape(i - 4 > 0 ? i - 4 : 0) < 2 && i >= 4) { r[i] = r[i - 4]; tx[i] = tx[i - 4]; }   // the same string again
            bool mk = !r[i];
            if (!sut([&] { if (mk) { if (shape(i) < 2) r[i] = e->NewStringUTF(bp); else { r[i] = e->NewIntArray(len); e->SetIntArrayRegion((jintArray)r[i], 0, len, ep); } }
                p[i] = shape(i) == 0 ? (const void*)e->GetStringUTFChars((jstring)r[i], nullptr) : shape(i) == 1 ? i % 8 == 1 ? (const void*)e->GetStringCritical((jstring)r[i], nullptr) : (const void*)e->GetStringChars((jstring)r[i], nullptr) : shape(i) == 2 ? (const void*)e->GetIntArrayElements((jintArray)r[i], nullptr) : e->GetPrimitiveArrayCritical((jarray)r[i], nullptr); })) return;
            if (!p[i]) viol(C18, "no-pointer", "no pointer into string or array %d of %d", i, n);
        }
        auto check = [&](int i) {
            if (shape(i) == 0) { if (memcmp(p[i], tx[i].c_str(), tx[i].size() + 1)) viol(C18, "string-content", "the characters of string %d of %d held at once are wrong", i, n); }
            else if (shape(i) == 1) { auto u = utf16(tx[i]); if (memcmp(p[i], u.data(), u.size() * sizeof(jchar))) viol(C18, "string-content", "the characters of string %d of %d held at once are wrong", i, n); }
            else for (int k = 0; k < 1 + i % 7; k++) if (((const jint*)p[i])[k] != i * 100 + k) viol(C18, "array-content", "element %d of array %d of %d held at once is wrong", k, i, n);
        };
        for (int i = 0; i < n; i++) check(i);
        shuffle(ord, o.c);
        for (int j = 0; j < n; j++) { int i = ord[j]; check(i); if (j + 1 < n) check(ord[j + (n - j) / 2]);
            if (!sut([&] { if (shape(i) == 0) e->ReleaseStringUTFChars((jstring)r[i], (const char*)p[i]); else if (shape(i) == 1) { if (i % 8 == 1) e->ReleaseStringCritical((jstring)r[i], (const jchar*)p[i]); else e->ReleaseStringChars((jstring)r[i], (const jchar*)p[i]); } else if (shape(i) == 2) e->ReleaseIntArrayElements((jintArray)r[i], (jint*)p[i], 0); else e->ReleasePrimitiveArrayCritical((jarray)r[i], (void*)p[i], 0); })) return;
            if (j % 8 == 0) rt::progress(); }
        sut([&] { e->PopLocalFrame(nullptr); });
        break; }
    case 4: {   // many monitors held by one thread
        int n = 3 + o.b % (big ? 30 : 9); std::vector<jobject> r(n); std::vector<int> ex; probe(PR_MANY_MONITORS);
        sut([&] { e->PushLocalFrame(n); });
        for (int i = 0; i < n; i++) for (int k = (i + o.c) % 3 == 0 ? 2 : 1; k > 0; k--) {
            jint rc = -1; if (!sut([&] { if (!r[i]) r[i] = i % 2 ? (jobject)e->NewStringUTF("monitor") : (jobject)e->NewIntArray(1); rc = e->MonitorEnter(r[i]); })) return;
            if (rc != 0) viol(C12, "monitor-enter", "entering monitor %d of %d reports %d", i, n, rc);
            ex.push_back(i);
        }
        shuffle(ex, o.c);
        for (int i : ex) { jint rc = -1; if (!sut([&] { jobject l = e->NewLocalRef(r[i]); rc = e->MonitorExit(l); })) return; if (rc != 0) viol(C12, "monitor-exit", "leaving monitor %d of %d reports %d", i, n, rc); }
        sut([&] { e->PopLocalFrame(nullptr); });
        break; }
    }
}
// ---------------------------------------------------------------- one operation
static void exec_body(PT& t, size_t at) {
    Op o = t.ops[at]; rt::progress();
    int vm = o.vm % W->c.cfg.nvm;
    VmS& vs = W->vm[vm]; VT& v = t.v[vm];
    if (o.code == OP_ATTACH) { do_attach(t, vm, o.a); return; }
    if (o.code == OP_FJSCOPE) { do_scope(t, vm, at, o); return; }
    if (o.code == OP_START) { do_start(t, vm, at, o); return; }
    if (o.code == OP_ATTACHFAIL) { if (!v.att) { probe(PR_OP0 + o.code); do_attachfail(t, vm, o); } return; }
    if (!v.att) { if (o.code == OP_GETENV) check_unattached(t, vm); return; }
    JNIEnv* e = v.env;
    rt::count(rt::C_OPS_EFFECT);
    probe(PR_OP0 + o.code);
    switch (o.code) {
    case OP_MK: {
        int nk = W->c.cfg.world ? 6 : 4, kind = KIND_A + o.a % (nk + 2); jobject r = nullptr;
        if (kind - KIND_A >= nk) { int k = (o.a / 16) % 4; if (vs.reg[k] == 2) { rt::edge_acquire(vs.reg_e[k]); kind = KIND_R0 + k; } else kind = KIND_A + (o.a / 16) % nk; }
        if (!sut([&] { r = br_make(e, kind); })) return;
        if (!r) { if (!oomed()) viol(C01, "null-local", "a new object could not be returned as a local reference"); return; }
        int oid = ident_oid(v, r); if (oid < 0) viol(C01, "wrong-local", "a new local reference does not resolve to its object");
        W->o[oid].vm = vm;
        add_local(v, r, oid, C01);
        break; }
    case OP_NEWLOCAL: case OP_GLOBAL2LOCAL: {
        Ref s = pick(t, vm, o.a, M_ANY, o.code == OP_GLOBAL2LOCAL); if (!s.r) return;
        RefHold h(s); jobject r = nullptr, x = s.r;
        bool fj = W->c.cfg.world && (o.b & 3) == 0;
        if (!sut([&] { r = fj ? br_fj_local(x) : e->NewLocalRef(x); })) { soft(v, s.oid); return; }
        if (!r) { if (!oomed()) viol(C01 | C02, "null-local", "NewLocalRef of a valid reference returned null"); return; }
        int oid = ident_oid(v, r); if (oid != s.oid) viol(C01 | C02, "wrong-local", "NewLocalRef of object %d returned a reference to object %d", s.oid, oid);
        add_local(v, r, oid, C01 | C02);
        break; }
    case OP_DELLOCAL: {
        std::vector<std::pair<int, int>> c;
        for (size_t f = 0; f < v.fr.size(); f++) for (size_t i = 0; i < v.fr[f].l.size(); i++) c.push_back({(int)f, (int)i});
        if (c.empty()) return;
        auto p = c[o.a % c.size()];
        LocalEnt l = v.fr[p.first].l[p.second];
        // references to one object are indistinguishable: the innermost entry goes
        int f = v.fr.size() - 1, ix = -1; for (; f >= 0; f--) { for (ix = (int)v.fr[f].l.size() - 1; ix >= 0; ix--) if (v.fr[f].l[ix].oid == l.oid && v.fr[f].l[ix].ref == l.ref) break; if (ix >= 0) break; }
        bool sf = false; for (size_t k = f; k < v.fr.size(); k++) for (int s : v.fr[k].soft) if (s == l.oid) sf = true;
        v.fr[f].l.erase(v.fr[f].l.begin() + ix);
        if (sf) v.fr[f].soft.push_back(l.oid);
        jobject r = l.ref;
        if (!sut([&] { e->DeleteLocalRef(r); })) W->o[l.oid].uncertain = true;
        break; }
    case OP_PUSH: {
        if (v.fr.size() > 6) return;
        jint rc = -1; if (!sut([&] { rc = e->PushLocalFrame(o.a % 20); })) return;
        if (rc != 0) { if (!oomed()) viol(C01, "push-failed", "PushLocalFrame reports error %d", rc); return; }
        v.fr.emplace_back();
        break; }
    case OP_POP: {
        if (v.fr.size() < 2 || t.depth > 1) return;
        Ref s; if (o.a % 2) s = pick(t, vm, o.b, M_ANY);
        RefHold h(s); jobject r = nullptr, x = s.r;
        Frame old = v.fr.back(); v.fr.pop_back();
        if (s.r) v.fr.back().l.push_back({s.r, s.oid});   // held throughout
        bool ok = sut([&] { r = e->PopLocalFrame(x); });
        if (!ok) {   // a pop that fails leaves the frame in place
            if (s.r) v.fr.back().l.pop_back();
            for (auto& l : old.l) old.soft.push_back(l.oid);
            v.fr.push_back(old);
            return;
        }
        if (s.r) {
            v.fr.back().l.pop_back();
            if (oomed()) { W->o[s.oid].uncertain = true; if (!r) return; }
            probe(PR_POP_RESULT);
            if (!r) viol(C01, "pop-result", "PopLocalFrame lost its result");
            int oid = ident_oid(v, r); if (oid != s.oid) viol(C01, "pop-result", "PopLocalFrame returned a reference to object %d instead of %d", oid, s.oid);
            add_local(v, r, oid, C01);
        }
        break; }
    case OP_ENSURE: { jint rc = -1; if (sut([&] { rc = e->EnsureLocalCapacity(o.a % 40); }) && rc != 0 && !oomed()) viol(C01, "ensure-failed", "EnsureLocalCapacity reports error %d", rc); break; }
    case OP_NEWGLOBAL: case OP_NEWWEAK: {
        bool weak = o.code == OP_NEWWEAK; Slot& s = weak ? vs.w[o.a % NW] : vs.g[o.a % NG];
        if (s.st) return;
        Ref x = pick(t, vm, o.b, (o.b & 0x100) || weak ? M_PROBE : M_ANY); if (!x.r) return;
        RefHold h(x); jobject r = nullptr; s.st = 1; s.weak = weak; jobject xr = x.r;
        bool ok = sut([&] { r = weak ? e->NewWeakGlobalRef(xr) : e->NewGlobalRef(xr); });
        if (!ok || !r) { s.st = 0; if (!oomed()) viol(weak ? C03 : C02, "null-global", "a %s reference to a live object could not be created", weak ? "weak" : "global"); return; }
        for (auto& q : W->vm) { for (auto& z : q.g) if (&z != &s && z.st >= 2 && z.ref == r) viol(C02, "global-shared", "two global references are the same reference"); for (auto& z : q.w) if (&z != &s && z.st >= 2 && z.ref == r) viol(C02 | C03, "global-shared", "two global references are the same reference"); }
        if (!weak) { int oid = ident_oid(v, r); if (oid != x.oid) viol(C02, "wrong-global", "a new global reference to object %d resolves to object %d", x.oid, oid); }
        s.ref = r; s.oid = x.oid; s.st = 2; s.owner = t.id; s.busy = 0; memset(&s.use, 0, sizeof s.use); rt::edge_release(s.pub);
        break; }
    case OP_DELGLOBAL: case OP_DELWEAK: {
        bool weak = o.code == OP_DELWEAK; Slot& s = weak ? vs.w[o.a % NW] : vs.g[o.a % NG];
        if (s.st != 2 || s.busy) return;
        rt::edge_acquire(s.pub); rt::edge_acquire(s.use);
        s.st = 3; jobject r = s.ref; int oid = s.oid;
        bool ok = sut([&] { if (weak) e->DeleteWeakGlobalRef((jweak)r); else e->DeleteGlobalRef(r); });
        if (!ok && !weak) W->o[oid].uncertain = true;
        s.st = 0; s.ref = nullptr; s.oid = -1;
        break; }
    case OP_WEAK2LOCAL: case OP_WEAK2GLOBAL: case OP_WEAKCMP: {
        Slot* s = nullptr; for (int i = 0; i < NW; i++) { Slot& x = vs.w[(o.a + i) % NW]; if (x.st == 2) { s = &x; break; } }
        if (!s) return;
        Slot* gs = nullptr;
        if (o.code == OP_WEAK2GLOBAL) { gs = &vs.g[o.b % NG]; if (gs->st) return; gs->st = 1; }
        pin(s);
        int oid = s->oid; jobject w = s->ref, r = nullptr; bool dead0 = !W->o[oid].alive, gone0 = W->o[oid].seen_null;   // sampled before the call
        if (o.code == OP_WEAKCMP) {
            jboolean isnull = 0, same = 1; jobjectRefType ty = JNIInvalidRefType;
            bool ok = sut([&] { isnull = e->IsSameObject(w, nullptr); ty = e->GetObjectRefType(w); });
            if (ok && !oomed()) {
                if (isnull && reachable(oid)) viol(C03 | C23, "weak-lost", "a weak reference reports object %d as gone while it is strongly reachable", oid);
                if (!isnull && dead0) viol(C03 | C23, "weak-zombie", "a weak reference reports the destroyed object %d as alive", oid);
                if (isnull) W->o[oid].seen_null = true; else if (gone0) viol(C03 | C23, "weak-revived", "object %d was reported gone through a weak reference and is reported alive again", oid);
                if (ty != JNIWeakGlobalRefType) viol(C03 | C23, "weak-type", "the type of a weak reference is reported as %d", (int)ty);
                // compare with a strong reference the thread holds
                Ref l = pick(t, vm, o.c, M_PROBE); RefHold h(l);
                if (l.r) { jobject x = l.r; if (sut([&] { same = e->IsSameObject(w, x); }) && !oomed() && (bool)same != (l.oid == oid)) viol(C03 | C23, "weak-compare", "comparing a weak reference to object %d with a reference to object %d yields %d", oid, l.oid, same); }
            }
            unpin(s);
            break;
        }
        bool ok = sut([&] { r = gs ? e->NewGlobalRef(w) : e->NewLocalRef(w); });
        unpin(s);
        if (!ok) { if (gs) gs->st = 0; soft(v, oid); return; }
        if (!r) {
            if (gs) gs->st = 0;
            if (oomed()) return;
            probe(PR_WEAK_DEAD);
            if (reachable(oid)) viol(C03, "weak-lost", "promoting a weak reference to object %d fails while the object is strongly reachable", oid);
            W->o[oid].seen_null = true;
        } else {
            probe(PR_WEAK_ALIVE);
            if (dead0) viol(C03, "weak-zombie", "promoting a weak reference to the destroyed object %d succeeds", oid);
            int got = ident_oid(v, r); if (got != oid) viol(C03, "weak-wrong", "promoting a weak reference to object %d returns object %d", oid, got);
            if (gone0) viol(C03, "weak-revived", "object %d was reported gone through a weak reference and is alive again", oid);
            if (!W->o[oid].alive) viol(C03, "weak-zombie", "promoting a weak reference returned an object that is being destroyed");
            if (gs) { gs->ref = r; gs->oid = oid; gs->st = 2; gs->owner = t.id; gs->busy = 0; memset(&gs->use, 0, sizeof gs->use); rt::edge_release(gs->pub); }
            else add_local(v, r, oid, C03);
        }
        break; }
    case OP_SAME: {
        Ref a = pick_val(t, vm, o.a, M_ANY, o.a >> 8, true), b = pick_val(t, vm, o.b, M_ANY, o.b >> 8, true); RefHold h1(a), h2(b); jboolean r = 0; jobject x = a.r, y = (o.c % 5 == 0) ? nullptr : b.r; int yo = y ? b.oid : -1;
        if (sut([&] { r = e->IsSameObject(x, y); }) && !oomed() && (bool)r != (a.oid == yo)) viol(C01 | C02 | C23, "same-object", "comparing references to objects %d and %d yields %d", a.oid, yo, r);
        break; }
    case OP_REFTYPE: {
        Ref a = pick(t, vm, o.a, M_ANY); if (!a.r) return; RefHold h(a); jobjectRefType ty = JNIInvalidRefType; jobject x = a.r;
        if (sut([&] { ty = e->GetObjectRefType(x); }) && !oomed() && ty != (a.slot ? JNIGlobalRefType : JNILocalRefType)) viol(C02 | C23 | C01, "ref-type", "a %s reference reports type %d", a.slot ? "global" : "local", (int)ty);
        break; }
    case OP_TYPEQ: do_typeq(t, vm, o); break;
    case OP_FINDCLASS: {
        int ci = o.a % NCLS; const void* before = vs.cls[ci]; bool known = cls_known(ci) || (ci >= CI_R0 && ci < CI_R0 + 4 && vs.reg[ci - CI_R0] == 2) || !nullmode(); jclass c = nullptr; const char* n = CLSN[ci];
        if (!sut([&] { c = e->FindClass(n); })) return;
        if (oomed() && !c) return;
        const void* p = c ? br_ident(e, c).obj : nullptr;
        if (p && nullmode() && !cls_known(ci) && !cls_maybe(ci)) viol(C07 | C21, "class-invented", "the unknown class %s was found", n);
        saw_class(vm, ci, p, known, before, C07 | C22);
        if (c) { std::string nm = br_class_name(e, c); if (nm != n) viol(C07, "class-name", "the class found as %s is called %s", n, nm.c_str()); }
        break; }
    case OP_GETMID: {
        int ix = ct_index(o.a);
        const Callable& c = CT[ix];
        if (ix >= CT_REG && ix < CT_REG + 8) { int k = (ix - CT_REG) % 4; if (vs.reg[k] != 2) return; rt::edge_acquire(vs.reg_e[k]); jclass cl = nullptr; if (sut([&] { cl = e->FindClass(c.cls); }) && cl) lookup_mid(v, vm, c, cl, c.cls, false); return; }
        int ci = c.ci; if (ci == CI_A && o.b % 3 == 0) ci = o.b / 3 % 2 ? CI_B : CI_D;   // inherited lookup
        lookup_mid(v, vm, c, clsref(vm, ci), CLSN[ci], false);
        break; }
    case OP_GETFID: {
        int k = o.a % 16;
        if (k < 9) lookup_fid(v, vm, CI_A, PF[k].n, PF[k].sig, false, false, true);
        else if (k < 12) lookup_fid(v, vm, CI_S, k == 9 ? "si" : k == 10 ? "so" : "gsi", k == 10 ? "Lsim/A;" : "I", true, false, true);
        else if (k < 14) lookup_fid(v, vm, CI_A, k == 12 ? "fref" : "gref", "Lsim/A;", false, false, true);
        else lookup_fid(v, vm, o.b % 2 ? CI_B : CI_D, PF[k - 14].n, PF[k - 14].sig, false, false, true);
        break; }
    case OP_CALL: do_call(t, vm, at, o); break;
    case OP_NEWOBJ: do_newobj(t, vm, at, o); break;
    case OP_FPRIM: do_fprim(t, vm, at, o); break;
    case OP_FOBJ: do_fobj(t, vm, at, o); break;
    case OP_SFIELD: do_sfield(t, vm, at, o); break;
    case OP_NEWARR: do_newarr(t, vm, o); break;
    case OP_ARRSET: do_arr(t, vm, o, 0); break;
    case OP_ARRGET: do_arr(t, vm, o, 1); break;
    case OP_CARR: do_arr(t, vm, o, 2); break;
    case OP_NEWPARR: do_newparr(t, vm, o); break;
    case OP_PARRW: do_parr(t, vm, o, true); break;
    case OP_PARRR: do_parr(t, vm, o, false); break;
    case OP_HOLD: do_hold(t, vm, at, o); break;
    case OP_NEWSTR: {
        std::string s = mkstr(o.a); jstring r = nullptr; auto u = utf16(s);
        if (!sut([&] { r = o.b % 2 ? e->NewStringUTF(s.c_str()) : e->NewString(u.data(), u.size()); })) return;
        if (!r) { if (!oomed()) viol(C18 | C10, "null-string", "a string could not be created"); return; }
        int id = new_obj(v, vm, r, KIND_STR); W->o[id].text = s;
        break; }
    case OP_STRCHK: {
        Ref a = pick(t, vm, o.a, 1u << KIND_STR); if (!a.r) return; RefHold h(a); std::string tx = W->o[a.oid].text; auto u = utf16(tx); jstring s = (jstring)a.r;
        jsize l = -1, lu = -1; int n = u.size(), st = o.b % 2 ? o.b / 2 % (n + 1) : 0, ln = o.b % 2 ? o.c % (n - st + 1) : n, rs = 0, re = 0;
        auto width = [&](int i) { return u[i] && u[i] < 0x80 ? 1 : u[i] < 0x800 ? 2 : 3; };
        for (int i = 0; i < st; i++) rs += width(i); re = rs; for (int i = st; i < st + ln; i++) re += width(i);
        std::vector<char> b(re - rs + 2, 0x7f); std::vector<jchar> w(ln + 1, 0x5a5a);
        if (!sut([&] { l = e->GetStringLength(s); lu = e->GetStringUTFLength(s); e->GetStringUTFRegion(s, st, ln, b.data()); e->GetStringRegion(s, st, ln, w.data()); }) || oomed()) return;
        if (l != n || lu != (jsize)tx.size() || memcmp(b.data(), tx.data() + rs, re - rs) || (ln && memcmp(w.data(), u.data() + st, ln * 2)) || b[re - rs + 1] != 0x7f || w[ln] != 0x5a5a) viol(C18 | C14 | C10, "string-content", "string %d does not hold the text it was created with", a.oid);
        break; }
    case OP_NEWBUF: {
        void* p = (void*)(intptr_t)(0x10000 + o.a % 1000 * 16); jlong cap = o.b % 8 ? o.b % 4096 : (jlong)((o.b * 0x9E3779B97F4A7C15ull) >> 1 >> o.b / 8 % 40); jobject r = nullptr;
        if (!sut([&] { r = e->NewDirectByteBuffer(p, cap); })) return;
        if (!r) { if (!oomed()) viol(C18, "null-buffer", "a direct buffer could not be created"); return; }
        int id = new_obj(v, vm, r, KIND_BUF); W->o[id].baddr = p; W->o[id].bcap = cap;
        break; }
    case OP_BUFCHK: {
        Ref a = pick(t, vm, o.a, 1u << KIND_BUF); if (!a.r) return; RefHold h(a); void* p = nullptr; jlong cap = -1; jobject x = a.r;
        if (sut([&] { p = e->GetDirectBufferAddress(x); cap = e->GetDirectBufferCapacity(x); }) && !oomed() && (p != W->o[a.oid].baddr || cap != W->o[a.oid].bcap)) viol(C18, "buffer", "direct buffer %d lost its address or capacity", a.oid);
        break; }
    case OP_THROWNEW: {
        bool nomsg = o.a % 8 == 0;   // the message may be null
        char m[32]; snprintf(m, sizeof m, "sx%d", 20000 + o.uid); jclass c = clsref(vm, CI_THR); jint rc = -1;
        if (!sut([&] { rc = e->ThrowNew(c, nomsg ? nullptr : m); })) { v.pend_unc = true; return; }
        if (oomed()) { v.pend_unc = true; return; }
        if (rc != 0) viol(C11, "throw-failed", "ThrowNew reports error %d", rc);
        v.pend = nomsg ? EX_NOMSG : 20000 + o.uid; v.pend_oid = -1;
        break; }
    case OP_RETHROW: {
        if (o.b % 6 == 0) {   // a throwable that no C++ exception belongs to
            jobject r = nullptr; if (!sut([&] { r = br_make(e, KIND_THR); }) || !r) return;
            int id = new_obj(v, vm, r, KIND_THR); W->o[id].token = EX_BARE; probe(PR_THROW_BARE);
        }
        Ref a = pick(t, vm, o.a, 1u << KIND_THR); if (!a.r) return; RefHold h(a); jint rc = -1; jthrowable x = (jthrowable)a.r;
        if (!sut([&] { rc = e->Throw(x); }) || oomed()) { v.pend_unc = true; return; }
        if (rc != 0) viol(C11, "throw-failed", "Throw reports error %d", rc);
        v.pend = W->o[a.oid].token; v.pend_oid = a.oid; soft(v, a.oid); W->o[a.oid].uncertain = true;
        break; }
    case OP_CLEAR:
        if (o.a % 2 && v.pend >= 0 && !v.pend_unc) {   // asking does not clear, and asking twice yields the same object
            jthrowable th = nullptr; if (sut([&] { th = e->ExceptionOccurred(); e->ExceptionDescribe(); }) && th) {
                int oid = ident_oid(v, th);
                if (oid < 0 || W->o[oid].kind != KIND_THR || W->o[oid].token != v.pend) { oid = new_obj(v, vm, th, KIND_THR); W->o[oid].token = v.pend; } else v.fr.back().l.push_back({th, oid});
                if (v.pend_oid >= 0 && oid != v.pend_oid) viol(C06 | C11, "exception-mixed", "the pending exception of thread %d is another object (%d) than the one thrown before (%d)", t.id, oid, v.pend_oid);
                v.pend_oid = oid; if (o.a % 4 == 1) break;
            }
        }
        check_pending(t, vm); break;
    case OP_BULK: do_bulk(t, vm, o); break;
    case OP_WIDE: do_wide(t, vm, at, o); break;
    case OP_MONITOR: {
        Ref a = pick(t, vm, o.a, M_PROBE); if (!a.r) return; RefHold h(a); int oid = a.oid;
        bool rec = false; for (int m : t.mons) { if (m == oid) rec = true; if (m > oid) return; }
        jobject g = nullptr; { rt::NoFault nf; if (!sut([&] { g = e->NewGlobalRef(a.r); }) || !g) return; }
        bool unc = W->o[oid].uncertain; W->o[oid].uncertain = true;
        if (W->o[oid].mon_owner >= 0 && W->o[oid].mon_owner != t.id) probe(PR_MON_CONTEND);
        if (rec) probe(PR_MON_RECURSE);
        jint rc = -1; sut([&] { rc = e->MonitorEnter(g); });
        if (rc != 0) viol(C12, "monitor-enter", "MonitorEnter reports error %d", rc);
        Obj* ob = &W->o[oid];
        if (ob->mon_count && ob->mon_owner != t.id) viol(C12, "monitor-shared", "threads %d and %d hold the monitor of object %d at the same time", t.id, ob->mon_owner, oid);
        ob->mon_owner = t.id; ob->mon_count++; t.mons.push_back(oid);
        int more = o.b % 64 == 0 ? 240 + o.b / 64 % 60 : o.b % 8 == 1 ? 1 + o.b / 8 % 5 : 0, left = more && o.c % 2 ? more / 2 : more;   // entered many times over
        if (more) { rt::NoFault nf; sut([&] { for (int i = 0; i < more; i++) e->MonitorEnter(g); for (int i = left; i < more; i++) e->MonitorExit(g); }); }
        run_children(t, at);
        if (left) { rt::NoFault nf; sut([&] { for (int i = 0; i < left; i++) e->MonitorExit(g); }); }
        rt::yield_point();
        ob = &W->o[oid];
        if (ob->mon_owner != t.id) viol(C12, "monitor-shared", "the monitor of object %d was taken by thread %d while thread %d holds it", oid, ob->mon_owner, t.id);
        if (!--ob->mon_count) ob->mon_owner = -1;
        t.mons.pop_back();
        rc = -1; sut([&] { rc = e->MonitorExit(g); });
        if (rc != 0) viol(C12, "monitor-exit", "MonitorExit reports error %d", rc);
        W->o[oid].uncertain = unc;
        rt::NoFault nf; sut([&] { e->DeleteGlobalRef(g); });
        break; }
    case OP_DYNHOOK: {
        int k = o.a % 8; jclass c = clsref(vm, CI_S);
        if (vs.dyn[k] == 2 && !vs.dynbusy[k]) {   // replace the implementation
            vs.dyn[k] = 4; rt::edge_acquire(vs.dyn_use[k]); rt::edge_acquire(vs.dyn_e[k]); vs.dynvar[k] = (vs.dynvar[k] + 1) % 4; probe(PR_HOOK_REPLACED);
        } else if (vs.dyn[k]) return;
        else { vs.dyn[k] = 1; vs.dynvar[k] = o.b % 4; }
        bool ok = sut([&] { br_dyn(e, c, k + 8 * vs.dynvar[k]); });
        if (!ok || oomed()) { vs.dyn[k] = 3; return; }
        vs.dyn[k] = 2; rt::edge_release(vs.dyn_e[k]);
        break; }
    case OP_REGTYPE: {
        int k = o.a % 6;
        if (k >= 4) { const void* p = nullptr; if (sut([&] { p = br_getclass(e, k - 4 ? KIND_B : KIND_A); }) && !oomed()) saw_class(vm, k - 4 ? CI_B : CI_A, p, true, p, C07 | C22); return; }
        if (vs.reg[k] || (k >= 2 && t.id != late_owner(k))) return;
        vs.reg[k] = 1;
        bool ok = sut([&] { br_regtype(e, k); });
        if (!ok || oomed()) { vs.reg[k] = 3; return; }
        vs.reg[k] = 2; rt::edge_release(vs.reg_e[k]);
        break; }
    case OP_DETACH: if (t.depth == 1) { do_detach(t, vm); if (t.id == 0) { probe(PR_MAIN_DETACH); if (o.a % 4) do_attach(t, vm, o.b); } } break;
    case OP_GETENV: {
        void* p = nullptr; jint rc = -1; JavaVM* j = vs.vm; if (sut([&] { rc = j->GetEnv(&p, JNI_VERSION_1_6); }) && (rc != 0 || p != e)) viol(C05, "get-env", "GetEnv on an attached thread returns %d and %s environment", rc, p ? "another" : "no");
        break; }
    case OP_GETVM: {
        JavaVM* j = nullptr; jint rc = -1; if (sut([&] { rc = e->GetJavaVM(&j); }) && (rc != 0 || !j || j->functions->reserved0 != vs.vm->functions->reserved0)) viol(C20 | C05, "get-vm", "GetJavaVM does not return the VM of the environment");
        break; }
    case OP_REGNAT: do_regnat(t, vm, o); break;
    case OP_UNREGNAT: do_unregnat(t, vm, o); break;
    case OP_CALLNAT: do_callnat(t, vm, at, o); break;
    case OP_LIBLOAD: do_lib(t, vm, o, 0); break;
    case OP_LIBUNLOAD: do_lib(t, vm, o, 1); break;
    case OP_FJFIND: {
        if (W->c.cfg.world == WORLD_JNIVM) return;
        int ci = o.a % NCLS; const void* before = vs.cls[ci]; const void* p = nullptr; const char* n = CLSN[ci]; bool known = cls_known(ci) || (ci >= CI_R0 && ci < CI_R0 + 4 && vs.reg[ci - CI_R0] == 2) || !nullmode();
        if (!sut([&] { p = br_fj_find(vs.vm, n); })) return;
        if (oomed() && !p) return;
        saw_class(vm, ci, p, known, before, C07 | C16 | C22);
        break; }
    case OP_NATID: if (W->c.cfg.world) do_natid(t, vm, o); break;
    case OP_FJCLASSES: {
        if (W->c.cfg.world == WORLD_JNIVM) return;
        std::vector<int> known; for (int i = 0; i < NCLS; i++) if (vs.cls[i]) known.push_back(i);
        ListCtx l; l.vm = vm; if (!sut([&] { br_fj_classes(vs.vm, list_cb, &l); }) || oomed()) return;
        for (int i : known) if (!l.objs.count(vs.cls[i])) viol(C07 | C16 | C22, "class-missing", "the list of classes does not contain class %s", CLSN[i]);
        break; }
    case OP_FJGLOBAL: {
        if (W->c.cfg.world == WORLD_JNIVM) return;
        Slot& s = vs.g[o.a % NG]; if (s.st) return; Ref x = pick(t, vm, o.b, M_PROBE); if (!x.r) return; RefHold h(x); s.st = 1; s.weak = false; jobject r = nullptr, xr = x.r;
        bool ok = sut([&] { r = br_fj_global(vs.vm, e, xr); });
        if (!ok || !r) { s.st = 0; if (!oomed()) viol(C02 | C16, "null-global", "createGlobalReference returned nothing"); return; }
        int oid = ident_oid(v, r); if (oid != x.oid) viol(C02 | C16, "wrong-global", "createGlobalReference of object %d resolves to object %d", x.oid, oid);
        s.ref = r; s.oid = x.oid; s.st = 2; s.owner = t.id; s.busy = 0; memset(&s.use, 0, sizeof s.use); rt::edge_release(s.pub);
        break; }
    case OP_DENYQ: {
        if (W->c.cfg.world != WORLD_BARON) return;
        int w = o.a % 5;
        if (w == 4) { do_denycls(t, vm, o); break; }
        do_denymem(t, vm, o, w < 2);
        break; }
    case OP_UNRESM: {
        do_unresm(t, vm, o); break; }
    case OP_UNRESF: do_unresf(t, vm, o); break;
    case OP_LOOKUP: do_lookup(t, vm, o); break;
    case OP_REFLECT: {
        bool fld = o.b % 3 == 0; int ix = o.a % 31; jclass cl; bool st; void* id; void* id2 = nullptr; jobject r = nullptr, r2 = nullptr;
        if (fld) {
            static const struct { int ci; const char *n, *s; bool st; } FT[] = {{CI_A, "fi", "I", false}, {CI_A, "fd", "D", false}, {CI_A, "fref", "Lsim/A;", false}, {CI_A, "fstr", "Ljava/lang/String;", false}, {CI_S, "so", "Lsim/A;", true}, {CI_A, "gi", "I", false}};
            auto& f = FT[o.a % 6]; cl = clsref(vm, f.ci); st = f.st; id = lookup_fid(v, vm, f.ci, f.n, f.s, st, true, true);
        } else { const Callable& c = CT[ix]; cl = clsref(vm, c.ci); st = c.stat; id = lookup_mid(v, vm, c, cl, c.cls, true); }
        if (!id) return;
        if (!sut([&] { r = fld ? e->ToReflectedField(cl, (jfieldID)id, st) : e->ToReflectedMethod(cl, (jmethodID)id, st); })) return;
        if (!r) { if (!oomed()) viol(C08, "reflect", "a %s ID could not be turned into an object", fld ? "field" : "method"); return; }
        new_obj(v, vm, r, KIND_CLS);
        std::string n = ""; jclass rc = nullptr; if (sut([&] { rc = e->GetObjectClass(r); }) && rc) { n = br_class_name(e, rc); if (n != (fld ? "java/lang/reflect/Field" : "java/lang/reflect/Method")) viol(C08 | C23, "reflect", "the object of a %s ID is a %s", fld ? "field" : "method", n.c_str()); }
        jobject q = r; int form = o.b / 3 % 3;   // through which kind of reference it comes back
        if (form) { if (!sut([&] { r2 = form == 1 ? e->NewGlobalRef(r) : e->NewWeakGlobalRef(r); }) || !r2) return; q = r2; }
        bool ok = sut([&] { id2 = fld ? (void*)e->FromReflectedField(q) : (void*)e->FromReflectedMethod(q); });
        bool bad = ok && !oomed() && id2 != id;
        ok = sut([&] { id2 = fld ? (void*)e->FromReflectedMethod(q) : (void*)e->FromReflectedField(q); }) && !oomed() && id2;
        if (r2) { rt::NoFault nf; sut([&] { if (form == 1) e->DeleteGlobalRef(r2); else e->DeleteWeakGlobalRef((jweak)r2); }); }
        if (bad) viol(C08, "reflect", "the object of a %s ID yields another ID through a %s reference", fld ? "field" : "method", form == 0 ? "local" : form == 1 ? "global" : "weak");
        if (ok) viol(C08, "reflect", "the object of a %s ID yields an ID of the other sort", fld ? "field" : "method");
        break; }
    case OP_YIELD: rt::yield_point(); break;
    default: break;
    }
}
static void quiescent_check(PT& t) {
    for (auto& p : W->pt) if (&p != &t && p.busy) return;
    probe(PR_QUIESCE_CHECK);
    std::vector<char> m; reach(true, m);
    for (size_t i = 0; i < W->o.size(); i++) {
        Obj& o = W->o[i];
        if (o.alive && isprobe(o.kind) && !m[i]) viol(C01 | C02 | C03 | C04 | C19 | C06, "not-destroyed", "object %d (kind %d) has no reference left but was not destroyed", (int)i, o.kind);
    }
}
static void exec_op(PT& t, size_t at) {
    Op& o = t.ops[at];
    int vm = o.vm % W->c.cfg.nvm;
    bool outer = t.depth == 0;
    rt::op_begin(o.uid);
    rt::count(rt::C_OPS);
    t.busy = true; t.depth++;
    // with an exception pending JNI allows only a few functions
    bool legal = o.code == OP_DELLOCAL || o.code == OP_DELGLOBAL || o.code == OP_DELWEAK || o.code == OP_PUSH || (o.code == OP_POP && o.a % 2 == 0) || o.code == OP_CLEAR || o.code == OP_DETACH || o.code == OP_THROWNEW || o.code == OP_RETHROW;
    if (t.v[vm].att && t.v[vm].pend >= 0 && !t.v[vm].pend_unc && legal && o.uid % 4) { probe(PR_PENDING_OP); }
    else if (t.v[vm].att && (t.v[vm].pend >= 0 || t.v[vm].pend_unc) && o.code != OP_YIELD) { rt::NoFault nf; check_pending(t, vm); }
    exec_body(t, at);
    after_op(t, vm);
    t.depth--;
    rt::op_end();
    if (outer) { t.busy = false; quiescent_check(t); }
}
static void thread_finish(PT& t) {
    rt::op_begin(0xff00 + t.id);
    t.busy = true; t.depth++;
    bool exits = W->c.cfg.world != WORLD_JNIVM && t.v[0].att && (t.ops.size() + t.id) % 2;   // the end of the thread detaches it
    if (exits) { VT& v = t.v[0]; probe(PR_EXIT_ATTACHED); if (v.pend >= 0 && (v.attaches + t.id) % 2) probe(PR_PENDING_DETACH); else { rt::NoFault nf; check_pending(t, 0); } v.fr.clear(); v.detaching = true; W->vm[0].envs.erase(t.id); }
    else for (int i = 0; i < W->c.cfg.nvm; i++) do_detach(t, i);
    t.depth--;
    { rt::NoFault nf; rt::run_thread_exit(); }
    if (exits) { VT& v = t.v[0]; v.detaching = false; v.att = false; v.env = nullptr; v.pend = -1; }
    rt::op_end();
    t.busy = false;
    quiescent_check(t);
}
static void thread_body(void* a);
static void run_ops(PT& t) {
    while (t.pc < t.ops.size()) {
        size_t i = t.pc;
        if (t.ops[i].depth > 0) { t.pc++; continue; }
        rt::op_point();
        if (t.ops[i].code == OP_RESPAWN) {
            t.pc++;
            if (t.id && W->lives + (W->c.cfg.rounds - 1 - W->round) * (W->c.cfg.nthreads - 1) < rt::MAXT - 2) {   // later rounds need their threads
                thread_finish(t);
                rt::count(rt::C_F_THREXIT);
                if (W->c.cfg.simreuse) { rt::count(rt::C_F_IDREUSE); probe(PR_ID_REUSE); } else t.simid += 0x100000;
                W->lives++;
                rt::spawn(thread_body, &t, t.id, t.simid);
                return;
            }
            continue;
        }
        exec_op(t, i);
        t.pc = i + 1;
    }
    if (t.id) thread_finish(t);
}
static void thread_body(void* a) {
    PT& t = *(PT*)a;
    rt::op_begin(0xfe00 + t.id);
    t.busy = true;
    if (W->c.cfg.world == WORLD_JNIVM || !t.ops.size() || !(t.ops[0].code == OP_YIELD && t.ops[0].a % 2)) for (int i = 0; i < W->c.cfg.nvm; i++) if (!t.v[i].att) do_attach(t, i, 0);
    rt::op_end();
    t.busy = false;
    run_ops(t);
}
static void clear_round() {
    PT& t = W->pt[0];
    rt::op_begin(0xfd00);
    t.busy = true; t.depth++;
    rt::NoFault nf;
    for (int i = 0; i < W->c.cfg.nvm; i++) {
        VT& v = t.v[i]; VmS& vs = W->vm[i];
        if (!v.att) do_attach(t, i, 0);
        check_pending(t, i);
        JNIEnv* e = v.env;
        while (v.fr.size() > 1) { v.fr.pop_back(); sut([&] { e->PopLocalFrame(nullptr); }); }
        for (auto& s : vs.g) if (s.st == 2) { rt::edge_acquire(s.use); s.st = 0; jobject r = s.ref; s.oid = -1; sut([&] { e->DeleteGlobalRef(r); }); }
        for (auto& s : vs.w) if (s.st == 2) { rt::edge_acquire(s.use); s.st = 0; jobject r = s.ref; s.oid = -1; sut([&] { e->DeleteWeakGlobalRef((jweak)r); }); }
        if (vs.so_oid >= 0) {
            vs.so_oid = -1; jclass c = clsref(i, CI_S); sut([&] { jfieldID f = e->GetStaticFieldID(c, "so", "Lsim/A;"); e->SetStaticObjectField(c, f, nullptr); });
        }
        // the base frame of the main thread
        v.fr.back().l.clear(); v.fr.back().soft.clear();
        sut([&] { e->PopLocalFrame(nullptr); });
        v.fr.clear(); v.fr.emplace_back();
    }
    for (auto& o : W->o) o.uncertain = false;
    t.depth--;
    rt::op_end(); t.busy = false;
    std::vector<char> m; reach(true, m);
    for (size_t i = 0; i < W->o.size(); i++) if (W->o[i].alive && isprobe(W->o[i].kind) && !m[i])
        viol(C01 | C02 | C03 | C04 | C14 | C19, "leaked-object", "object %d (kind %d) is still alive after every reference was deleted and every thread detached", (int)i, W->o[i].kind);
}
// A VM must work although another one, or the one before it, has been destroyed.
static void smoke(PT& t, int vm, const char* when, uint32_t mask) {
    VmS& vs = W->vm[vm]; VT& v = t.v[vm]; JavaVM* j = vs.vm; JNIEnv* e = nullptr; jint rc = -1; rt::NoFault nf; rt::progress();
    if (!sut([&] { rc = j->AttachCurrentThread(&e, nullptr); }) || rc || !e) { viol(mask | C05, "attach-failed", "the thread cannot attach to a VM %s", when); }
    v.env = e; v.att = true; v.pend = -1; v.pend_unc = false; if (v.fr.empty()) v.fr.emplace_back();
    if (W->c.cfg.world && br_fj_current() != e) viol(mask | C16, "env-wrong", "the current environment is not that of the attached thread %s", when);
    sut([&] { e->PushLocalFrame(8); });
    jclass c[3] = {nullptr}; static const int CI[] = {CI_A, CI_B, CI_S};
    for (int k = 0; k < 3; k++) {
        const char* n = CLSN[CI[k]]; sut([&] { c[k] = e->FindClass(n); });
        if (!c[k]) viol(mask | C07, "class-missing", "the registered class %s is not found %s", n, when);
        const void* p = br_ident(e, c[k]).obj; if (vs.cls[CI[k]] && vs.cls[CI[k]] != p) viol(mask | C07, "class-duplicated", "looking up class %s returns a different class object %s", n, when);
        vs.cls[CI[k]] = p; std::string nm = br_class_name(e, c[k]); if (nm != n) viol(mask | C07, "class-name", "the class found as %s is called %s %s", n, nm.c_str(), when);
    }
    size_t had = W->o.size(); jobject o = nullptr; jboolean yes = 0, no = 1; jmethodID m = nullptr, m2 = nullptr; jlong r = 0; jint r2 = 0;
    sut([&] { o = br_make(e, KIND_B); yes = e->IsInstanceOf(o, c[0]); no = e->IsInstanceOf(o, c[2]); m = e->GetStaticMethodID(c[2], "plain", "(IJ)J"); m2 = e->GetMethodID(c[1], "vfun", "(I)I"); });
    if (!o || !yes || no) viol(mask | C23, "type-wrong", "an object of class sim/B has the wrong type %s", when);
    if (!m || !m2) viol(mask | C08, "id-missing", "a registered method is not found %s", when);
    for (size_t i = had; i < W->o.size(); i++) W->o[i].vm = vm;
    auto arm = [&](int tok, int key, int recv) { Call& q = W->calls[tok]; q = Call(); q.armed = true; q.tid = t.id; q.vm = vm; q.env = e; q.op = t.ops.size(); q.tag = when; q.keys.insert(key); q.recv = recv; };
    arm(50001, K_PLAIN, -1); sut([&] { r = e->CallStaticLongMethod(c[2], m, (jint)50001, tj(50001)); });
    arm(50002, K_VFUN_B, br_ident(e, o).oid); sut([&] { r2 = e->CallIntMethod(o, m2, (jint)50002); });
    if (W->calls[50001].count != 1 || W->calls[50002].count != 1 || r != rvJ(50001) || r2 != rvI(50002)) viol(mask | C10, "call-wrong", "a call has no or the wrong effect %s", when);
    sut([&] { e->MonitorEnter(o); e->MonitorExit(o); jstring s = e->NewStringUTF("again"); e->NewGlobalRef(s); e->PopLocalFrame(nullptr); });
    for (size_t i = had; i < W->o.size(); i++) if (W->o[i].alive) viol(mask | C01, "leaked-object", "an object outlived its frame %s", when);
    probe(PR_SECOND_LIFE);
}
void statics_reset();
void setup_case(const Config& cin) {
    rt::run_begin();
    W = new World;
    W->c.cfg = cin;
    Config& cf = W->c.cfg;
    W->o.reserve(4096);
    if (cf.world) cf.nvm = 1;
    W->pt.reserve(16); W->pt.resize(1);
    W->pt[0].id = 0; W->pt[0].simid = 0x7f5500000000ull;
    rt::set_quiet(true);
    statics_reset();
    PT& m = W->pt[0];
    for (int i = 0; i < cf.nvm; i++) {
        VmS& vs = W->vm[i];
        vs.vm = (JavaVM*)br_vm_new(cf.world, cf.nullmode);
        void* e = nullptr;
        sut([&] { vs.vm->GetEnv(&e, JNI_VERSION_1_6); });
        VT& v = m.v[i]; v.env = (JNIEnv*)e; v.att = true; v.fr.emplace_back(); vs.envs[0] = e;
        sut([&] { v.env->PushLocalFrame(64); });
        br_setup(cf.world, vs.vm, v.env);
        br_env_hook(vs.vm);
        if (cf.world == WORLD_BARON) br_deny(vs.vm);
        for (int c = 0; c < NCLS; c++) if (cls_known(c)) {
            jobject l = nullptr, g = nullptr;
            sut([&] { l = v.env->FindClass(CLSN[c]); g = v.env->NewGlobalRef(l); });
            vs.clsref[c] = g; vs.cls[c] = br_ident(v.env, l).obj;
        }
        sut([&] { v.env->PopLocalFrame(nullptr); });
        // the main thread works in a frame of its own so that it can be emptied
        sut([&] { v.env->PushLocalFrame(0); });
    }
    rt::set_quiet(false);
    rt::pause_init();
}
static uint64_t setup_key_(const Config& c) { return c.world * 16 + c.nvm * 2 + c.nullmode; }
uint64_t setup_key(const Config& c) { Config d = c; if (d.world) d.nvm = 1; return setup_key_(d); }
void run_case(const Case& cin) {
    W->c = cin;
    Config& cf = W->c.cfg;
    if (cf.world) cf.nvm = 1;
    W->pt.resize(cf.nthreads);
    PT& m = W->pt[0];
    for (int i = 0; i < cf.nthreads; i++) { W->pt[i].id = i; W->pt[i].simid = 0x7f5500000000ull + i * 0x1000; W->pt[i].ops.reserve(W->c.ops.size()); }
    for (auto& o : W->c.ops) if (o.tid < cf.nthreads) W->pt[o.tid].ops.push_back(o);
    rt::run_start();
    for (W->round = 0; W->round < cf.rounds; W->round++) {
        if (W->round) { probe(PR_ROUNDS); for (int i = 0; i < cf.nvm; i++) { JNIEnv* e = m.v[i].env; sut([&] { e->PushLocalFrame(0); }); } }
        for (auto& t : W->pt) { t.pc = 0; t.depth = 0; }
        for (int i = 1; i < cf.nthreads; i++) { W->lives++; rt::spawn(thread_body, &W->pt[i], i, W->pt[i].simid); }
        run_ops(m);
        rt::join_all();
        clear_round();
        W->bytes.push_back(rt::live_bytes());
    }
    if (cf.rounds >= 7) {
        bool grow = true; size_t n = W->bytes.size();
        for (size_t i = n - 5; i < n; i++) if (W->bytes[i] <= W->bytes[i - 1]) grow = false;
        // when allocations fail, an operation may get a step further each time it is repeated: only steady growth counts
        if (!W->c.faults.empty()) for (size_t i = n - 4; i < n; i++) if (W->bytes[i] - W->bytes[i - 1] != W->bytes[n - 5] - W->bytes[n - 6] || W->c.profile == "C26") grow = false;
        if (grow) viol(C04 | C01, "memory-grows", "memory in use grows in every repetition of the same work: %llu, %llu, %llu bytes", (unsigned long long)W->bytes[n - 3], (unsigned long long)W->bytes[n - 2], (unsigned long long)W->bytes[n - 1]);
    }
    if (W->c.profile == "C26" || (W->c.seed % 16 == 3 && (W->c.profile == "C14" || W->c.profile == "C22"))) { rt::set_alone(true); for (int i = 0; i < cf.nvm; i++) do_codegen(i); rt::set_alone(false); }
    if (!cf.teardown) rt::finish();
    rt::op_begin(0xfc00);
    for (int i = 0; i < cf.nvm; i++) {
        W->vm[i].closing = true;
        if (i) probe(PR_MULTIVM);
        m.v[i].att = false;
        sut([&] { br_vm_delete(cf.world, W->vm[i].vm); });
        for (auto& o : W->o) if (o.vm == i && o.alive && isprobe(o.kind)) viol(C04, "leaked-object", "object %d is still alive after the VM was destroyed", (int)(&o - &W->o[0]));
        for (int k = i + 1; k < cf.nvm; k++) smoke(m, k, "after another VM was destroyed", C20);
    }
    if (cf.world) check_libs(true);
    if (W->c.seed % 4 == 1) {   // another VM in the same process and thread
        rt::NoFault nf; rt::set_quiet(true); VmS& vs = W->vm[0]; VT& v = m.v[0]; for (auto& c : vs.cls) c = nullptr;
        JNIEnv* e = nullptr; vs.vm = (JavaVM*)br_vm_new(cf.world, cf.nullmode);
        sut([&] { vs.vm->GetEnv((void**)&e, JNI_VERSION_1_6); }); v = VT(); v.env = e;
        if (!e) viol(C20 | C05, "attach-failed", "the thread cannot attach to a VM created after another was destroyed");
        br_setup(cf.world, vs.vm, e);
        rt::set_quiet(false);
        smoke(m, 0, "in a VM created after another was destroyed", C20 | C05 | C16);
        v.att = false; vs.closing = true;
        sut([&] { br_vm_delete(cf.world, vs.vm); });
    }
    rt::run_thread_exit();
    rt::op_end();
    if (W->tickets) viol(C04 | C11, "leaked-exception", "%d exception objects are still alive after the VM was destroyed", W->tickets);
    rt::run_end_leakcheck(true);
    rt::finish();
}
