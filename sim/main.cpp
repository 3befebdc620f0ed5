// Driver: seeded search over programs, schedules and faults; minimisation; replay; evidence.
#include "gen.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <set>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <functional>

using namespace rt;
static bool g_verbose;
static volatile uint32_t* shm_flag;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Outcome {
    uint32_t status, kind; std::string tag, msg; uint64_t hash, schedhash, mask, steps; std::vector<uint32_t> pcs;
    bool bad() const { return status == 2; }
};
static const char* kind_name(uint32_t k) { static const char* const n[] = {"none", "data race", "memory error", "crash", "deadlock", "livelock", "leak", "model mismatch", "simulator error"}; return k < 9 ? n[k] : "?"; }

static pid_t g_child; static volatile int g_killed;
static void on_alarm(int) { g_killed = 1; if (g_child > 0) kill(g_child, SIGKILL); }
static bool g_template;      // this process has already set up the VMs of its configuration
static Outcome run_one(const Case& c) {
    Shm* s = shm;
    size_t keep = 0; (void)keep;
    // reset outputs
    memset((char*)s + offsetof(Shm, status), 0, offsetof(Shm, sched) - offsetof(Shm, status));
    memset((char*)s + offsetof(Shm, hash), 0, sizeof(Shm) - offsetof(Shm, hash));
    s->pol = c.pol;
    s->nsched_in = 0;
    if (c.pol.mode == P_REPLAY) { s->nsched_in = std::min<size_t>(c.sched.size(), MAXSCHED); std::copy_n(c.sched.begin(), s->nsched_in, s->sched_in); }
    s->nfault = std::min<size_t>(c.faults.size(), MAXFAULT);
    std::copy_n(c.faults.begin(), s->nfault, s->fault);
    s->stepcap = 0; s->verbose = g_verbose;
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        signal(SIGALRM, SIG_DFL);
        if (!g_verbose) { int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(d, 2); }
        if (!g_template) setup_case(c.cfg);
        run_case(c);
        _exit(0);
    }
    int st = 0;
    g_child = p; g_killed = 0;
    struct itimerval it = {{0, 0}, {90, 0}}; setitimer(ITIMER_REAL, &it, 0);
    while (waitpid(p, &st, 0) != p) if (errno != EINTR) break;
    memset(&it, 0, sizeof it); setitimer(ITIMER_REAL, &it, 0);
    bool killed = g_killed;
    Outcome o;
    o.status = s->status; o.kind = s->kind; o.tag = s->tag; o.msg = s->msg; o.hash = s->hash; o.schedhash = s->schedhash; o.mask = s->user[14]; o.steps = s->counters[C_STEPS];
    for (int i = 0; i < 64; i++) o.pcs.push_back(s->pcs[i]);
    if (!o.status) {   // died without a report
        o.status = 2; o.kind = killed ? K_HARNESS : K_CRASH; o.tag = killed ? "watchdog" : "died";
        char b[160]; snprintf(b, sizeof b, killed ? "run killed by the watchdog" : WIFSIGNALED(st) ? "the process died from signal %d" : "the process exited with status %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        o.msg = b;
    }
    return o;
}
static bool g_any;   // development: minimise failures of other properties as well
static bool accepts(const Profile& p, const Outcome& o) {
    if (!o.bad() || o.kind == K_HARNESS) return false;
    if (o.kind != K_MODEL || g_any) return true;
    return (o.mask >> p.bit) & 1;
}
// ---------------------------------------------------------------- symbols
static std::string g_exe;
static std::vector<std::string> symbolise(const std::vector<uint32_t>& pcs) {
    std::vector<std::string> out;
    if (pcs.empty()) return out;
    std::string cmd = "addr2line -f -C -s -e '" + g_exe + "'";
    char b[32];
    for (uint32_t p : pcs) { snprintf(b, sizeof b, " 0x%x", p ? p - 1 : 0); cmd += b; }
    FILE* f = popen((cmd + " 2>/dev/null").c_str(), "r");
    if (!f) return out;
    char fn[4096], ln[1024];
    while (fgets(fn, sizeof fn, f) && fgets(ln, sizeof ln, f)) {
        fn[strcspn(fn, "\n")] = 0; ln[strcspn(ln, "\n")] = 0;
        std::string s = fn; if (s.size() > 140) s = s.substr(0, 140) + "...";
        out.push_back(s + " (" + ln + ")");
    }
    pclose(f);
    return out;
}
static std::string stack_text(const Outcome& o) {
    std::string r;
    auto sec = [&](const char* t, int a, int b) {
        std::vector<uint32_t> p; for (int i = a; i < b && i < (int)o.pcs.size(); i++) if (o.pcs[i] > 2) p.push_back(o.pcs[i]); else if (i > a || o.pcs[i]) break;
        if (p.empty()) return;
        r += std::string("  ") + t + ":\n";
        for (auto& s : symbolise(p)) r += "    " + s + "\n";
    };
    sec("at", 0, 24);
    if (o.kind == K_RACE) sec("earlier access at", 24, 25);
    for (int i = 30; i < 62; i++) {
        if (o.pcs[i] == 1) sec("block allocated at", i + 1, i + 7);
        if (o.pcs[i] == 2) { sec("block freed at", i + 1, i + 7); break; }
        if (!o.pcs[i]) break;
    }
    return r;
}
// ---------------------------------------------------------------- replay files
static void write_case(FILE* f, const Case& c, const Outcome& o, const char* prop, const std::string& extra) {
    fprintf(f, "jnisim-replay 1\nproperty %s\nprofile %s\nseed %llu\n", prop, c.profile.c_str(), (unsigned long long)c.seed);
    fprintf(f, "cfg %d %d %d %d %d %d %d %d\n", c.cfg.world, c.cfg.nvm, c.cfg.nullmode, c.cfg.nthreads, c.cfg.rounds, c.cfg.simreuse, c.cfg.reenter, c.cfg.teardown);
    fprintf(f, "pol %u %u %u %u %llu %u\n", c.pol.mode, c.pol.den, c.pol.d, c.pol.horizon, (unsigned long long)c.pol.seed, c.pol.reuse);
    fprintf(f, "expect %u %s %llu\n", o.kind, o.tag.c_str(), (unsigned long long)o.hash);
    for (auto& x : c.ops) fprintf(f, "op %d %d %d %d %d %u %u %u # %s\n", x.uid, x.code, x.tid, x.depth, x.vm, x.a, x.b, x.c, op_name(x.code));
    for (auto& x : c.faults) fprintf(f, "fault %d %d %u %u # allocation failure in op %d of thread %d at allocation %u%s\n", x.tid, x.op, x.kind, x.n, x.op, x.tid, x.n, x.kind == F_OOM_FROM ? " and all later ones" : "");
    for (auto& x : c.sched) fprintf(f, "sched %d %d %u %d %d # %s switch from life %d (op %d, step %u) to life %d\n", x.tid, x.op, x.k, x.to, x.forced, x.forced ? "forced" : "preemptive", x.tid, x.op, x.k, x.to);
    std::string m = o.msg + "\n" + extra;
    size_t a = 0; while (a < m.size()) { size_t e = m.find('\n', a); if (e == std::string::npos) e = m.size(); fprintf(f, "# %s\n", m.substr(a, e - a).c_str()); a = e + 1; }
}
static bool read_case(const char* path, Case& c, Outcome& o, std::string& prop) {
    FILE* f = fopen(path, "r"); if (!f) return false;
    char line[1024]; bool ok = false; o.status = 2;
    while (fgets(line, sizeof line, f)) {
        char w[128]; unsigned long long u; int n = 0;
        if (sscanf(line, "%100s%n", w, &n) != 1) continue;
        const char* r = line + n; std::string k = w;
        if (k == "jnisim-replay") ok = true;
        else if (k == "property") { sscanf(r, "%100s", w); prop = w; }
        else if (k == "profile") { sscanf(r, "%100s", w); c.profile = w; }
        else if (k == "seed") { sscanf(r, "%llu", &u); c.seed = u; }
        else if (k == "cfg") sscanf(r, "%d %d %d %d %d %d %d %d", &c.cfg.world, &c.cfg.nvm, &c.cfg.nullmode, &c.cfg.nthreads, &c.cfg.rounds, &c.cfg.simreuse, &c.cfg.reenter, &c.cfg.teardown);
        else if (k == "pol") { sscanf(r, "%u %u %u %u %llu %u", &c.pol.mode, &c.pol.den, &c.pol.d, &c.pol.horizon, &u, &c.pol.reuse); c.pol.seed = u; }
        else if (k == "expect") { sscanf(r, "%u %100s %llu", &o.kind, w, &u); o.tag = w; o.hash = u; }
        else if (k == "op") { Op x; int uid, code, tid, depth, vm; sscanf(r, "%d %d %d %d %d %u %u %u", &uid, &code, &tid, &depth, &vm, &x.a, &x.b, &x.c); x.uid = uid; x.code = code; x.tid = tid; x.depth = depth; x.vm = vm; c.ops.push_back(x); }
        else if (k == "fault") { int t, op; FaultEnt x; sscanf(r, "%d %d %u %u", &t, &op, &x.kind, &x.n); x.tid = t; x.op = op; c.faults.push_back(x); }
        else if (k == "sched") { int t, op, to, fo; SchedEnt x; sscanf(r, "%d %d %u %d %d", &t, &op, &x.k, &to, &fo); x.tid = t; x.op = op; x.to = to; x.forced = fo; c.sched.push_back(x); }
    }
    fclose(f);
    return ok;
}
// ---------------------------------------------------------------- minimisation
struct Shrinker {
    const Profile& p; Case best; Outcome bo; double deadline; int tries = 0;
    bool same(const Outcome& o) { return accepts(p, o) && o.kind == bo.kind && (o.tag == bo.tag); }
    bool attempt(Case c) {
        if (now() > deadline) return false;
        tries++;
        Outcome o = run_one(c);
        if (!same(o)) return false;
        best = c; bo = o;
        return true;
    }
    template<class T, class Del> void ddmin(std::vector<T>* (*get)(Case&), Del del) {
        size_t n = get(best)->size();
        for (size_t chunk = (n + 1) / 2; chunk >= 1; chunk /= 2) {
            bool any = true;
            while (any && now() < deadline) {
                any = false;
                for (size_t i = 0; i < get(best)->size();) {
                    Case c = best; auto* v = get(c);
                    size_t e = std::min(i + chunk, v->size());
                    del(c, *v, i, e);
                    if (attempt(c)) any = true; else i += chunk;
                    if (now() > deadline) return;
                }
                if (chunk > 1) break;
            }
            if (chunk == 1) break;
        }
    }
    void normalise_sched() {    // keep only what the run used
        Case c = best; Outcome o = run_one(c);
        if (!same(o)) return;
        std::vector<SchedEnt> s(shm->sched, shm->sched + shm->nsched);
        c.sched = s; c.pol.mode = P_REPLAY;
        attempt(c);
    }
    void run() {
        for (int pass = 0; pass < 3; pass++) {
            size_t before = best.ops.size() + best.faults.size() + best.sched.size();
            if (best.cfg.rounds > 1) for (int r : {1, 2, 4, 7}) if (r < best.cfg.rounds) { Case c = best; c.cfg.rounds = r; if (attempt(c)) break; }
            for (int t = best.cfg.nthreads - 1; t >= 0; t--) { Case c = best; c.ops.erase(std::remove_if(c.ops.begin(), c.ops.end(), [&](const Op& o) { return o.tid == t; }), c.ops.end()); if (c.ops.size() != best.ops.size()) attempt(c); }
            ddmin<FaultEnt>([](Case& c) { return &c.faults; }, [](Case&, std::vector<FaultEnt>& v, size_t a, size_t b) { v.erase(v.begin() + a, v.begin() + b); });
            ddmin<Op>([](Case& c) { return &c.ops; }, [](Case& c, std::vector<Op>& v, size_t a, size_t b) {
                // removing an operation lifts its children
                std::vector<Op> o; for (size_t i = 0; i < v.size(); i++) if (i < a || i >= b) o.push_back(v[i]);
                std::map<int, std::vector<int>> st;
                for (auto& x : o) { auto& k = st[x.tid]; while (!k.empty() && k.back() >= x.depth) k.pop_back(); int d = k.size(); k.push_back(x.depth); x.depth = d; }
                v = o; });
            if (best.pol.mode == P_REPLAY) ddmin<SchedEnt>([](Case& c) { return &c.sched; }, [](Case&, std::vector<SchedEnt>& v, size_t a, size_t b) { v.erase(v.begin() + a, v.begin() + b); });
            if (best.cfg.reenter) { Case c = best; c.cfg.reenter = 0; attempt(c); }
            if (best.cfg.nvm > 1) { Case c = best; c.cfg.nvm = 1; attempt(c); }
            if (best.cfg.world) { Case c = best; c.cfg.world = 0; attempt(c); }
            if (best.pol.reuse) { Case c = best; c.pol.reuse = 0; attempt(c); }
            { int mx = 0; for (auto& o : best.ops) mx = std::max<int>(mx, o.tid); if (mx + 1 < best.cfg.nthreads) { Case c = best; c.cfg.nthreads = mx + 1; attempt(c); } }
            if (best.ops.size() + best.faults.size() + best.sched.size() == before || now() > deadline) break;
        }
    }
};
// ---------------------------------------------------------------- search
static const int MAXHASH = 1 << 19;
struct WorkerStats {
    uint64_t runs, bad_other, harness, steps, nontrivial, nh;
    uint64_t counters[C_N], probes[224], pol[P_NMODES], worlds[3], fault_runs, threads, teardowns;
    uint64_t fail_seed[4]; uint32_t nfail;
    uint64_t other_seed; char other_tag[96];
    uint64_t harness_seed;
    uint64_t hashes[MAXHASH];
};
struct Ctl { volatile int stop; };
// Runs the seeds base + w, base + w + nw, ... A batch is sorted by configuration; one template process per configuration
// sets the VMs up and forks every run of that configuration.
static void run_batches(const Profile& p, uint64_t base, uint64_t w, uint64_t nw, int batch, const std::function<bool()>& stop, const std::function<void(const Case&, const Outcome&)>& done) {
    for (uint64_t i = w; !stop();) {
        std::map<uint64_t, std::vector<Case>> g;
        for (int n = 0; n < batch; n++, i += nw) { Case c = gen_case(p, base + i); g[setup_key(c.cfg)].push_back(std::move(c)); }
        for (auto& e : g) {
            if (stop()) return;
            volatile uint32_t* ok = shm_flag; *ok = 0;
            fflush(stdout); fflush(stderr);
            pid_t q = fork();
            if (q == 0) {
                shm->status = 0;
                int d1 = -1, d2 = -1;
                if (!g_verbose) { fflush(stdout); d1 = dup(1); d2 = dup(2); int d = open("/dev/null", O_WRONLY); dup2(d, 1); dup2(d, 2); close(d); }
                setup_case(e.second[0].cfg);
                g_template = true; *ok = 1;
                if (d1 >= 0) { fflush(stdout); dup2(d1, 1); dup2(d2, 2); close(d1); close(d2); }
                struct itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_VIRTUAL, &z, 0);
                for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) signal(s, SIG_DFL);
                for (auto& c : e.second) { if (stop()) break; Outcome o = run_one(c); done(c, o); }
                _exit(0);
            }
            int st; while (waitpid(q, &st, 0) != q) if (errno != EINTR) break;
            if (!*ok) { Outcome o = run_one(e.second[0]); done(e.second[0], o); }   // the set-up itself fails: repeat it in a run of its own
        }
    }
}

static std::string jstr(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }
static const char* const CNAME[C_N] = {"steps", "memory_accesses", "context_switches", "preemptions", "blocked_waits", "lock_operations", "atomic_operations", "allocations",
    "allocation_failure", "callback_throws", "thread_stall", "destructor_reentry", "callback_reentry", "thread_exit_and_respawn", "thread_id_reuse",
    "dlopen_failure", "onload_throws", "constructor_throws", "weak_dies", "denied_lookup", "operations", "operations_effective"};

static std::string case_text(const Case& c) {
    char b[300];
    snprintf(b, sizeof b, "seed %llu: %s VM x%d%s, %d threads, %d round(s), policy %u/%u/%u, faults %zu%s: ", (unsigned long long)c.seed, c.cfg.world == 0 ? "plain" : c.cfg.world == 1 ? "FakeJni" : "Baron", c.cfg.nvm, c.cfg.nullmode ? " (lookups return null)" : "", c.cfg.nthreads, c.cfg.rounds, c.pol.mode, c.pol.den, c.pol.d, c.faults.size(), c.cfg.reenter ? ", destructor re-entry" : "");
    std::string s = b;
    for (auto& o : c.ops) { char t[80]; snprintf(t, sizeof t, "%s%s[t%d d%d]", &o == &c.ops[0] ? "" : ", ", op_name(o.code), o.tid, o.depth); s += t; }
    if (s.size() > 1500) s = s.substr(0, 1500) + "...";
    return s;
}
static int replay_file(const char* path, bool quiet) {
    Case c; Outcome e; std::string prop;
    if (!read_case(path, c, e, prop)) { fprintf(stderr, "cannot read %s\n", path); return 2; }
    Outcome o = run_one(c);
    bool rep = o.bad() && o.kind == e.kind && o.tag == e.tag && o.hash == e.hash;
    if (!quiet) {
        printf("replay of %s (property %s): %s\n", path, prop.c_str(), rep ? "reproduced exactly" : o.bad() ? "a different failure" : "no failure");
        if (o.bad()) printf("%s/%s: %s\n%s", kind_name(o.kind), o.tag.c_str(), o.msg.c_str(), stack_text(o).c_str());
    }
    return rep ? 1 : o.bad() ? 3 : 0;
}
struct Known { std::string prop, sig, text; };
static std::vector<Known> load_known(const char* path) {
    std::vector<Known> k; FILE* f = path ? fopen(path, "r") : nullptr; if (!f) return k;
    char line[2048];
    while (fgets(line, sizeof line, f)) {   // known: property=<id> match=<text in report> :: <description>
        line[strcspn(line, "\n")] = 0; std::string s = line;
        if (s.compare(0, 6, "known:")) continue;
        size_t a = s.find("property="), b = s.find(" match="), c = s.find(" :: ");
        if (a == std::string::npos || b == std::string::npos || c == std::string::npos) continue;
        k.push_back({s.substr(a + 9, b - a - 9), s.substr(b + 7, c - b - 7), s.substr(c + 4)});
    }
    fclose(f); return k;
}
static const Known* known_match(const std::vector<Known>& ks, const char* prop, const Outcome& o) {
    if (ks.empty()) return nullptr;
    std::string rep;
    for (auto& k : ks) if (k.prop == prop) { if (rep.empty()) rep = std::string(kind_name(o.kind)) + "/" + o.tag + ": " + o.msg + "\n" + stack_text(o);
        // every '&'-separated part has to occur
        bool all = true; size_t i = 0; while (i <= k.sig.size()) { size_t e = k.sig.find('&', i); if (e == std::string::npos) e = k.sig.size(); if (rep.find(k.sig.substr(i, e - i)) == std::string::npos) all = false; i = e + 1; }
        if (all) return &k; }
    return nullptr;
}
int main(int argc, char** argv) {
    {   // fixed addresses: no randomised layout
        int p = personality(0xffffffff);
        if (p >= 0 && !(p & ADDR_NO_RANDOMIZE) && !getenv("JNISIM_NOREEXEC")) { if (personality(p | ADDR_NO_RANDOMIZE) >= 0) { setenv("JNISIM_NOREEXEC", "1", 1); execv("/proc/self/exe", argv); } }
    }
    char ex[4096]; ssize_t el = readlink("/proc/self/exe", ex, sizeof ex - 1); if (el > 0) { ex[el] = 0; g_exe = ex; }
    init_parent();
    signal(SIGALRM, on_alarm);
    shm_flag = (volatile uint32_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::string cmd = argc > 1 ? argv[1] : "";
    auto opt = [&](const char* n, const char* d) -> const char* { for (int i = 2; i + 1 < argc; i++) if (!strcmp(argv[i], n)) return argv[i + 1]; return d; };
    g_any = opt("--any", nullptr) != nullptr;
    g_verbose = opt("--verbose", nullptr) != nullptr;
    if (cmd == "replay" && argc > 2) return replay_file(argv[2], false);
    if (cmd == "one" && argc > 3) {
        const Profile* p = profile_find(argv[2]); if (!p) return 2;
        Case c = gen_case(*p, strtoull(argv[3], 0, 0));
        printf("%s\n", case_text(c).c_str());
        if (opt("--ops", nullptr)) for (auto& o : c.ops) printf("%s\n", op_text(o).c_str());
        Outcome o = run_one(c);
        printf("status %u hash %016llx sched %016llx steps %llu\n", o.status, (unsigned long long)o.hash, (unsigned long long)o.schedhash, (unsigned long long)o.steps);
        if (o.bad()) printf("%s/%s: %s\nmask %llx\n%s", kind_name(o.kind), o.tag.c_str(), o.msg.c_str(), (unsigned long long)o.mask, stack_text(o).c_str());
        return o.bad();
    }
    if (cmd == "hashes" && argc > 4) {   // determinism: print the history hash of a seed range
        const Profile* p = profile_find(argv[2]); if (!p) return 2;
        uint64_t a = strtoull(argv[3], 0, 0), n = strtoull(argv[4], 0, 0);
        if (opt("--template", nullptr)) {   // the way a search runs them
            volatile uint32_t* cnt = shm_flag + 16; *cnt = 0;
            run_batches(*p, a, 0, 1, 96, [&] { return *cnt >= n; }, [&](const Case& c, const Outcome& o) {
                ++*cnt; printf("%s %llu %u %s %016llx %llu\n", p->id, (unsigned long long)c.seed, o.status, o.tag.c_str(), (unsigned long long)o.hash, (unsigned long long)o.steps); fflush(stdout); });
            return 0;
        }
        for (uint64_t i = a; i < a + n; i++) { Outcome o = run_one(gen_case(*p, i)); printf("%s %llu %u %s %016llx %llu\n", p->id, (unsigned long long)i, o.status, o.tag.c_str(), (unsigned long long)o.hash, (unsigned long long)o.steps); }
        return 0;
    }
    if (cmd == "survey") {    // what fails, per profile: development aid
        double secs = atof(opt("--secs", "5")); const char* only = opt("--only", nullptr);
        for (int pi = 0; const Profile* p = profile_at(pi); pi++) {
            if (only && !strstr(only, p->id)) continue;
            double t0 = now(); uint64_t i = strtoull(opt("--from", "1"), 0, 0); volatile uint32_t* cnt = shm_flag + 16; *cnt = 0;
            run_batches(*p, i, 0, 1, 96, [&] { return now() - t0 > secs; }, [&](const Case& c, const Outcome& o) {
                ++*cnt;
                if (!o.bad()) return;
                std::vector<uint32_t> pc(o.pcs.begin(), o.pcs.begin() + 4); auto s = symbolise(pc);
                printf("BAD %s/%s%s%s | %s %llu %s\n", kind_name(o.kind), o.tag.c_str(), o.kind == K_MODEL ? "" : " ", o.kind == K_MODEL || !s.size() ? "" : s[0].c_str(), p->id, (unsigned long long)c.seed, o.msg.substr(0, 200).c_str());
                fflush(stdout);
            });
            int n = *cnt;
            fprintf(stderr, "%s: %d runs\n", p->id, n);
        }
        return 0;
    }
    if (cmd != "check" || argc < 3) { fprintf(stderr, "usage: jnisim check ID --tier T --seed N --secs S --workers W --evidence FILE --replay FILE --known FILE | replay FILE | one ID SEED | hashes ID FROM N\n"); return 2; }
    const Profile* p = profile_find(argv[2]);
    if (!p) { fprintf(stderr, "unknown property %s\n", argv[2]); return 2; }
    std::string tier = opt("--tier", "quick");
    uint64_t vseed = strtoull(opt("--seed", "1"), 0, 0);
    double secs = atof(opt("--secs", "20"));
    uint64_t minruns = strtoull(opt("--minruns", "400"), 0, 0);
    int nw = atoi(opt("--workers", "8"));
    auto known = load_known(opt("--known", nullptr));
    printf("property %s, VERIF_SEED %llu, tier %s, %d workers\n", p->id, (unsigned long long)vseed, tier.c_str(), nw);
    fflush(stdout);
    uint64_t base = vseed * 1000000007ull + 17;
    if (const char* bs = opt("--base", nullptr)) base = strtoull(bs, 0, 0);
    size_t bytes = sizeof(WorkerStats) * nw;
    WorkerStats* ws = (WorkerStats*)mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Ctl* ctl = (Ctl*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now();
    std::vector<pid_t> pids;
    for (int w = 0; w < nw; w++) {
        pid_t q = fork();
        if (q == 0) {
            WorkerStats& s = ws[w];
            shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            shm_flag = (volatile uint32_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            auto done = [&](const Case& c, const Outcome& o) {
                s.runs++; s.pol[c.pol.mode]++; s.worlds[c.cfg.world]++; s.threads += c.cfg.nthreads; s.fault_runs += !c.faults.empty(); s.teardowns += c.cfg.teardown;
                for (int k = 0; k < C_N; k++) s.counters[k] += shm->counters[k];
                for (int k = 0; k < 224; k++) s.probes[k] += shm->probes[k];
                uint64_t f = 0; for (int k = C_F_OOM; k <= C_F_DENY; k++) f += shm->counters[k];
                if (shm->counters[C_OPS_EFFECT] >= 3 && (shm->counters[C_PREEMPT] || f)) { s.nontrivial++; if (s.nh < MAXHASH) s.hashes[s.nh++] = o.hash; }
                if (!o.bad()) return;
                if (o.kind == K_HARNESS) { s.harness++; s.harness_seed = c.seed; return; }
                if (!accepts(*p, o)) { s.bad_other++; s.other_seed = c.seed; strncpy(s.other_tag, o.tag.c_str(), 95); return; }
                if (s.nfail < 4) s.fail_seed[s.nfail++] = c.seed;
                if (!known.empty() && known_match(known, p->id, o)) return;
                ctl->stop = 1;
            };
            auto over = [&] { double el = now() - t0; return (el > secs && s.runs >= minruns / nw) || el > secs * 6 + 60; };
            run_batches(*p, base, w, nw, atoi(opt("--batch", "96")), [&] { return ctl->stop || over(); }, done);
            _exit(0);
        }
        pids.push_back(q);
    }
    for (pid_t q : pids) { int st; waitpid(q, &st, 0); }
    double tsearch = now() - t0;
    // collect
    WorkerStats* S = new WorkerStats(); std::vector<uint64_t> hs; std::vector<uint64_t> fails;
    for (int w = 0; w < nw; w++) {
        WorkerStats& s = ws[w];
        S->runs += s.runs; S->bad_other += s.bad_other; S->harness += s.harness; S->nontrivial += s.nontrivial; S->fault_runs += s.fault_runs; S->threads += s.threads; S->teardowns += s.teardowns;
        for (int k = 0; k < C_N; k++) S->counters[k] += s.counters[k];
        for (int k = 0; k < 224; k++) S->probes[k] += s.probes[k];
        for (int k = 0; k < P_NMODES; k++) S->pol[k] += s.pol[k];
        for (int k = 0; k < 3; k++) S->worlds[k] += s.worlds[k];
        hs.insert(hs.end(), s.hashes, s.hashes + s.nh);
        for (uint32_t k = 0; k < s.nfail; k++) fails.push_back(s.fail_seed[k]);
        if (s.bad_other) { S->other_seed = s.other_seed; strcpy(S->other_tag, s.other_tag); }
        if (s.harness) S->harness_seed = s.harness_seed;
    }
    std::sort(hs.begin(), hs.end()); uint64_t distinct = std::unique(hs.begin(), hs.end()) - hs.begin();
    // failures: separate known findings from violations, minimise the smallest violation
    int rc = 0; uint64_t nviol = 0; std::set<std::string> knownhit; Case pickc; Outcome picko; bool have = false;
    for (uint64_t fs : fails) {
        Case c = gen_case(*p, fs); Outcome o = run_one(c);
        if (!accepts(*p, o)) { fprintf(stderr, "seed %llu failed in a worker but not again: the simulation is not deterministic\n", (unsigned long long)fs); rc = 2; continue; }
        if (const Known* k = known_match(known, p->id, o)) { knownhit.insert(k->text); continue; }
        nviol++;
        if (!have || c.ops.size() < pickc.ops.size()) { have = true; pickc = c; picko = o; pickc.sched.assign(shm->sched, shm->sched + shm->nsched); }
    }
    for (auto& k : known) if (k.prop == p->id) printf("KNOWN-FINDING: property=%s %s\n", p->id, k.text.c_str());
    if (have) {
        rc = 1;
        std::string rpath = opt("--replay", "replay.txt");
        Shrinker sh{*p, pickc, picko, now() + atof(opt("--shrink", "45"))};
        { Case c = pickc; c.pol.mode = P_REPLAY; if (!sh.attempt(c)) { sh.best = pickc; sh.best.sched.clear(); } }
        size_t ops0 = pickc.ops.size(), sch0 = pickc.sched.size();
        sh.run();
        Outcome a = run_one(sh.best), b = run_one(sh.best);
        if (!sh.same(a) || a.hash != b.hash) { fprintf(stderr, "the minimised run does not repeat exactly\n"); rc = 2; }
        std::string st = stack_text(a);
        FILE* f = fopen(rpath.c_str(), "w");
        if (!f) { perror(rpath.c_str()); return 2; }
        write_case(f, sh.best, a, p->id, st); fclose(f);
        // a fresh process has to reproduce it
        pid_t q = fork();
        if (q == 0) { execl("/proc/self/exe", "jnisim", "replay", rpath.c_str(), "--quiet", "1", (char*)0); _exit(9); }
        int ws_ = 0; waitpid(q, &ws_, 0);
        if (!WIFEXITED(ws_) || WEXITSTATUS(ws_) != 1) { fprintf(stderr, "the replay file does not reproduce the failure in a fresh process\n"); rc = 2; }
        printf("seed %llu: %s (%s)\n%s\n%s", (unsigned long long)sh.best.seed, kind_name(a.kind), a.tag.c_str(), a.msg.c_str(), st.c_str());
        printf("minimised from %zu to %zu operations, from %zu to %zu context switches, %zu faults, in %d runs\n", ops0, sh.best.ops.size(), sch0, sh.best.sched.size(), sh.best.faults.size(), sh.tries);
        for (auto& o : sh.best.ops) printf("  %s\n", op_text(o).c_str());
        if (rc == 1) printf("VIOLATION property=%s replay=%s\n", p->id, rpath.c_str());
    }
    if (S->harness * 20 > S->runs) { fprintf(stderr, "%llu of %llu runs ended in a simulator error (seed %llu)\n", (unsigned long long)S->harness, (unsigned long long)S->runs, (unsigned long long)S->harness_seed); if (!rc) rc = 2; }
    double wall = now() - t0;
    printf("%llu runs in %.1f s (%.0f seeds/hour), %llu distinct non-trivial histories, %llu steps, %llu preemptions, %llu injected allocation failures; %llu runs ended on another property (last seed %llu %s), %llu simulator errors (seed %llu)\n", (unsigned long long)S->runs, tsearch, S->runs / tsearch * 3600, (unsigned long long)distinct,
        (unsigned long long)S->counters[C_STEPS], (unsigned long long)S->counters[C_PREEMPT], (unsigned long long)S->counters[C_F_OOM], (unsigned long long)S->bad_other, (unsigned long long)S->other_seed, S->other_tag, (unsigned long long)S->harness, (unsigned long long)S->harness_seed);
    if (const char* ev = opt("--evidence", nullptr)) {
        std::string tmp = std::string(ev) + ".tmp";
        FILE* f = fopen(tmp.c_str(), "w"); if (!f) { perror(ev); return 2; }
        fprintf(f, "{\n \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\",\n \"coverage\": {\n", p->id, tier.c_str(), (unsigned long long)vseed);
        fprintf(f, "  \"evaluations\": %llu, \"distinct_nontrivial\": %llu,\n", (unsigned long long)S->runs, (unsigned long long)distinct);
        fprintf(f, "  \"rule\": %s,\n", jstr("A case is one seed: a random program of JNI operations over 1-5 simulated threads (weights of profile " + std::string(p->id) + "), a scheduling policy and a fault plan. It counts when at least three operations had an effect and the scheduler preempted a thread inside the library or a fault fired; distinct by the hash of the whole history (context switches with their position, callbacks, destructions, results).").c_str());
        fprintf(f, "  \"simulated_runs\": %llu, \"seeds_per_hour\": %.0f, \"simulated_time_ticks\": %llu, \"tick\": \"one scheduling point (instrumented memory access, synchronisation or operation boundary)\",\n", (unsigned long long)S->runs, S->runs / tsearch * 3600, (unsigned long long)S->counters[C_STEPS]);
        fprintf(f, "  \"threads_simulated\": %llu, \"runs_with_vm_teardown_and_leak_check\": %llu, \"runs_by_world\": {\"plain\": %llu, \"FakeJni\": %llu, \"Baron\": %llu},\n", (unsigned long long)S->threads, (unsigned long long)S->teardowns, (unsigned long long)S->worlds[0], (unsigned long long)S->worlds[1], (unsigned long long)S->worlds[2]);
        fprintf(f, "  \"runs_by_policy\": {\"operation_boundaries\": %llu, \"synchronisation_points\": %llu, \"any_access\": %llu, \"priority_change_points\": %llu, \"stalls\": %llu},\n", (unsigned long long)S->pol[P_OPS], (unsigned long long)S->pol[P_SYNC], (unsigned long long)S->pol[P_ACCESS], (unsigned long long)S->pol[P_PCT], (unsigned long long)S->pol[P_STALL]);
        fprintf(f, "  \"activity\": {"); bool first = true;
        for (int k = 0; k < C_N; k++) if (k < C_F_OOM || k > C_F_DENY) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", CNAME[k], (unsigned long long)S->counters[k]); first = false; }
        fprintf(f, "},\n  \"faults_injected\": {"); first = true;
        for (int k = C_F_OOM; k <= C_F_DENY; k++) if (S->counters[k]) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", CNAME[k], (unsigned long long)S->counters[k]); first = false; }
        fprintf(f, "},\n  \"situations_reached\": {"); first = true;
        for (int k = 0; k < 224; k++) if (S->probes[k] && probe_name(k)) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", probe_name(k), (unsigned long long)S->probes[k]); first = false; }
        fprintf(f, "},\n  \"runs_ended_on_another_property\": %llu, \"simulator_errors\": %llu,\n", (unsigned long long)S->bad_other, (unsigned long long)S->harness);
        fprintf(f, "  \"real_components\": [\"every source file of the library under /repo/src and every header under /repo/include, compiled from the working tree\", \"libstdc++ containers, strings, shared_ptr, exceptions\", \"native descriptors and hooks registered through the public API\"],\n");
        fprintf(f, "  \"stubs\": [\"pthread mutex, condition, rwlock, once, self, yield, sleep and clock: simulated\", \"heap: simulated arena with injected failures\", \"thread creation and exit: simulated threads parked and released one at a time\", \"dlopen, dlsym, dlclose: simulated libraries through the LibraryOptions seam\", \"stdout logging: discarded\"],\n");
        fprintf(f, "  \"samples\": [");
        for (int k = 0; k < 3; k++) fprintf(f, "%s%s", k ? ",\n   " : "", jstr(case_text(gen_case(*p, base + k))).c_str());
        fprintf(f, "]\n },\n \"assumptions\": [\"sequentially consistent interleavings of instrumented accesses; weaker orderings are covered only through the happens-before race check\", \"user code keeps the usage rules listed in DESIGN.md\"],\n");
        fprintf(f, " \"wall_s\": %.1f, \"violations\": %llu\n}\n", wall, (unsigned long long)nviol);
        fclose(f); rename(tmp.c_str(), ev);
    }
    return rc;
}
