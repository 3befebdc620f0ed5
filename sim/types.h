// User-side classes and callbacks that the simulated programs register with the library.
#pragma once
#include <fake-jni/fake-jni.h>
#include <baron/baron.h>
#include "rt.h"
#include "keys.h"

class A;
// ---- harness side of the callbacks (world.cpp)
int h_obj_ctor(const void* self, int kind);          // returns oid
void h_obj_copy(int oid);                            // a violation: objects keep their identity
void h_obj_dtor(int oid, const void* self, int kind);
// called (harness mode) when a registered callback runs. May run nested operations and may throw.
void h_enter(int key, int tok, bool argsok, int recv_oid, JNIEnv* env);
std::shared_ptr<A> h_ret_object(int tok);
std::shared_ptr<jnivm::String> h_ret_string(int tok);
int h_oid(const A* a);

class A : public jnivm::Extends<> {
public:
    int oid, kind;
    jint fi = 0; jlong fj = 0; jdouble fd = 0; jfloat ff = 0; jboolean fz = 0; jbyte fb = 0; jchar fc = 0; jshort fs = 0;
    std::shared_ptr<A> ref, gref; std::shared_ptr<jnivm::String> str;
    jint gi = 0; jlong gj = 0; jdouble gd = 0;
    A(int kind = KIND_A) : kind(kind) { rt::Harness h; oid = h_obj_ctor(this, kind); }
    A(const A& o) : kind(o.kind) { rt::Harness h; h_obj_copy(o.oid); }
    virtual ~A() { rt::Harness h; h_obj_dtor(oid, this, kind); }
    jint mfun(jint tok, jlong j);
    jint vfun(jint tok);
    std::shared_ptr<A> samep(A* p, jint tok);
    jlong mshape(jnivm::ENV* env, jint tok, jlong j);
    jlong cshape(jint tok, jlong j) const;
    void setgd(jdouble v);
    static std::string getClassName() { return "sim/A"; }
};
class IfaceP : public jnivm::Extends<> {
public:
    virtual ~IfaceP() {}
    jlong pfj = 0;
};
class Iface : public jnivm::Extends<IfaceP> {
public:
    virtual ~Iface() {}
    jint ifi = 0;
};
class B : public jnivm::Extends<A> {
public:
    B() : A(KIND_B) {}
    jint bfield = 0;
};
class C : public jnivm::Extends<B> {
public:
    C() : A(KIND_C) {}
};
class D : public jnivm::Extends<B, Iface> {
public:
    D() : A(KIND_D) {}
};
// cannot be created by the library
class E : public jnivm::Extends<A> {
public:
    explicit E(int a, int b) : A(KIND_A) {}
};
// FakeJni style class with a native descriptor
class G;
class F : public A {
public:
    DEFINE_CLASS_NAME("sim/pkg/F", A)
    F(int kind = KIND_F) : A(kind) {}
    F(jint tok, jlong j);
    jint ffield = 0;
    static jint fsfield;
    static std::shared_ptr<G> fsg(std::shared_ptr<G> p, jint tok);
    std::shared_ptr<G> fig(std::shared_ptr<G> p, jint tok);
    jint ffun(jint tok, jlong j);
    static jint fstat(jint tok, jlong j);
};
class G : public F {
public:
    DEFINE_CLASS_NAME("sim/pkg/G", F)
    G() : F(KIND_G) {}
    jint gfun(jint tok, jlong j);
};
// Types registered while other threads run (REG_N of them)
template<int N> class Reg : public jnivm::Extends<A> {
public:
    Reg() : A(KIND_R0 + N) {}
};
constexpr int REG_N = 4;

template<class R> struct RV;   // return values
#define RVDEF(T, N) template<> struct RV<T> { static constexpr int idx = RT_##N; static T v(int t) { return rv##N(t); } };
RVDEF(jboolean, Z) RVDEF(jbyte, B) RVDEF(jchar, C) RVDEF(jshort, S) RVDEF(jint, I) RVDEF(jlong, J) RVDEF(jfloat, F) RVDEF(jdouble, D)

// registration entry points (one translation unit each, so that they compile in parallel)
void reg_static(jnivm::ENV* env, jnivm::Class* c);      // "s<R>" on sim/S
void reg_inst(jnivm::ENV* env, jnivm::Class* a);        // "i<R>" on sim/A
void reg_fields(jnivm::ENV* env, jnivm::Class* a, jnivm::Class* s);
void reg_iface(jnivm::ENV* env, jnivm::Class* ip, jnivm::Class* i);
void reg_misc(jnivm::ENV* env, jnivm::Class* a, jnivm::Class* b, jnivm::Class* d, jnivm::Class* s);
void reg_over(jnivm::ENV* env, jnivm::Class* a, jnivm::Class* b, jnivm::Class* d, jnivm::Class* s, jnivm::Class* n);
void reg_dyn(jnivm::ENV* env, jnivm::Class* c, int which);         // hooks installed while running
std::shared_ptr<jnivm::Class> reg_type(jnivm::ENV* env, int which);  // GetClass<Reg<which>>
const char* reg_name(int which);
std::shared_ptr<A> make_probe(int kind);
void fj_register(FakeJni::Jvm* vm);
extern int sim_world;
void h_call_retset(int tok, int oid);
extern const char* const RTSIG[RT_N];
// statics reachable through the hooked static properties
struct Statics { jint si; jlong sj; std::shared_ptr<A> so; jint gsi; jboolean sz; jbyte sb; jchar sc; jshort ss; jfloat sf; jdouble sd, gsd; };
Statics& statics();

