#include "types.h"
using namespace jnivm;
jint A::mfun(jint tok, jlong j) { rt::Harness h; h_enter(K_MFUN, tok, j == tj(tok), oid, nullptr); return RV<jint>::v(tok); }
static std::shared_ptr<A> sp(A* p) { return p ? std::shared_ptr<A>(p->shared_from_this(), p) : nullptr; }
std::shared_ptr<A> A::samep(A* p, jint tok) { { rt::Harness h; h_enter(K_MIX + 7, tok, true, oid, nullptr); } return oid >= 0 ? sp(p) : nullptr; }
jint A::vfun(jint tok) { rt::Harness h; h_enter(K_VFUN_A, tok, true, oid, nullptr); return RV<jint>::v(tok); }
bool h_iscls(int tok, const void* obj);
template<class T, int K> static void oar(ENV* env, Class* s, const char* name) {
    s->Hook(env, name, [](ENV* env, jint tok, std::shared_ptr<Array<T>> p) -> jint {
        std::shared_ptr<T> last; if (p && p->getSize()) last = (*p)[p->getSize() - 1];
        rt::Harness h; h_enter(K_OARR + K, tok, p != nullptr, h_oid(last.get()), env->GetJNIEnv()); return RV<jint>::v(tok); });
}
void reg_shapes(ENV* env, Class* a, Class* s);
template<size_t... I> static void reg_huge(ENV* env, Class* a, Class* s, std::index_sequence<I...>) {
    s->Hook(env, "huge", [](ENV* env, jint tok, typename HugeArg<I>::T... x) -> jdouble { rt::Harness h; h_enter(K_MIX + 33, tok, ((x == HugeArg<I>::v(tok)) && ...), -1, env->GetJNIEnv()); return RV<jdouble>::v(tok); });
    a->HookInstanceFunction(env, "ihuge", [](ENV* env, A* self, jint tok, typename HugeArg<I>::T... x) -> jdouble { rt::Harness h; h_enter(K_MIX + 34, tok, ((x == HugeArg<I>::v(tok)) && ...), h_oid(self), env->GetJNIEnv()); return RV<jdouble>::v(tok); });
}
void reg_misc(ENV* env, Class* a, Class* b, Class* d, Class* s) {
    reg_shapes(env, a, s);
    // hooked twice: the second hook replaces the first
    b->HookInstanceFunction(env, "vfun", [](ENV* env, B* self, jint tok) -> jint { rt::Harness h; h_enter(-1, tok, true, -2, nullptr); return 0; });
    s->Hook(env, "plain", [](ENV*, jint tok, jlong j) -> jlong { rt::Harness h; h_enter(-1, tok, true, -2, nullptr); return 0; });
    a->Hook(env, "mfun", &A::mfun);
    // "vfun": A uses a member function, B a lambda override
    a->HookInstance(env, "vfun", &A::vfun);
    b->HookInstanceFunction(env, "vfun", [](ENV* env, B* self, jint tok) -> jint {
        rt::Harness h; h_enter(K_VFUN_B, tok, true, h_oid(self), env->GetJNIEnv()); return RV<jint>::v(tok); });
    // "wfun": A, B and D each have their own, with and without env / receiver parameters
    a->HookInstanceFunction(env, "wfun", [](Object* self, jint tok) -> jlong {
        rt::Harness h; h_enter(K_WFUN_A, tok, true, h_oid(dynamic_cast<A*>(self)), nullptr); return RV<jlong>::v(tok); });
    b->HookInstanceFunction(env, "wfun", [](ENV* env, Object* self, jint tok) -> jlong {
        rt::Harness h; h_enter(K_WFUN_B, tok, true, h_oid(dynamic_cast<A*>(self)), env->GetJNIEnv()); return RV<jlong>::v(tok); });
    d->HookInstanceFunction(env, "wfun", [](ENV* env, jint tok) -> jlong {
        rt::Harness h; h_enter(K_WFUN_D, tok, true, -2, env->GetJNIEnv()); return RV<jlong>::v(tok); });
    // object parameters
    s->Hook(env, "objarg", [](ENV* env, jint tok, std::shared_ptr<A> p, jfloat f, A* q) -> std::shared_ptr<A> {
        rt::Harness h; h_enter(K_OBJARG, tok, f == tf(tok) && p.get() == q, p ? h_oid(p.get()) : -1, env->GetJNIEnv()); return p; });
    a->HookInstanceFunction(env, "objargi", [](ENV* env, A* self, jlong j, std::shared_ptr<A> p, jint tok) -> std::shared_ptr<A> {
        rt::Harness h; h_enter(K_OBJARGI, tok, j == tj(tok), p ? h_oid(p.get()) : -1, env->GetJNIEnv()); return std::shared_ptr<A>(self->shared_from_this(), self); });
    s->Hook(env, "strarg", [](ENV* env, jint tok, std::shared_ptr<String> p) -> std::shared_ptr<String> {
        rt::Harness h; h_enter(K_STRARG, tok, p && *p == "tok" + std::to_string(tok), -1, env->GetJNIEnv()); return h_ret_string(tok); });
    s->Hook(env, "arrarg", [](ENV* env, std::shared_ptr<Array<jint>> p, jint tok) -> jint {
        rt::Harness h; h_enter(K_ARRARG, tok, p && p->getSize() == 3 && (*p)[0] == RV<jint>::v(tok) && (*p)[2] == RV<jint>::v(tok + 1), -1, env->GetJNIEnv()); return RV<jint>::v(tok); });
    oar<A, 0>(env, s, "oarA"); oar<B, 1>(env, s, "oarB"); oar<C, 2>(env, s, "oarC"); oar<D, 3>(env, s, "oarD");
    // arrays of arrays, classes, null
    s->Hook(env, "mix", [](ENV* env, std::shared_ptr<Array<Array<String>>> p, jint tok, std::shared_ptr<Class> c, jdouble d, std::shared_ptr<Array<Array<jlong>>> q, jlong j, std::shared_ptr<Array<jboolean>> z, jfloat f) -> jdouble {
        rt::Harness h; h_enter(K_MIX, tok, !p && !q && !z && c && d == td(tok) && j == tj(tok) && f == tf(tok) && h_iscls(tok, static_cast<Object*>(c.get())), -1, env->GetJNIEnv()); return RV<jdouble>::v(tok); });
    a->HookInstanceFunction(env, "imix", [](ENV* env, A* self, std::shared_ptr<Array<Array<String>>> p, jint tok, Class* c, jdouble d, std::shared_ptr<Array<Array<jlong>>> q, jlong j, std::shared_ptr<Array<jboolean>> z, jfloat f) -> jdouble {
        rt::Harness h; h_enter(K_MIX + 1, tok, !p && !q && !z && c && d == td(tok) && j == tj(tok) && f == tf(tok) && h_iscls(tok, static_cast<Object*>(c)), h_oid(self), env->GetJNIEnv()); return RV<jdouble>::v(tok); });
    // more arguments than there are registers
#define ARGSBIG jint tok, jlong j1, jdouble d1, jfloat f1, jboolean z1, jlong j2, jlong j3, jdouble d2, jdouble d3, jint i2, jbyte b1, jlong j4, jdouble d4, jfloat f2, jchar c1, jlong j5, jdouble d5, jdouble d6, jshort s1, jlong j6, jdouble d7, jint i3, jlong j7, jdouble d8, jfloat f3
#define OKBIG (j1 == tj(tok) && j2 == tj(tok + 2) && j3 == tj(tok + 3) && j4 == tj(tok + 4) && j5 == tj(tok + 5) && j6 == tj(tok + 6) && j7 == tj(tok + 7) && d1 == td(tok) && d2 == td(tok + 2) && d3 == td(tok + 3) && d4 == td(tok + 4) && d5 == td(tok + 5) && d6 == td(tok + 6) && d7 == td(tok + 7) && d8 == td(tok + 8) && f1 == tf(tok) && f2 == tf(tok + 2) && f3 == tf(tok + 3) && z1 == tz(tok) && i2 == ti(tok + 2) && i3 == ti(tok + 3) && b1 == tb(tok) && c1 == tc(tok) && s1 == ts(tok))
    s->Hook(env, "big", [](ENV* env, ARGSBIG) -> jfloat { rt::Harness h; h_enter(K_MIX + 2, tok, OKBIG, -1, env->GetJNIEnv()); return RV<jfloat>::v(tok); });
    a->HookInstanceFunction(env, "ibig", [](ENV* env, A* self, ARGSBIG) -> jfloat { rt::Harness h; h_enter(K_MIX + 3, tok, OKBIG, h_oid(self), env->GetJNIEnv()); return RV<jfloat>::v(tok); });
    reg_huge(env, a, s, std::make_index_sequence<NHUGE>());
    // returns the object it is given, whatever it is
    s->Hook(env, "same", [](ENV* env, std::shared_ptr<Object> p, jint tok) -> std::shared_ptr<Object> { rt::Harness h; h_enter(K_MIX + 4, tok, true, -1, env->GetJNIEnv()); return p; });
    a->HookInstanceFunction(env, "isame", [](ENV* env, A* self, std::shared_ptr<Object> p, jint tok) -> std::shared_ptr<Object> { rt::Harness h; h_enter(K_MIX + 5, tok, true, h_oid(self), env->GetJNIEnv()); return p; });
    // other ways to take an object: pointers, references
    s->Hook(env, "samep", [](ENV* env, A* p, jint tok) -> std::shared_ptr<A> { { rt::Harness h; h_enter(K_MIX + 6, tok, true, -1, env->GetJNIEnv()); } return sp(p); });
    a->Hook(env, "isamep", &A::samep);
    s->Hook(env, "sref", [](ENV* env, A& p, jint tok) -> std::shared_ptr<A> { { rt::Harness h; h_enter(K_MIX + 8, tok, true, -1, env->GetJNIEnv()); } return sp(&p); });
    s->Hook(env, "samet", [](ENV* env, Throwable* p, jint tok) -> std::shared_ptr<Throwable> { { rt::Harness h; h_enter(K_MIX + 9, tok, true, -1, env->GetJNIEnv()); } return p ? std::shared_ptr<Throwable>(p->shared_from_this(), p) : nullptr; });
    s->Hook(env, "samec", [](ENV* env, jclass p, jint tok) -> std::shared_ptr<Class> { { rt::Harness h; h_enter(K_MIX + 10, tok, true, -1, env->GetJNIEnv()); } auto c = (Class*)p; return p ? std::shared_ptr<Class>(c->shared_from_this(), c) : nullptr; });
    s->Hook(env, "samer", [](ENV* env, jobject p, jint tok) -> jobject { { rt::Harness h; h_enter(K_MIX + 11, tok, true, -1, env->GetJNIEnv()); } return p; });
    s->Hook(env, "strv", [](ENV* env, jint tok, String p, const String& q) -> jint {
        std::string want = "tok" + std::to_string(tok); rt::Harness h; h_enter(K_MIX + 12, tok, p == want && q == want, -1, env->GetJNIEnv()); return RV<jint>::v(tok); });
    s->Hook(env, "plain", [](jint tok, jlong j) -> jlong { rt::Harness h; h_enter(K_PLAIN, tok, j == tj(tok), -1, nullptr); return RV<jlong>::v(tok); });
    a->Hook(env, "<init>", [](ENV* env, jint tok, jlong j) -> std::shared_ptr<A> { rt::Harness h; h_enter(K_CTOR, tok, j == tj(tok), -1, env->GetJNIEnv()); return h_ret_object(tok); });
    b->Hook(env, "<init>", [](ENV* env, jint tok, jlong j) -> std::shared_ptr<B> { rt::Harness h; h_enter(K_CTOR, tok, j == tj(tok), -1, env->GetJNIEnv()); return std::dynamic_pointer_cast<B>(h_ret_object(tok)); });
}
// callbacks that take environment and receiver in other ways
jlong A::mshape(ENV* env, jint tok, jlong j) { rt::Harness h; h_enter(K_MIX + 26, tok, j == tj(tok), oid, env->GetJNIEnv()); return RV<jlong>::v(tok); }
jlong A::cshape(jint tok, jlong j) const { rt::Harness h; h_enter(K_MIX + 27, tok, j == tj(tok), oid, nullptr); return RV<jlong>::v(tok); }
static jlong shape(int k, JNIEnv* e, jint tok, jlong j, const Object* cls, int oid) { rt::Harness h; h_enter(K_MIX + k, tok, j == tj(tok) && (!cls || h_iscls(tok, cls)), oid, e); return RV<jlong>::v(tok); }
static jlong fshape(ENV* env, Class* c, jint tok, jlong j) { return shape(18, env->GetJNIEnv(), tok, j, c, -1); }
static const Object* clsobj(ENV* env, jclass c) { rt::NoEdge ne; return c ? static_cast<Object*>(JNITypes<std::shared_ptr<Class>>::JNICast(env, c).get()) : (const Object*)1; }
static int selfoid(Object* o) { rt::Harness h; return h_oid(dynamic_cast<A*>(o)); }
// members of the second base of D and of the base of that
void reg_iface(ENV* env, Class* ip, Class* i) {
    i->HookInstance(env, "ifi", &Iface::ifi); ip->HookInstanceProperty(env, "pfj", &IfaceP::pfj);
    i->HookInstanceFunction(env, "imeth", [](ENV* env, Iface* self, jint tok, jlong j) -> jlong { return shape(35, env->GetJNIEnv(), tok, j, nullptr, selfoid(self)); });
    ip->HookInstanceFunction(env, "pmeth", [](ENV* env, IfaceP* self, jint tok, jlong j) -> jlong { return shape(36, env->GetJNIEnv(), tok, j, nullptr, selfoid(self)); });
    ip->HookInstanceFunction(env, "imeth2", [](ENV* env, IfaceP* self, jint tok, jlong j) -> jlong { return shape(39, env->GetJNIEnv(), tok, j, nullptr, selfoid(self)); });
    i->HookInstanceFunction(env, "imeth2", [](ENV* env, Iface* self, jint tok, jlong j) -> jlong { return shape(37, env->GetJNIEnv(), tok, j, nullptr, selfoid(self)); });
    ip->Hook(env, "istat", [](JNIEnv* e, Class* c, jint tok, jlong j) -> jlong { return shape(38, e, tok, j, c, -1); });
}
void reg_shapes(ENV* env, Class* a, Class* s) {
    s->Hook(env, "sh0", [](JNIEnv* e, Class* c, jint tok, jlong j) -> jlong { return shape(13, e, tok, j, c, -1); });
    s->Hook(env, "sh1", [](Class* c, jint tok, jlong j) -> jlong { return shape(14, nullptr, tok, j, c, -1); });
    s->Hook(env, "sh2", [](ENV* env, jclass c, jint tok, jlong j) -> jlong { return shape(15, env->GetJNIEnv(), tok, j, clsobj(env, c), -1); });
    s->Hook(env, "sh3", [](JNIEnv* e, jclass c, jint tok, jlong j) -> jlong { return shape(16, e, tok, j, clsobj(ENV::FromJNIEnv(e), c), -1); });
    s->Hook(env, "sh4", [](JNIEnv* e, jint tok, jlong j) -> jlong { return shape(17, e, tok, j, nullptr, -1); });
    s->Hook(env, "sh5", &fshape);
    std::string cap = "a captured string that does not fit into a short one";
    s->Hook(env, "sh6", [cap](ENV* env, jint tok, jlong j) -> jlong { return shape(19, env->GetJNIEnv(), tok, j + (cap.size() != 52), nullptr, -1); });
    s->Hook(env, "sh7", [](ENV* env, jint tok, bool z) -> bool { rt::Harness h; h_enter(K_MIX + 20, tok, z == (bool)tz(tok), -1, env->GetJNIEnv()); return RV<jboolean>::v(tok); });
    a->HookInstanceFunction(env, "ih0", [](JNIEnv* e, A* self, jint tok, jlong j) -> jlong { return shape(21, e, tok, j, nullptr, h_oid(self)); });
    a->HookInstanceFunction(env, "ih1", [](A* self, jint tok, jlong j) -> jlong { return shape(22, nullptr, tok, j, nullptr, h_oid(self)); });
    a->HookInstanceFunction(env, "ih2", [](ENV* env, Object* self, jint tok, jlong j) -> jlong { return shape(23, env->GetJNIEnv(), tok, j, nullptr, selfoid(self)); });
    a->HookInstanceFunction(env, "ih3", [](JNIEnv* e, Object* self, jint tok, jlong j) -> jlong { return shape(24, e, tok, j, nullptr, selfoid(self)); });
    a->HookInstanceFunction(env, "ih4", [](JNIEnv* e, jint tok, jlong j) -> jlong { return shape(25, e, tok, j, nullptr, -2); });
    a->Hook(env, "ih5", &A::mshape);
    a->HookInstance(env, "ih6", &A::cshape);
}
void reg_over(ENV* env, Class* a, Class* b, Class* d, Class* s, Class* n) {
    a->HookInstanceFunction(env, "over", [](ENV* env, A* self, jint tok) -> jlong { rt::Harness h; h_enter(K_OVER, tok, true, h_oid(self), env->GetJNIEnv()); return RV<jlong>::v(tok); });
    a->HookInstanceFunction(env, "over", [](ENV* env, A* self, jlong tok) -> jlong { rt::Harness h; h_enter(K_OVER + 1, (int)tok, true, h_oid(self), env->GetJNIEnv()); return RV<jlong>::v((int)tok); });
    b->HookInstanceFunction(env, "over", [](ENV* env, B* self, jlong tok) -> jlong { rt::Harness h; h_enter(K_OVER + 2, (int)tok, true, h_oid(self), env->GetJNIEnv()); return RV<jlong>::v((int)tok); });
    d->HookInstanceFunction(env, "over", [](ENV* env, D* self, jint tok) -> jlong { rt::Harness h; h_enter(K_OVER + 3, tok, true, h_oid(self), env->GetJNIEnv()); return RV<jlong>::v(tok); });
    s->Hook(env, "sov", [](ENV* env, jint tok) -> jlong { rt::Harness h; h_enter(K_OVER + 4, tok, true, -1, env->GetJNIEnv()); return RV<jlong>::v(tok); });
    s->Hook(env, "sov", [](ENV* env, jlong tok) -> jlong { rt::Harness h; h_enter(K_OVER + 5, (int)tok, true, -1, env->GetJNIEnv()); return RV<jlong>::v((int)tok); });
    // shares its name with a native
    n->Hook(env, "nat0", [](ENV* env, jint tok) -> jlong { rt::Harness h; h_enter(K_OVER + 6, tok, true, -1, env->GetJNIEnv()); return RV<jlong>::v(tok); });
    n->HookInstanceFunction(env, "nat1", [](ENV* env, Object* self, jint tok) -> jlong { rt::Harness h; h_enter(K_OVER + 7, tok, true, h_oid(dynamic_cast<A*>(self)), env->GetJNIEnv()); return RV<jlong>::v(tok); });
}
template<int N> static std::shared_ptr<Class> regt(ENV* env) {
    auto c = env->GetClass<Reg<N>>(reg_name(N));
    c->HookInstanceFunction(env, "regi", [](ENV* env, Reg<N>* self, jint tok) -> jint { rt::Harness h; h_enter(K_REG + N, tok, true, h_oid(self), env->GetJNIEnv()); return RV<jint>::v(tok); });
    c->Hook(env, "regs", [](ENV* env, Class* self, jint tok) -> jlong { rt::Harness h; h_enter(K_REG + 16 + N, tok, true, -1, env->GetJNIEnv()); return RV<jlong>::v(tok); });
    return c;
}
const char* reg_name(int w) { static const char* const n[] = {"sim/late/R0", "sim/late/R1", "sim/late/Outer$R2", "other/R3"}; return n[w]; }
static jint reg2i(ENV* env, Reg<2>* self, jint tok) { rt::Harness h; h_enter(K_REG + 2, tok, true, h_oid(self), env->GetJNIEnv()); return RV<jint>::v(tok); }
static jlong reg2s(ENV* env, jint tok) { rt::Harness h; h_enter(K_REG + 16 + 2, tok, true, -1, env->GetJNIEnv()); return RV<jlong>::v(tok); }
std::shared_ptr<Class> reg_type(ENV* env, int w) {
    if (w == 2 && sim_world != 0) {   // through descriptors
        auto c = env->GetClass<Reg<2>>(reg_name(2));
        FakeJni::LocalFrame frame(3);
        FakeJni::Descriptor d[] = {
            {FakeJni::Function<&reg2i>{}, "regi", FakeJni::JMethodID::PUBLIC},
            {FakeJni::Function<&reg2s>{}, "regs", FakeJni::JMethodID::STATIC}};
        for (auto& x : d) x.registre(env, c.get());
        return c;
    }
    switch (w) { case 0: return regt<0>(env); case 1: return regt<1>(env); case 2: return regt<2>(env); default: return regt<3>(env); }
}
std::shared_ptr<A> make_probe(int kind) {
    switch (kind) {
    case KIND_B: return std::make_shared<B>();
    case KIND_C: return std::make_shared<C>();
    case KIND_D: return std::make_shared<D>();
    case KIND_F: return std::make_shared<F>();
    case KIND_G: return std::make_shared<G>();
    case KIND_R0: return std::make_shared<Reg<0>>();
    case KIND_R1: return std::make_shared<Reg<1>>();
    case KIND_R2: return std::make_shared<Reg<2>>();
    case KIND_R3: return std::make_shared<Reg<3>>();
    default: return std::make_shared<A>();
    }
}
template<int K> static jint dynfn(jint tok, jlong j) { rt::Harness h; h_enter(K_DYN + 24 + K, tok, j == tj(tok), -1, nullptr); return RV<jint>::v(tok); }
template<int K> static void dynhook(ENV* env, Class* c, int var) {
    static const char* const nm[] = {"dyn0", "dyn1", "dyn2", "dyn3", "dyn4", "dyn5", "dyn6", "dyn7"};
    std::string cap(40 + var, 'c');
    switch (var) {   // different types of functions, with and without state
    case 0: c->Hook(env, nm[K], [](ENV* env, Class*, jint tok, jlong j) -> jint { rt::Harness h; h_enter(K_DYN + K, tok, j == tj(tok), -1, env->GetJNIEnv()); return RV<jint>::v(tok); }); break;
    case 1: c->Hook(env, nm[K], [cap](ENV* env, jint tok, jlong j) -> jint { bool ok = cap.size() == 41; rt::Harness h; h_enter(K_DYN + 8 + K, tok, ok && j == tj(tok), -1, env->GetJNIEnv()); return RV<jint>::v(tok); }); break;
    case 3: { jint (*const fn)(jint, jlong) = dynfn<K>; c->Hook(env, nm[K], fn); break; }   // the variable does not outlive the hook
    default: c->Hook(env, nm[K], [cap](jint tok, jlong j) -> jint { bool ok = cap.size() == 42; rt::Harness h; h_enter(K_DYN + 16 + K, tok, ok && j == tj(tok), -1, nullptr); return RV<jint>::v(tok); }); break;
    }
}
void reg_dyn(ENV* env, Class* c, int w) {
    switch (w & 7) {
    case 0: return dynhook<0>(env, c, w / 8); case 1: return dynhook<1>(env, c, w / 8); case 2: return dynhook<2>(env, c, w / 8); case 3: return dynhook<3>(env, c, w / 8);
    case 4: return dynhook<4>(env, c, w / 8); case 5: return dynhook<5>(env, c, w / 8); case 6: return dynhook<6>(env, c, w / 8); default: return dynhook<7>(env, c, w / 8);
    }
}
const char* const RTSIG[RT_N] = {"V", "Z", "B", "C", "S", "I", "J", "F", "D", "Lsim/A;"};

// ---------------------------------------------------------------- FakeJni descriptors
jint F::ffun(jint tok, jlong j) { rt::Harness h; h_enter(K_FFUN, tok, j == tj(tok), oid, nullptr); return RV<jint>::v(tok); }
jint F::fstat(jint tok, jlong j) { rt::Harness h; h_enter(K_FSTAT, tok, j == tj(tok), -1, nullptr); return RV<jint>::v(tok); }
jint G::gfun(jint tok, jlong j) { rt::Harness h; h_enter(K_FFUN + 16, tok, j == tj(tok), oid, nullptr); return RV<jint>::v(tok); }
jint F::fsfield = 0;
static jlong fst(ENV* env, jint tok, jlong j) { return shape(28, env->GetJNIEnv(), tok, j, nullptr, -1); }
static jlong fin(ENV* env, F* self, jint tok, jlong j) { return shape(29, env->GetJNIEnv(), tok, j, nullptr, selfoid(self)); }
F::F(jint tok, jlong j) : A(KIND_F) { rt::Harness h; h_call_retset(tok, oid); h_enter(K_MIX + 32, tok, j == tj(tok), -1, nullptr); }
std::shared_ptr<G> F::fsg(std::shared_ptr<G> p, jint tok) { { rt::Harness h; h_enter(K_MIX + 30, tok, true, -1, nullptr); } return p; }
std::shared_ptr<G> F::fig(std::shared_ptr<G> p, jint tok) { { rt::Harness h; h_enter(K_MIX + 31, tok, true, oid, nullptr); } return p; }
BEGIN_NATIVE_DESCRIPTOR(F)
{FakeJni::Constructor<F>{}},
{FakeJni::Constructor<F, FakeJni::JInt, FakeJni::JLong>{}},
{FakeJni::Field<&F::ffield>{}, "ffield"},
{FakeJni::Field<&F::fsfield>{}, "fsfield", FakeJni::JFieldID::PUBLIC | FakeJni::JFieldID::STATIC},
{FakeJni::Function<&F::fsg>{}, "fsg", FakeJni::JMethodID::STATIC},   // names a class that is registered later
{FakeJni::Function<&F::fig>{}, "fig"},
{FakeJni::Function<&fst>{}, "fst", FakeJni::JMethodID::PUBLIC | FakeJni::JMethodID::STATIC},
{FakeJni::Function<&fin>{}, "fin", FakeJni::JMethodID::PUBLIC},
{FakeJni::Function<&F::ffun>{}, "ffun"},
{FakeJni::Function<&F::fstat>{}, "fstat", FakeJni::JMethodID::PUBLIC | FakeJni::JMethodID::STATIC},
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(G)
{FakeJni::Constructor<G>{}},
{FakeJni::Function<&G::gfun>{}, "gfun"},
END_NATIVE_DESCRIPTOR
void fj_register(FakeJni::Jvm* vm) { vm->registerClass<F>(); vm->registerClass<G>(); }
