#include "types.h"
#include "bridge.h"
#include "deny.h"
#include <new>
#include <dlfcn.h>
using namespace jnivm;
int h_ticket(int d);     // world.cpp: live exception tokens
SimEx::SimEx(int t) : tok(t) { rt::Harness h; h_ticket(1); }
SimEx::SimEx(const SimEx& o) : tok(o.tok) { rt::Harness h; h_ticket(1); }
void sim_throw(int tok, bool std) { if (std) throw SimStdEx(tok); throw SimEx(tok); }
SimEx::~SimEx() { rt::Harness h; h_ticket(-1); }

Ident br_ident(JNIEnv* e, jobject r) {
    rt::NoEdge ne;
    if (!r) return {nullptr, -1};
    auto o = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(e), r);
    if (!o) return {nullptr, -1};
    auto a = dynamic_cast<A*>(o.get());
    return {o.get(), a ? a->oid : -1};
}
jobject br_resolve(JNIEnv* e, jobject r) {
    rt::NoEdge ne;
    if (!r) return nullptr;
    return (jobject)JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(e), r).get();
}
void* br_vm_new(int world, bool nullmode) {
    rt::Sut s;
    switch (world) {
    case 0: return (new VM(false, nullmode))->GetJavaVM();
    case 1: return static_cast<JavaVM*>(new FakeJni::Jvm());
    default: return static_cast<JavaVM*>(new Baron::Jvm([](Baron::Jvm*) {}));
    }
}
void br_vm_delete(int world, JavaVM* vm) {
    rt::Sut s;
    switch (world) {
    case 0: delete VM::FromJavaVM(vm); break;
    case 1: delete static_cast<FakeJni::Jvm*>(vm); break;
    default: delete static_cast<Baron::Jvm*>(vm); break;
    }
}
void br_setup(int world, JavaVM* vm, JNIEnv* e) {
    rt::Sut s;
    ENV* env = ENV::FromJNIEnv(e);
    auto a = env->GetClass<A>("sim/A");
    auto ip = env->GetClass<IfaceP>("sim/IfaceP");
    auto ic = env->GetClass<Iface>("sim/Iface");
    auto b = env->GetClass<B>("sim/B");
    env->GetClass<C>("sim/C");
    auto d = env->GetClass<D>("sim/D");
    auto sc = env->GetClass("sim/S");
    auto nc = env->GetClass("sim/N");
    env->GetClass<E>("sim/E");
    reg_static(env, sc.get());
    reg_inst(env, a.get());
    reg_fields(env, a.get(), sc.get());
    reg_misc(env, a.get(), b.get(), d.get(), sc.get());
    reg_iface(env, ip.get(), ic.get());
    reg_over(env, a.get(), b.get(), d.get(), sc.get(), nc.get());
    sim_world = world;
    if (world) fj_register(static_cast<FakeJni::Jvm*>(vm));
}
int sim_world = 0;
template<class T> static jobject mk(ENV* env) {
    std::shared_ptr<T> p;
    p = std::make_shared<T>();
    return JNITypes<std::shared_ptr<T>>::ToJNIReturnType(env, p);
}
jobject br_make(JNIEnv* e, int kind) {
    ENV* env = ENV::FromJNIEnv(e);
    switch (kind) {
    case KIND_B: return mk<B>(env);
    case KIND_THR: return mk<Throwable>(env);
    case KIND_C: return mk<C>(env);
    case KIND_D: return mk<D>(env);
    case KIND_F: return mk<F>(env);
    case KIND_G: return mk<G>(env);
    case KIND_R0: return mk<Reg<0>>(env);
    case KIND_R1: return mk<Reg<1>>(env);
    case KIND_R2: return mk<Reg<2>>(env);
    case KIND_R3: return mk<Reg<3>>(env);
    default: return mk<A>(env);
    }
}
int br_exc_token(JNIEnv* e, jobject th) {
    rt::NoEdge ne;
    if (!th) return -1;
    auto t = JNITypes<std::shared_ptr<Throwable>>::JNICast(ENV::FromJNIEnv(e), th);
    if (!t) return -1;
    if (!t->except) return EX_BARE;
    try { std::rethrow_exception(t->except); }
    catch (const SimEx& x) { return x.tok; }
    catch (const std::exception& x) { const char* w = x.what(); if (w[0] == 's' && w[1] == 'x') return atoi(w + 2); return dynamic_cast<const std::logic_error*>(&x) ? EX_NOMSG : -2; }
    catch (...) { return -2; }
}
std::string br_class_name(JNIEnv* e, jobject c) {
    rt::NoEdge ne;
    return JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(e), c)->getName();
}
void br_dyn(JNIEnv* e, jobject cls, int which) {
    auto c = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(e), cls);
    reg_dyn(ENV::FromJNIEnv(e), c.get(), which);
}
void br_regtype(JNIEnv* e, int which) { reg_type(ENV::FromJNIEnv(e), which); }
const void* br_getclass(JNIEnv* e, int kind) {
    ENV* env = ENV::FromJNIEnv(e);
    std::shared_ptr<Class> c = kind == KIND_B ? env->GetClass<B>("sim/B") : env->GetClass<A>("sim/A");
    return static_cast<Object*>(c.get());
}
int h_call_ret(int tok, int* kind); void h_call_retset(int tok, int oid);
int h_oid(const A* a) { return a ? a->oid : -1; }
std::shared_ptr<A> h_ret_object(int tok) {
    int kind = 0; h_call_ret(tok, &kind);
    std::shared_ptr<A> p;
    { rt::Sut s; p = make_probe(kind); }
    h_call_retset(tok, p->oid);
    return p;
}
std::shared_ptr<String> h_ret_string(int tok) { std::string t = "ret" + std::to_string(tok); rt::Sut s; return std::make_shared<String>(t); }
const char* br_regname(int which) { return reg_name(which); }

template<class T> static Array<T>& arr_view(JNIEnv* e, jobject arr) {
    auto o = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(e), arr);
    return dynamic_cast<Array<T>&>(*o);     // the caller holds the array
}
template<class T> static jobject arr_get(JNIEnv* e, jobject arr, int i, int form) {
    auto& a = arr_view<T>(e, arr); const Array<T>& ca = a; auto env = ENV::FromJNIEnv(e);
    if (form == 1) { T* p = a[i]; return JNITypes<T>::ToJNIType(env, +p); }
    if (form == 2) { if (!a[i]) return nullptr; return JNITypes<T>::ToJNIType(env, a[i].operator->()); }
    if (form == 3) { if (!ca[i]) return nullptr; return JNITypes<T>::ToJNIType(env, *ca[i]); }
    if (form == 4) { std::shared_ptr<T> p = ca[i]; return JNITypes<T>::ToJNIType(env, p); }
    std::shared_ptr<T> p = a[i]; return p ? JNITypes<std::shared_ptr<T>>::ToJNIReturnType(env, p) : nullptr;
}
template<class T> static void arr_set(JNIEnv* e, jobject arr, int i, jobject v, int form) {
    auto p = v ? JNITypes<std::shared_ptr<T>>::JNICast(ENV::FromJNIEnv(e), v) : std::shared_ptr<T>();
    auto& a = arr_view<T>(e, arr);
    if (form == 1) a[i] = p.get(); else if (form == 2 && p) a[i] = *p; else a[i] = std::move(p);
}
jobject br_arr_get(JNIEnv* e, jobject a, int view, int i, int form) {
    switch (view) { case KIND_A: return arr_get<A>(e, a, i, form); case KIND_B: return arr_get<B>(e, a, i, form); case KIND_C: return arr_get<C>(e, a, i, form); case KIND_D: return arr_get<D>(e, a, i, form); case 100: return arr_get<Iface>(e, a, i, form); case 101: return arr_get<IfaceP>(e, a, i, form); default: return arr_get<Object>(e, a, i, form); }
}
void br_arr_set(JNIEnv* e, jobject a, int view, int i, jobject v, int form) {
    switch (view) { case KIND_A: return arr_set<A>(e, a, i, v, form); case KIND_B: return arr_set<B>(e, a, i, v, form); case KIND_C: return arr_set<C>(e, a, i, v, form); case KIND_D: return arr_set<D>(e, a, i, v, form); case 100: return arr_set<Iface>(e, a, i, v, form); case 101: return arr_set<IfaceP>(e, a, i, v, form); default: return arr_set<Object>(e, a, i, v, form); }
}
template<class T> static jobject parr_make(JNIEnv* e, int n, int form, const int* vals, T (*cv)(int)) {
    std::vector<T>* b; { rt::Harness h; b = new std::vector<T>(n + 1); for (int i = 0; i < n; i++) (*b)[i] = cv(vals[i]); }   // form 3 borrows it: it lives as long as the run
    std::shared_ptr<Array<T>> a;
    if (form == 0) { a = std::make_shared<Array<T>>(n); for (int i = 0; i < n; i++) (*a)[i] = (*b)[i]; }
    else if (form == 1) { std::vector<T> w(b->begin(), b->begin() + n); a = std::make_shared<Array<T>>(w); }
    else if (form == 2) { a = std::make_shared<Array<T>>(b->data(), n); for (int i = 0; i < n; i++) (*b)[i] = T(); }
    else a = std::make_shared<Array<T>>(b->data(), n, false);
    return JNITypes<std::shared_ptr<Array<T>>>::ToJNIReturnType(ENV::FromJNIEnv(e), a);
}
jobject br_parr_make(JNIEnv* e, char ty, int n, int form, const int* v) {
    switch (ty) {
    case 'Z': return parr_make<jboolean>(e, n, form, v, rvZ); case 'B': return parr_make<jbyte>(e, n, form, v, rvB); case 'C': return parr_make<jchar>(e, n, form, v, rvC); case 'S': return parr_make<jshort>(e, n, form, v, rvS);
    case 'I': return parr_make<jint>(e, n, form, v, rvI); case 'J': return parr_make<jlong>(e, n, form, v, rvJ); case 'F': return parr_make<jfloat>(e, n, form, v, rvF); default: return parr_make<jdouble>(e, n, form, v, rvD);
    }
}
template<class T> static jobject arr_make(JNIEnv* e, int n, jobject init) {
    auto p = init ? JNITypes<std::shared_ptr<T>>::JNICast(ENV::FromJNIEnv(e), init) : std::shared_ptr<T>();
    auto a = std::make_shared<Array<T>>(n); for (int i = 0; p && i < n; i++) (*a)[i] = p;
    return JNITypes<std::shared_ptr<Array<T>>>::ToJNIReturnType(ENV::FromJNIEnv(e), a);
}
jobject br_arr_make(JNIEnv* e, int kind, int n, jobject init) {
    switch (kind) { case KIND_A: return arr_make<A>(e, n, init); case KIND_B: return arr_make<B>(e, n, init); case KIND_C: return arr_make<C>(e, n, init); case KIND_D: return arr_make<D>(e, n, init);
        case KIND_F: return arr_make<F>(e, n, init); case KIND_G: return arr_make<G>(e, n, init); case 0: return arr_make<String>(e, n, init); case -1: return arr_make<Array<A>>(e, n, init); default: return nullptr; }
}
// ---------------------------------------------------------------- FakeJni / Baron
void* br_env_hold(JavaVM* vm) { auto e = VM::FromJavaVM(vm)->GetEnv(); rt::Harness h; return new std::shared_ptr<jnivm::ENV>(std::move(e)); }
void br_env_drop(void* held) {
    auto p = (std::shared_ptr<jnivm::ENV>*)held; { auto e = std::move(*p); }
    rt::Harness h; delete p;
}
void br_fj_scope(JavaVM* vm, int kind, int cap, void (*fn)(void*, JNIEnv*), void* arg) {
    auto& j = *static_cast<FakeJni::Jvm*>(vm);
    struct Run { static void go(FakeJni::JniEnvContext& c, void (*fn)(void*, JNIEnv*), void* arg) { JNIEnv* e = c.getJniEnv().GetJNIEnv(); rt::Harness h; fn(arg, e); } };
    switch (kind) {
    case 0: { FakeJni::LocalFrame f(j, cap); Run::go(f, fn, arg); break; }
    case 1: { FakeJni::JniEnvContext f(j); Run::go(f, fn, arg); break; }
    case 2: { FakeJni::LocalFrame f(cap); Run::go(f, fn, arg); break; }
    default: { FakeJni::JniEnvContext f; Run::go(f, fn, arg); break; }
    }
}
void h_main(int overload, int n, const std::string* args);
static void run_main(int overload, FakeJni::JArray<FakeJni::JString>* a) {
    std::string s[4]; int n = a ? (int)a->getSize() : -1;
    for (int i = 0; i < n && i < 4; i++) { std::shared_ptr<FakeJni::JString> x = (*a)[i]; s[i] = x ? x->asStdString() : "(null)"; }
    rt::Harness h; h_main(overload, n, s);
}
void br_main_reg(JavaVM* vm, int overload) {
    auto& j = *static_cast<FakeJni::Jvm*>(vm);
    if (overload) FakeJni::createMainMethod(j, [](FakeJni::JArray<FakeJni::JString>* a) { run_main(1, a); });
    else FakeJni::createMainMethod(j, [](std::shared_ptr<FakeJni::JArray<FakeJni::JString>> a) { run_main(0, a.get()); });
}
void br_start(JavaVM* vm, int n, const std::string* args) {
    auto& j = *static_cast<FakeJni::Jvm*>(vm);
    if (n < 0) { j.start(); return; }
    auto a = std::make_shared<FakeJni::JArray<FakeJni::JString>>(n);
    for (int i = 0; i < n; i++) (*a)[i] = std::make_shared<FakeJni::JString>(args[i]);
    j.start(a);
}
void br_fj_classes(JavaVM* vm, void (*cb)(void*, const void*, const char*), void* arg) {
    auto l = static_cast<FakeJni::Jvm*>(vm)->getClasses();
    rt::Harness h; rt::NoEdge ne;
    for (auto& c : l) { std::string n = c->getName(); cb(arg, static_cast<Object*>(c.get()), n.c_str()); }
}
jobject br_fj_local(jobject r) {
    auto e = FakeJni::JniEnv::getCurrentEnv();
    return e->createLocalReference(e->resolveReference(r));
}
JNIEnv* br_fj_current() {
    rt::NoEdge ne;
    auto e = FakeJni::JniEnv::getCurrentEnv();
    return e ? e->GetJNIEnv() : nullptr;
}
const void* br_fj_find(JavaVM* vm, const char* name) {
    auto c = static_cast<FakeJni::Jvm*>(vm)->findClass(name);
    return c ? static_cast<Object*>(c.get()) : nullptr;
}
jobject br_fj_global(JavaVM* vm, JNIEnv* e, jobject r) {
    auto o = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(e), r);
    return static_cast<FakeJni::Jvm*>(vm)->createGlobalReference(o);
}
void br_deny(JavaVM* vm) {
    rt::Sut s;
    auto b = static_cast<Baron::Jvm*>(vm);
    int i = 0;   // both names of the interface
    for (auto c : DENY_C) i++ % 3 ? b->denyClass(c) : b->blacklistClass(c);
    for (auto& r : DENY_M) i++ % 3 ? b->denyMethod(r.n, r.s, r.c) : b->blacklistMethod(r.n, r.s, r.c);
    for (auto& r : DENY_F) i++ % 3 ? b->denyField(r.n, r.s, r.c) : b->blacklistField(r.n, r.s, r.c);
}
const void* br_class_of(JNIEnv* e, jobject x) {
    auto o = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(e), x);
    return static_cast<Object*>(&o->getClass());
}
bool br_class_denied(JavaVM* vm, bool old, const char* n) { auto b = static_cast<Baron::Jvm*>(vm); return old ? b->isClassBlacklisted(n) : b->isClassDenied(n); }
bool br_is_denied(JavaVM* vm, bool meth, bool old, const char* n, const char* s, const char* c) {
    auto b = static_cast<Baron::Jvm*>(vm);
    if (old) return meth ? b->isMethodBlacklisted(n, s, c) : b->isFieldBlacklisted(n, s, c);
    return meth ? b->isMethodDenied(n, s, c) : b->isFieldDenied(n, s, c);
}
void h_env_hook();
void br_env_hook(JavaVM* vm) { rt::Sut s; VM::FromJavaVM(vm)->AddHook([](JNINativeInterface&) { rt::Harness h; h_env_hook(); }); }
const void* br_vm_env(JavaVM* vm) { return VM::FromJavaVM(vm)->GetEnv().get(); }
// simulated shared objects (dlopen/dlsym/dlclose are the library's own seam)
void* h_dlopen(const char* n); void* h_dlsym(void* h, const char* s); int h_dlclose(void* h);
static void* s_open(const char* n, int) { rt::Harness h; return h_dlopen(n); }
static void* s_sym(void* hd, const char* n) { rt::Harness h; return h_dlsym(hd, n); }
static int s_close(void* hd) { rt::Harness h; return h_dlclose(hd); }
void br_lib_attach(JavaVM* vm, const char* path) {
    static_cast<FakeJni::Jvm*>(vm)->attachLibrary(path, "", FakeJni::LibraryOptions(s_open, s_sym, s_close));
}
void br_lib_remove(JavaVM* vm, const char* path) { static_cast<FakeJni::Jvm*>(vm)->removeLibrary(path); }
void h_native(int variant, JNIEnv* e, jobject self, jint tok, jlong j, bool argsok);
jobject h_native_obj(int variant, JNIEnv* e, jobject self, jint tok, jlong j, jobject a, jstring s);
template<class T, int V> static T nat(JNIEnv* e, jobject self, jint tok, jlong j) { rt::Harness h; h_native(V + 8 * RV<T>::idx, e, self, tok, j, true); return RV<T>::v(tok + V); }
template<int V> static void natv(JNIEnv* e, jobject self, jint tok, jlong j) { rt::Harness h; h_native(V + 8 * RT_V, e, self, tok, j, true); }
template<int V> static jdouble natd(JNIEnv* e, jobject self, jint tok, jlong j, jdouble d, jboolean z, jbyte b, jchar c, jshort s, jfloat f) {
    rt::Harness h; h_native(V + 8 * RT_D, e, self, tok, j, d == td(tok) && z == tz(tok) && b == tb(tok) && c == tc(tok) && s == ts(tok) && f == tf(tok)); return RV<jdouble>::v(tok + V); }
template<int V> static jobject natl(JNIEnv* e, jobject self, jint tok, jlong j, jobject a, jstring s) { rt::Harness h; return h_native_obj(V + 8 * RT_L, e, self, tok, j, a, s); }
template<int V> static void* natfn(int rtype) {
    switch (rtype) {
    case RT_V: return (void*)&natv<V>; case RT_Z: return (void*)&nat<jboolean, V>; case RT_B: return (void*)&nat<jbyte, V>; case RT_C: return (void*)&nat<jchar, V>; case RT_S: return (void*)&nat<jshort, V>;
    case RT_J: return (void*)&nat<jlong, V>; case RT_F: return (void*)&nat<jfloat, V>; case RT_D: return (void*)&natd<V>; case RT_L: return (void*)&natl<V>; default: return (void*)&nat<jint, V>;
    }
}
void* br_native_fn(int v, int rtype) {
    switch (v & 7) {
    case 0: return natfn<0>(rtype); case 1: return natfn<1>(rtype); case 2: return natfn<2>(rtype); case 3: return natfn<3>(rtype);
    case 4: return natfn<4>(rtype); case 5: return natfn<5>(rtype); case 6: return natfn<6>(rtype); default: return natfn<7>(rtype);
    }
}
template<class C> static jvalue nat_invoke(MethodProxy& m, JNIEnv* e, C* c, int rtype, jint tok, jlong j, jobject a, jstring s) {
    if (rtype == RT_D) return m->invoke(*e, c, tok, j, td(tok), tz(tok), tb(tok), tc(tok), ts(tok), tf(tok));
    if (rtype == RT_L) {
        auto env = ENV::FromJNIEnv(e); auto o = JNITypes<std::shared_ptr<A>>::JNICast(env, a); auto t = JNITypes<std::shared_ptr<String>>::JNICast(env, s);
        if ((tok & 3) == 3) { auto ob = JNITypes<std::shared_ptr<Object>>::JNICast(env, a); return m->invoke(*e, c, tok, j, ob, t); }
        return m->invoke(*e, c, tok, j, o, t);
    }
    return m->invoke(*e, c, tok, j);
}
int br_native_call(JNIEnv* e, jobject cls, jobject recv, const char* name, const char* sig, int rtype, jint tok, jlong j, jobject a, jstring s, bool* found, jvalue* r) {
    auto c = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(e), cls);
    auto m = c->getMethod(sig, name);
    *found = (bool)static_cast<const MethodProxy&>(m);
    if (!*found) return -1;
    try {
        if (recv) { auto o = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(e), recv); *r = nat_invoke(m, e, o.get(), rtype, tok, j, a, s); }
        else *r = nat_invoke(m, e, c.get(), rtype, tok, j, a, s);
        return -1;
    }
    catch (const SimEx& x) { return x.tok; }
    catch (const std::runtime_error& x) {
        const char* w = x.what();
        if (w[0] == 's' && w[1] == 'x') return atoi(w + 2);
        if (!strncmp(w, "No such", 7)) { *found = false; return -1; }
        if (strstr(w, "without Message")) return EX_BARE;
        throw;
    }
    catch (const std::logic_error&) { return EX_NOMSG; }
}
enum { SH_8, SH_IJ, SH_I, SH_J, SH_OBJ, SH_OBJI, SH_IZ, SH_STR, SH_ARR, SH_SAMEO, SH_SAMEA };
template<class C> static jvalue cpp_invoke(MethodProxy& m, JNIEnv* e, C* c, int shape, jint tok, jobject a) {
    auto env = ENV::FromJNIEnv(e);
    switch (shape) {
    case SH_8: return m->invoke(*e, c, tok, tj(tok), td(tok), tz(tok), tb(tok), tc(tok), ts(tok), tf(tok));
    case SH_IJ: return m->invoke(*e, c, tok, tj(tok));
    case SH_I: return m->invoke(*e, c, tok);
    case SH_J: return m->invoke(*e, c, (jlong)tok);
    case SH_OBJ: { auto o = JNITypes<std::shared_ptr<A>>::JNICast(env, a); return m->invoke(*e, c, tok, o, tf(tok), o); }
    case SH_OBJI: { auto o = JNITypes<std::shared_ptr<A>>::JNICast(env, a); return m->invoke(*e, c, tj(tok), o, tok); }
    case SH_IZ: return m->invoke(*e, c, tok, tz(tok));
    case SH_STR: { auto o = JNITypes<std::shared_ptr<String>>::JNICast(env, a); return m->invoke(*e, c, tok, o, o); }
    case SH_ARR: { auto o = JNITypes<std::shared_ptr<Array<jint>>>::JNICast(env, a); return m->invoke(*e, c, o, tok); }
    case SH_SAMEA: { auto o = JNITypes<std::shared_ptr<A>>::JNICast(env, a); return m->invoke(*e, c, o, tok); }
    default: { auto o = JNITypes<std::shared_ptr<Object>>::JNICast(env, a); return m->invoke(*e, c, o, tok); }
    }
}
int br_cpp_call(JNIEnv* e, jobject cls, jobject recv, const char* name, const char* sig, int shape, int, jint tok, jobject a, bool* found, jvalue* r) {
    auto c = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(e), cls);
    auto m = c->getMethod(sig, name);
    *found = (bool)static_cast<const MethodProxy&>(m);
    if (!*found) return -1;
    try {
        if (recv) { auto o = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(e), recv); *r = cpp_invoke(m, e, o.get(), shape, tok, a); }
        else *r = cpp_invoke(m, e, c.get(), shape, tok, a);
        return -1;
    }
    catch (const SimEx& x) { return x.tok; }
    catch (const std::runtime_error& x) { const char* w = x.what(); if (w[0] == 's' && w[1] == 'x') return atoi(w + 2); if (!strncmp(w, "No such", 7)) { *found = false; return -1; } if (strstr(w, "without Message")) return EX_BARE; throw; }
    catch (const std::logic_error&) { return EX_NOMSG; }
}
void br_codegen(JavaVM* vm, int which, void (*cb)(void*, const char*, size_t), void* arg) {
    VM* v = VM::FromJavaVM(vm);
    std::string r = which == 0 ? v->GeneratePreDeclaration() : which == 1 ? v->GenerateHeader() : which == 2 ? v->GenerateStubs() : which == 3 ? v->GenerateJNIPreDeclaration() : v->GenerateJNIBinding();
    rt::Harness h; cb(arg, r.data(), r.size());
}
void br_codegen_file(JavaVM* vm, const char* path) { VM::FromJavaVM(vm)->GenerateClassDump(path); }
