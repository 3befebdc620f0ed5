// Instrumented entry points into the C++ API of the library. Called by the interpreter.
#pragma once
#include <jni.h>
#include <stddef.h>
#include <exception>
#include <string>
struct Ident { const void* obj; int oid; };
struct SimEx {      // thrown by callbacks; counts its live copies
    int tok;
    explicit SimEx(int t);
    SimEx(const SimEx& o);
    ~SimEx();
};
struct SimStdEx : std::exception, SimEx { explicit SimStdEx(int t) : SimEx(t) {} };
[[noreturn]] void sim_throw(int tok, bool std);
extern "C" { }
Ident br_ident(JNIEnv* e, jobject r);                 // harness mode; no side effects
void* br_vm_new(int world, bool nullmode);            // returns the JavaVM*, null on failure
void br_vm_delete(int world, JavaVM* vm);
void br_setup(int world, JavaVM* vm, JNIEnv* e);      // registers the user classes
jobject br_make(JNIEnv* e, int kind);                 // new probe as a local reference
int br_exc_token(JNIEnv* e, jobject th);              // -1 none, -2 not ours
std::string br_class_name(JNIEnv* e, jobject c);
void br_dyn(JNIEnv* e, jobject cls, int which);
void br_regtype(JNIEnv* e, int which);
const void* br_getclass(JNIEnv* e, int kind);
const char* br_regname(int which);
// FakeJni / Baron
// runs fn inside a scope object: 0 LocalFrame(vm, cap), 1 JniEnvContext(vm), 2 LocalFrame(cap), 3 JniEnvContext()
void* br_env_hold(JavaVM* vm);
void br_env_drop(void* held);
void br_fj_scope(JavaVM* vm, int kind, int cap, void (*fn)(void*, JNIEnv*), void* arg);
void br_main_reg(JavaVM* vm, int overload);            // createMainMethod with a function that calls h_main
void br_start(JavaVM* vm, int n, const std::string* args);   // start(args), or start() if n is negative
void br_fj_classes(JavaVM* vm, void (*cb)(void*, const void*, const char*), void* arg);   // getClasses
jobject br_fj_local(jobject r);                       // createLocalReference(resolveReference(r))
JNIEnv* br_fj_current();                              // JniEnv::getCurrentEnv
const void* br_fj_find(JavaVM* vm, const char* name); // findClass
jobject br_fj_global(JavaVM* vm, JNIEnv* e, jobject r);
void br_deny(JavaVM* vm);
void br_lib_attach(JavaVM* vm, const char* path);
void br_lib_remove(JavaVM* vm, const char* path);
int br_native_call(JNIEnv* e, jobject cls, jobject recv, const char* name, const char* sig, int rtype, jint tok, jlong j, jobject a, jstring s, bool* found, jvalue* r);   // token of the exception it reports, or -1
int br_cpp_call(JNIEnv* e, jobject cls, jobject recv, const char* name, const char* sig, int shape, int rtype, jint tok, jobject a, bool* found, jvalue* r);   // invokes a hooked method from C++
void* br_native_fn(int variant, int rtype);
jobject br_resolve(JNIEnv* e, jobject r);
const void* br_class_of(JNIEnv* e, jobject x);
bool br_class_denied(JavaVM* vm, bool old, const char* n);
bool br_is_denied(JavaVM* vm, bool meth, bool old, const char* n, const char* s, const char* c);
void br_env_hook(JavaVM* vm);                         // h_env_hook runs whenever an environment is created
const void* br_vm_env(JavaVM* vm);                    // VM::GetEnv
jobject br_arr_get(JNIEnv* e, jobject arr, int view, int i, int form);   // element through the array as Array<Object> (0) or Array<kind>
jobject br_parr_make(JNIEnv* e, char ty, int n, int form, const int* vals);   // a primitive array made in C++: 0 by length, 1 from a vector, 2 copied, 3 borrowed
jobject br_arr_make(JNIEnv* e, int kind, int n, jobject init);               // an object array made in C++: of a probe class, 0 String, -1 arrays of A, -2 Object
void br_codegen(JavaVM* vm, int which, void (*cb)(void*, const char*, size_t), void* arg);   // 0 predeclarations, 1 header, 2 stubs, 3 class registration, 4 bindings
void br_codegen_file(JavaVM* vm, const char* path);
void br_arr_set(JNIEnv* e, jobject arr, int view, int i, jobject v, int form);
