#include "types.h"
using namespace jnivm;
#define ARGS8 jint tok, jlong j, jdouble d, jboolean z, jbyte b, jchar c, jshort s, jfloat f
#define OK8 (j == tj(tok) && d == td(tok) && z == tz(tok) && b == tb(tok) && c == tc(tok) && s == ts(tok) && f == tf(tok))
template<class R> static void st(ENV* env, Class* cl, const char* name) {
    cl->HookInstanceFunction(env, name, [](ENV* env, A* self, ARGS8) -> R {
        rt::Harness h; h_enter(K_INST + RV<R>::idx, tok, OK8, h_oid(self), env->GetJNIEnv()); return RV<R>::v(tok);
    });
}
void reg_inst(ENV* env, Class* cl) {
    st<jboolean>(env, cl, "iZ"); st<jbyte>(env, cl, "iB"); st<jchar>(env, cl, "iC"); st<jshort>(env, cl, "iS");
    st<jint>(env, cl, "iI"); st<jlong>(env, cl, "iJ"); st<jfloat>(env, cl, "iF"); st<jdouble>(env, cl, "iD");
    cl->HookInstanceFunction(env, "iV", [](ENV* env, A* self, ARGS8) { rt::Harness h; h_enter(K_INST + RT_V, tok, OK8, h_oid(self), env->GetJNIEnv()); });
    cl->HookInstanceFunction(env, "iL", [](ENV* env, A* self, ARGS8) -> std::shared_ptr<A> {
        rt::Harness h; h_enter(K_INST + RT_L, tok, OK8, h_oid(self), env->GetJNIEnv()); return h_ret_object(tok); });
}
