#include "types.h"
using namespace jnivm;
#define ARGS8 jint tok, jlong j, jdouble d, jboolean z, jbyte b, jchar c, jshort s, jfloat f
#define OK8 (j == tj(tok) && d == td(tok) && z == tz(tok) && b == tb(tok) && c == tc(tok) && s == ts(tok) && f == tf(tok))
template<class R> static void st(ENV* env, Class* cl, const char* name) {
    cl->Hook(env, name, [](ENV* env, Class* self, ARGS8) -> R {
        rt::Harness h; h_enter(K_STATIC + RV<R>::idx, tok, OK8, -1, env->GetJNIEnv()); return RV<R>::v(tok);
    });
}
void reg_static(ENV* env, Class* cl) {
    st<jboolean>(env, cl, "sZ"); st<jbyte>(env, cl, "sB"); st<jchar>(env, cl, "sC"); st<jshort>(env, cl, "sS");
    st<jint>(env, cl, "sI"); st<jlong>(env, cl, "sJ"); st<jfloat>(env, cl, "sF"); st<jdouble>(env, cl, "sD");
    cl->Hook(env, "sV", [](ENV* env, Class* self, ARGS8) { rt::Harness h; h_enter(K_STATIC + RT_V, tok, OK8, -1, env->GetJNIEnv()); });
    cl->Hook(env, "sL", [](ENV* env, Class* self, ARGS8) -> std::shared_ptr<A> {
        rt::Harness h; h_enter(K_STATIC + RT_L, tok, OK8, -1, env->GetJNIEnv()); return h_ret_object(tok); });
}
