#include "types.h"
using namespace jnivm;
void h_access(int f, bool set, int oid);
static void acc(int f, bool set, int oid) { rt::Harness h; h_access(f, set, oid); }
static Statics* g_st;
Statics& statics() { return *g_st; }
void statics_reset() { rt::Harness h; if (!g_st) g_st = new Statics{}; *g_st = Statics{}; }
void A::setgd(jdouble v) { acc(4, true, oid); gd = v; }
void reg_fields(ENV* env, Class* a, Class* s) {
    a->HookInstance(env, "fi", &A::fi); a->HookInstance(env, "fj", &A::fj); a->HookInstance(env, "fd", &A::fd); a->HookInstance(env, "ff", &A::ff);
    a->HookInstance(env, "fz", &A::fz); a->HookInstance(env, "fb", &A::fb); a->HookInstanceProperty(env, "fc", &A::fc); a->Hook(env, "fs", &A::fs);
    a->HookInstanceProperty(env, "fref", &A::ref); a->HookInstance(env, "fstr", &A::str);
    // hooked twice: the second pair replaces the first
    a->HookInstanceGetterFunction(env, "gi", [](ENV*, A* self) -> jint { acc(99, false, self->oid); return 0; });
    a->HookInstanceSetterFunction(env, "gi", [](ENV*, A* self, jint v) { acc(99, true, self->oid); });
    a->HookInstanceGetterFunction(env, "gi", [](ENV*, A* self) -> jint { acc(0, false, self->oid); return self->gi; });
    a->HookInstanceSetterFunction(env, "gi", [](ENV*, A* self, jint v) { acc(0, true, self->oid); self->gi = v; });
    a->HookInstanceGetterFunction(env, "gref", [](ENV*, A* self) -> std::shared_ptr<A> { acc(1, false, self->oid); return self->gref; });
    a->HookInstanceSetterFunction(env, "gref", [](ENV*, A* self, std::shared_ptr<A> v) { acc(1, true, self->oid); self->gref = v; });
    a->HookInstanceGetterFunction(env, "gj", [](A* self) -> jlong { acc(3, false, self->oid); return self->gj; });
    a->HookInstanceSetterFunction(env, "gj", [](JNIEnv*, A* self, jlong v) { acc(3, true, self->oid); self->gj = v; });
    a->HookInstanceGetterFunction(env, "gd", [](ENV* env, Object* self) -> jdouble { auto o = dynamic_cast<A*>(self); acc(4, false, o ? o->oid : -1); return o->gd; });
    a->HookInstanceSetterFunction(env, "gd", &A::setgd);
    s->Hook(env, "sz", &g_st->sz); s->Hook(env, "sb", &g_st->sb); s->Hook(env, "sc", &g_st->sc); s->Hook(env, "ss", &g_st->ss); s->Hook(env, "sf", &g_st->sf); s->Hook(env, "sd", &g_st->sd);
    s->HookGetterFunction(env, "gsd", [](jclass) -> jdouble { acc(5, false, -2); return g_st->gsd; });
    s->HookSetterFunction(env, "gsd", [](JNIEnv*, Class*, jdouble v) { acc(5, true, -2); g_st->gsd = v; });
    s->Hook(env, "si", &g_st->si); s->Hook(env, "sj", &g_st->sj); s->Hook(env, "so", &g_st->so);
    s->HookGetterFunction(env, "gsi", [](ENV*, Class*) -> jint { acc(2, false, -2); return g_st->gsi; });
    s->HookSetterFunction(env, "gsi", [](ENV*, Class*, jint v) { acc(2, true, -2); g_st->gsi = v; });
}
