// Keys and values shared by the instrumented and the uninstrumented side of the simulator.
#pragma once
#include <jni.h>
#include <stdint.h>
#include <tuple>
#include <utility>
enum { KIND_A = 1, KIND_B, KIND_C, KIND_D, KIND_F, KIND_G, KIND_R0, KIND_R1, KIND_R2, KIND_R3, KIND_PROBE_END, KIND_ARR, KIND_STR, KIND_THR, KIND_BUF, KIND_CLS, KIND_PARR };
// callback keys
enum { K_STATIC = 0, K_INST = 16, K_MFUN = 32, K_VFUN_A, K_VFUN_B, K_WFUN_A, K_WFUN_B, K_WFUN_D, K_CTOR, K_OBJARG, K_OBJARGI, K_STRARG, K_ARRARG,
       K_PLAIN, K_FFUN, K_FSTAT, K_DYN = 64, K_GETTER = 128, K_SETTER, K_SGETTER, K_SSETTER, K_REG = 160, K_OVER = 192, K_OARR = 208, K_MIX = 216, K_NATIVE = 512 };
enum { EX_NOMSG = 2000000, EX_BARE };   // exceptions without a message, and without a C++ exception
enum { RT_V, RT_Z, RT_B, RT_C, RT_S, RT_I, RT_J, RT_F, RT_D, RT_L, RT_N };
// argument values derived from the call token
static inline jlong tj(int t) { return (jlong)((uint64_t)(t + 1) * 0x9E3779B97F4A7C15ull); }
static inline jdouble td(int t) { return t * 1.25 + 0.5; }
static inline jfloat tf(int t) { return t * 0.5f - 3.0f; }
static inline jboolean tz(int t) { return t & 1; }
static inline jbyte tb(int t) { return (jbyte)(t * 37 + 200); }
static inline jchar tc(int t) { return (jchar)(t * 1031 + 40000); }
static inline jshort ts(int t) { return (jshort)(t * 517 + 33000); }
static inline jint ti(int t) { return (jint)((uint32_t)t * 2654435761u); }
// the types and values of a long list of arguments
static const int NHUGE = 70;
template<size_t I> struct HugeArg { using T = std::tuple_element_t<I % 5, std::tuple<jlong, jdouble, jint, jfloat, jchar>>; static T v(int t) { int x = t + (int)I; return I % 5 == 0 ? (T)tj(x) : I % 5 == 1 ? (T)td(x) : I % 5 == 2 ? (T)ti(x) : I % 5 == 3 ? (T)tf(x) : (T)tc(x); } };
// return values and stored values
static inline jboolean rvZ(int t) { return !(t & 1); }
static inline jbyte rvB(int t) { return (jbyte)(t * 11 + 129); }
static inline jchar rvC(int t) { return (jchar)(t * 77 + 50000); }
static inline jshort rvS(int t) { return (jshort)(t * 99 + 34000); }
static inline jint rvI(int t) { return (jint)((uint32_t)t * 0x85ebca6bu + 7); }
static inline jlong rvJ(int t) { return (jlong)((uint64_t)(t + 5) * 0xc2b2ae3d27d4eb4full); }
static inline jfloat rvF(int t) { return t * 0.25f + 1.5f; }
static inline jdouble rvD(int t) { return t * 3.0 - 0.125; }
