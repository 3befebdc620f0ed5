From 6baada5980483aae36bc3a97d4a7e520ad0aed96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:38 +0000
Subject: [PATCH 01/37] fix: guard every class lookup with the VM mutex

InternalFindClass was called without VM::mtx from NewGlobalRef,
NewWeakGlobalRef, NewArray, NewObjectArray, ENV::GetClass, Declare and
Jvm::findClass, so two threads could modify the class tables at once.
The mutex becomes recursive and is taken where the tables are touched.
---
 include/jnivm/env.h              |  2 +-
 include/jnivm/jnitypes.h         |  2 +-
 include/jnivm/vm.h               |  2 +-
 src/jnivm/internal/findclass.cpp |  1 +
 src/jnivm/internal/method.cpp    |  2 +-
 src/jnivm/vm.cpp                 | 16 ++++++++--------
 6 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/jnivm/env.h b/include/jnivm/env.h
index 5505207..aadb914 100644
--- a/include/jnivm/env.h
+++ b/include/jnivm/env.h
@@ -85,7 +85,7 @@ namespace jnivm {
 }
 
 template<class T> std::shared_ptr<jnivm::Class> jnivm::ENV::GetClass(const char *name) {
-    std::lock_guard<std::mutex> lock(vm->mtx);
+    std::lock_guard<std::recursive_mutex> lock(vm->mtx);
     auto& c = vm->typecheck[typeid(T)] = GetClass(name);
     c->Instantiate = jnivm::Factory<T>::CreateLambda();
     IsClass<T>::AddInherience(c, this);
diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index 473101e..0eb2c39 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -274,7 +274,7 @@ template<class T> struct ClassName<T, true> {
 #include "env.h"
 
 template<class T, class B, class orgtype> std::string jnivm::JNITypesObjectBase<T, B, orgtype>::GetJNISignature(jnivm::ENV *env){
-    std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
+    std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
     auto r = env->GetVM()->typecheck.find(typeid(T));
     if(r != env->GetVM()->typecheck.end()) {
         return "L" + r->second->nativeprefix + ";";
diff --git a/include/jnivm/vm.h b/include/jnivm/vm.h
index 0e8a3e3..d843d87 100644
--- a/include/jnivm/vm.h
+++ b/include/jnivm/vm.h
@@ -60,7 +60,7 @@ namespace jnivm {
         // Map of all classes hooked or implicitly declared
         std::unordered_map<std::string, std::shared_ptr<Class>> classes;
 
-        std::mutex mtx;
+        std::recursive_mutex mtx;
         // Stores all global references
         std::vector<std::shared_ptr<Object>> globals;
         // Stores all classes by c++ typeid
diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index dd71499..edcc7c0 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -8,6 +8,7 @@ std::shared_ptr<jnivm::Class> jnivm::InternalFindClass(ENV *env, const char *nam
 	auto prefix = name;
 	auto && nenv = *env;
 	auto && vm = nenv.GetVM();
+	std::lock_guard<std::recursive_mutex> lock(vm->mtx);
 #ifdef JNI_TRACE
 	if(trace) {
 		LOG("JNIVM", "FindClass %s", name);
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index a9fe678..94d6a53 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -131,7 +131,7 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
 #endif
                 return JNITypes<std::shared_ptr<Object>>::ToJNIReturnType(env, c->Instantiate(env));
             } else {
-                std::lock_guard<std::mutex> guard(env->GetVM()->mtx);
+                std::lock_guard<std::recursive_mutex> guard(env->GetVM()->mtx);
                 bool safetocreatedummy = true;
                 for(auto&& ty : env->GetVM()->typecheck) {
                     if(ty.second == c) {
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index b27b9d2..b7fbf56 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -28,7 +28,7 @@ jclass DefineClass(JNIEnv *, const char *, jobject, const jbyte *, jsize) {
 template<bool returnZero=false>
 jclass FindClass(JNIEnv *env, const char *name) {
 	auto&& nenv = *ENV::FromJNIEnv(env);
-	std::lock_guard<std::mutex> lock(nenv.GetVM()->mtx);
+	std::lock_guard<std::recursive_mutex> lock(nenv.GetVM()->mtx);
 	return InternalFindClass(env, name, returnZero, true);
 };
 jmethodID FromReflectedMethod(JNIEnv *env, jobject obj) {
@@ -155,7 +155,7 @@ jobject NewGlobalRef(JNIEnv * env, std::shared_ptr<Object> obj) {
 	if(!obj) return nullptr;
 	auto&& nenv = *ENV::FromJNIEnv(env);
 	auto&& nvm = *nenv.GetVM();
-	std::lock_guard<std::mutex> guard{nvm.mtx};
+	std::lock_guard<std::recursive_mutex> guard{nvm.mtx};
 	nvm.globals.emplace_back(obj);
 #endif
 	return (jobject)obj.get();
@@ -175,7 +175,7 @@ void DeleteGlobalRef(JNIEnv * env, std::shared_ptr<Object> obj) {
 	if(!obj) return;
 	auto&& nenv = *ENV::FromJNIEnv(env);
 	auto&& nvm = *nenv.GetVM();
-	std::lock_guard<std::mutex> guard{nvm.mtx};
+	std::lock_guard<std::recursive_mutex> guard{nvm.mtx};
 	auto fe = nvm.globals.end();
 	auto f = std::find(nvm.globals.begin(), fe, obj);
 	if(f != fe) {
@@ -304,7 +304,7 @@ jint MonitorExit(JNIEnv *env, jobject o) {
 
 jint GetJavaVM(JNIEnv * env, JavaVM ** vm) {
 	if(vm) {
-		std::lock_guard<std::mutex> lock((ENV::FromJNIEnv(env))->GetVM()->mtx);
+		std::lock_guard<std::recursive_mutex> lock((ENV::FromJNIEnv(env))->GetVM()->mtx);
 		*vm = (ENV::FromJNIEnv(env))->GetVM()->GetJavaVM();
 	}
 	return 0;
@@ -468,7 +468,7 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 			[](JavaVM *vm, JNIEnv **penv, void * args) -> jint {
 #ifdef EnableJNIVMGC
 				auto&& nvm = *VM::FromJavaVM(vm);
-				std::lock_guard<std::mutex> lock(nvm.mtx);
+				std::lock_guard<std::recursive_mutex> lock(nvm.mtx);
 				auto&& nenv = nvm.jnienvs[pthread_self()];
 				if(!nenv) {
 					nenv = nvm.CreateEnv();
@@ -478,7 +478,7 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 				}
 #else
 				if(penv) {
-					std::lock_guard<std::mutex> lock((VM::FromJavaVM(vm)))->mtx);
+					std::lock_guard<std::recursive_mutex> lock((VM::FromJavaVM(vm)))->mtx);
 					*penv = (VM::FromJavaVM(vm)))->GetJNIEnv();
 				}
 #endif
@@ -487,7 +487,7 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 			[](JavaVM *vm) -> jint {
 #ifdef EnableJNIVMGC
 				auto&& nvm = *VM::FromJavaVM(vm);
-				std::lock_guard<std::mutex> lock(nvm.mtx);
+				std::lock_guard<std::recursive_mutex> lock(nvm.mtx);
 				auto fe = nvm.jnienvs.end();
 				auto f = nvm.jnienvs.find(pthread_self());
 				if(f != fe) {
@@ -501,7 +501,7 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 #ifdef EnableJNIVMGC
 					return vm->AttachCurrentThread((JNIEnv**)penv, nullptr);
 #else
-					std::lock_guard<std::mutex> lock((VM::FromJavaVM(vm)))->mtx);
+					std::lock_guard<std::recursive_mutex> lock((VM::FromJavaVM(vm)))->mtx);
 					*penv = (VM::FromJavaVM(vm)))->GetJNIEnv();
 #endif
 				}
-- 
2.43.0


From 96ae84565edb291dc0d8fab50f2bcab0d189497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:38 +0000
Subject: [PATCH 02/37] fix: publish a new class only once it is complete

A class was pushed to its namespace before its name and nativeprefix were
set and before it was entered in VM::classes, so a failing allocation left
a class with an empty name, or one that lookups and getClasses disagree on.
---
 src/jnivm/internal/findclass.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index edcc7c0..75c65bc 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -36,8 +36,8 @@ std::shared_ptr<jnivm::Class> jnivm::InternalFindClass(ENV *env, const char *nam
 			} else {
 				if(returnZero) return nullptr;
 				next = std::make_shared<Namespace>();
-				cur->namespaces.push_back(next);
 				next->name = std::move(sname);
+				cur->namespaces.push_back(next);
 			}
 			cur = next;
 			name = pos + 1;
@@ -56,10 +56,15 @@ std::shared_ptr<jnivm::Class> jnivm::InternalFindClass(ENV *env, const char *nam
 				} else {
 					if(returnZero) return nullptr;
 					next = std::make_shared<Class>();
-					curc->classes.push_back(next);
 					next->name = std::move(sname);
 					next->nativeprefix = std::string(prefix, pos);
-					vm->classes[next->nativeprefix] = next;
+					curc->classes.push_back(next);
+					try {
+						vm->classes[next->nativeprefix] = next;
+					} catch(...) {
+						curc->classes.pop_back();
+						throw;
+					}
 				}
 			} else {
 				auto cl = std::find_if(cur->classes.begin(), cur->classes.end(),
@@ -71,10 +76,15 @@ std::shared_ptr<jnivm::Class> jnivm::InternalFindClass(ENV *env, const char *nam
 				} else {
 					if(returnZero) return nullptr;
 					next = std::make_shared<Class>();
-					cur->classes.push_back(next);
 					next->name = std::move(sname);
 					next->nativeprefix = std::string(prefix, pos);
-					vm->classes[next->nativeprefix] = next;
+					cur->classes.push_back(next);
+					try {
+						vm->classes[next->nativeprefix] = next;
+					} catch(...) {
+						cur->classes.pop_back();
+						throw;
+					}
 				}
 			}
 			curc = next;
-- 
2.43.0


From e0471c5d889cadc7f1f2f232b071270eca4c5a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:38 +0000
Subject: [PATCH 03/37] fix: read the C++ type to class map under the VM mutex

GetClass, the instance factory, the hook filters and GetBaseClasses read (and
GetBaseClasses even inserted into) VM::typecheck while another thread could be
registering a class.
---
 include/jnivm/class.h    | 2 ++
 include/jnivm/env.h      | 1 +
 include/jnivm/extends.h  | 7 ++++++-
 include/jnivm/jnitypes.h | 3 +--
 4 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/jnivm/class.h b/include/jnivm/class.h
index dd096c3..0acb83a 100644
--- a/include/jnivm/class.h
+++ b/include/jnivm/class.h
@@ -72,6 +72,7 @@ namespace jnivm {
             static void install(ENV* env, Class* cl, const std::string& id, T&& t) {
                 // Filter false positives at runtime
                 if((int)bind & (int)FunctionType::Instance ? !std::is_same<Object*, typename Function<T>::template Parameter<1>>::value && !std::is_same<jobject, typename Function<T>::template Parameter<1>>::value : !std::is_same<Class*, typename Function<T>::template Parameter<1>>::value && !std::is_same<jclass, typename Function<T>::template Parameter<1>>::value) {
+                    std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
                     auto oc = env->GetVM()->typecheck.find(typeid(std::remove_pointer_t<typename Function<T>::template Parameter<1>>));
                     if(oc == env->GetVM()->typecheck.end() || oc->second.get() != cl) {
                         return;
@@ -85,6 +86,7 @@ namespace jnivm {
             static void install(ENV* env, Class* cl, const std::string& id, T&& t) {
                 // Filter false positives at runtime
                 if((int)bind & (int)FunctionType::Instance ? !std::is_same<Object*, typename Function<T>::template Parameter<0>>::value && !std::is_same<jobject, typename Function<T>::template Parameter<0>>::value : !std::is_same<Class*, typename Function<T>::template Parameter<0>>::value && !std::is_same<jclass, typename Function<T>::template Parameter<0>>::value) {
+                    std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
                     auto oc = env->GetVM()->typecheck.find(typeid(std::remove_pointer_t<typename Function<T>::template Parameter<0>>));
                     if(oc == env->GetVM()->typecheck.end() || oc->second.get() != cl) {
                         return;
diff --git a/include/jnivm/env.h b/include/jnivm/env.h
index aadb914..4da5fd7 100644
--- a/include/jnivm/env.h
+++ b/include/jnivm/env.h
@@ -62,6 +62,7 @@ namespace jnivm {
             static_assert(std::is_base_of<Object, T>::value, "You have to public extend jnivm::Object / FakeJni::JObject");
             return [](ENV* env) -> std::shared_ptr<jnivm::Object> {
                 auto res = std::make_shared<T>();
+                std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
                 auto f = env->GetVM()->typecheck.find(typeid(T));
                 if(f != env->GetVM()->typecheck.end()) {
                     res->clazz = f->second;
diff --git a/include/jnivm/extends.h b/include/jnivm/extends.h
index d7b7aad..99ced21 100644
--- a/include/jnivm/extends.h
+++ b/include/jnivm/extends.h
@@ -13,8 +13,13 @@ namespace jnivm {
             using BaseClasseTuple = std::tuple<BaseClasses...>;
             template<class T>
             using ArrayBaseType = ArrayBase<T, BaseClasses...>;
+            static std::shared_ptr<Class> FindBaseClass(ENV* env, const std::type_info& type) {
+                auto f = env->GetVM()->typecheck.find(type);
+                return f != env->GetVM()->typecheck.end() ? f->second : nullptr;
+            }
             static std::vector<std::shared_ptr<Class>> GetBaseClasses(ENV* env) {
-                std::vector<std::shared_ptr<Class>> ret = { env->GetVM()->typecheck[typeid(BaseClasses)]... };
+                std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
+                std::vector<std::shared_ptr<Class>> ret = { FindBaseClass(env, typeid(BaseClasses))... };
 #ifndef NDEBUG
                 for(size_t i = 0, size = ret.size(); i < size; ++i) {
                     if(!ret[i]) {
diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index 0eb2c39..128bcb9 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -284,8 +284,7 @@ template<class T, class B, class orgtype> std::string jnivm::JNITypesObjectBase<
 }
 
 template<class T, class B, class orgtype> std::shared_ptr<jnivm::Class> jnivm::JNITypesObjectBase<T, B, orgtype>::GetClass(jnivm::ENV *env) {
-    // ToDo find the deadlock or replace with recursive_mutex
-    // std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
+    std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
     auto r = env->GetVM()->typecheck.find(typeid(T));
     if(r != env->GetVM()->typecheck.end()) {
         return r->second;
-- 
2.43.0


From 5f08fa03a2223edd2a2bdeb6ee6f09d139241b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:38 +0000
Subject: [PATCH 04/37] fix: look up the current env under the VM mutex

VM::GetEnv indexed the map of envs without the mutex that attach and detach
hold, and inserted an empty entry for every thread that was not attached.
---
 src/jnivm/vm.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index b7fbf56..30b9e8c 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -545,7 +545,10 @@ JNIEnv *VM::GetJNIEnv() {
 
 const std::shared_ptr<ENV>& VM::GetEnv() {
 #ifdef EnableJNIVMGC
-	return jnienvs[pthread_self()];
+	static const std::shared_ptr<ENV> none;
+	std::lock_guard<std::recursive_mutex> lock(mtx);
+	auto f = jnienvs.find(pthread_self());
+	return f != jnienvs.end() ? f->second : none;
 #else
 	return jnienvs.begin()->second;
 #endif
-- 
2.43.0


From d854dffca2d1a1be256127d7fed35dc38556811e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:38 +0000
Subject: [PATCH 05/37] fix: add unresolved methods and fields atomically

GetMethodID pushed the new method after releasing the class mutex and filled
in its name afterwards: concurrent lookups of one symbol returned different
ids and modified the vector at once. GetFieldID left a nameless field behind
when an allocation failed.
---
 src/jnivm/internal/field.cpp  |  2 +-
 src/jnivm/internal/method.cpp | 23 +++++++++++++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/jnivm/internal/field.cpp b/src/jnivm/internal/field.cpp
index e2e44cd..73cd24a 100644
--- a/src/jnivm/internal/field.cpp
+++ b/src/jnivm/internal/field.cpp
@@ -48,13 +48,13 @@ jfieldID jnivm::GetFieldID(JNIEnv *env, jclass cl_, const char *name, const char
             return nullptr;
         }
         next = std::make_shared<Field>();
-        cur->fields.emplace_back(next);
         next->name = std::move(sname);
         next->type = std::move(ssig);
         next->_static = isStatic;
 #ifdef JNI_DEBUG
         Declare(env, next->type.data());
 #endif
+        cur->fields.emplace_back(next);
 #ifdef JNI_TRACE
         LOG("JNIVM", "Constructed Unresolved symbol, Class=`%s`, %sField=`%s`, Signature=`%s`", cl ? cl->nativeprefix.data() : nullptr, isStatic ? "Static" : "", name, type);
 #endif
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 94d6a53..3d72edd 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -60,18 +60,29 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
             return nullptr;
         }
         next = std::make_shared<Method>();
-        if(cur) {
-            cur->methods.push_back(next);
-        } else {
-            // For Debugging purposes without valid parent class
-            JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), next);
-        }
         next->name = std::move(sname);
         next->signature = std::move(ssig);
         next->_static = isStatic;
 #ifdef JNI_DEBUG
         Declare(env, next->signature.data());
 #endif
+        if(cur) {
+            std::lock_guard<std::mutex> lock(cur->mtx);
+            // Another thread could have added this symbol since the lookup
+            auto ccl =
+                    std::find_if(cur->methods.begin(), cur->methods.end(),
+                                            [&next](std::shared_ptr<Method> &namesp) {
+                                                return namesp->_static == isStatic && AllowNative == (bool)namesp->native && namesp->name == next->name && namesp->signature == next->signature;
+                                            });
+            if (ccl != cur->methods.end()) {
+                next = *ccl;
+            } else {
+                cur->methods.push_back(next);
+            }
+        } else {
+            // For Debugging purposes without valid parent class
+            JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), next);
+        }
 #ifdef JNI_TRACE
         LOG("JNIVM", "Constructed Unresolved symbol, Class=`%s`, %sMethod=`%s`, Signature=`%s`", cur ? cur->nativeprefix.data() : nullptr, AllowNative ? "Native" : isStatic ? "Static" : "", str0, str1);
 #endif
-- 
2.43.0


From 26405200e7daccece9031d051afdaff7006aeaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:29 +0000
Subject: [PATCH 06/37] fix: guard the method and field tables of a class

Installing a hook and resolving the implementation of a call walked and
modified Class::methods and Class::fields without the class mutex.
---
 include/jnivm/hookManager.h   | 16 ++++++++++++----
 src/jnivm/internal/method.cpp |  1 +
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/jnivm/hookManager.h b/include/jnivm/hookManager.h
index e489f96..027a6e7 100644
--- a/include/jnivm/hookManager.h
+++ b/include/jnivm/hookManager.h
@@ -46,6 +46,8 @@ namespace jnivm {
     template<class w, class W, bool isStatic> struct FunctionBase {
         template<class T> static void install(ENV* env, Class * cl, const std::string& id, T&& t) {
             auto ssig = InvokeSignature<isStatic, typename w::Wrapper>::Get(env);
+            std::shared_ptr<MethodHandle> handle = std::make_shared<W>(typename w::Wrapper {t});
+            std::lock_guard<std::mutex> lock(cl->mtx);
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
@@ -61,12 +63,14 @@ namespace jnivm {
                 method->signature = std::move(ssig);
                 cl->methods.push_back(method);
             }
-            method->nativehandle = std::make_shared<W>(typename w::Wrapper {t});
+            method->nativehandle.swap(handle);
         }
 
         template<class T> static void install(ENV* env, Class * cl, const std::string& id, const std::string& signature, T&& t) {
             auto ssig = signature;
             static_assert(Function<T>::plength == 3 && std::is_same<typename Function<T>::Return, jvalue>::value  && std::is_same<typename Function<T>::template Parameter<0>,JNIEnv*>::value && std::is_same<typename Function<T>::template Parameter<2>,jvalue*>::value, "Invalid arbitary function");
+            std::shared_ptr<MethodHandle> handle = std::make_shared<W>(typename w::Wrapper {t});
+            std::lock_guard<std::mutex> lock(cl->mtx);
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
@@ -82,7 +86,7 @@ namespace jnivm {
                 method->signature = std::move(ssig);
                 cl->methods.push_back(method);
             }
-            method->nativehandle = std::make_shared<W>(typename w::Wrapper {t});
+            method->nativehandle.swap(handle);
         }
     };
 
@@ -99,6 +103,8 @@ namespace jnivm {
     template<class w, class W, bool isStatic, bool isGetter, class handle_t, handle_t handle> struct PropertyBase {
         template<class T> static void install(ENV* env, Class * cl, const std::string& id, T&& t) {
             auto ssig = PropertySignature<isStatic, isGetter, typename w::Wrapper>::Get(env);
+            std::shared_ptr<MethodHandle> newhandle = std::make_shared<W>(typename w::Wrapper {t});
+            std::lock_guard<std::mutex> lock(cl->mtx);
             auto ccl =
                     std::find_if(cl->fields.begin(), cl->fields.end(),
                                             [&id, &ssig](std::shared_ptr<Field> &f) {
@@ -114,12 +120,14 @@ namespace jnivm {
                 field->type = std::move(ssig);
                 cl->fields.push_back(field);
             }
-            field.get()->*handle = std::make_shared<W>(typename w::Wrapper {t});
+            (field.get()->*handle).swap(newhandle);
         }
 
         template<class T> static void install(ENV* env, Class * cl, const std::string& id, const std::string& signature, T&& t) {
             static_assert(Function<T>::plength == 3 && std::is_same<typename Function<T>::Return, jvalue>::value && std::is_same<typename Function<T>::template Parameter<0>,JNIEnv*>::value && std::is_same<typename Function<T>::template Parameter<2>,jvalue*>::value, "Invalid arbitary function");
             auto ssig = signature;
+            std::shared_ptr<MethodHandle> newhandle = std::make_shared<W>(typename w::Wrapper {t});
+            std::lock_guard<std::mutex> lock(cl->mtx);
             auto ccl =
                     std::find_if(cl->fields.begin(), cl->fields.end(),
                                             [&id, &ssig](std::shared_ptr<Field> &f) {
@@ -135,7 +143,7 @@ namespace jnivm {
                 field->type = std::move(ssig);
                 cl->fields.push_back(field);
             }
-            field.get()->*handle = std::make_shared<W>(typename w::Wrapper {t});
+            (field.get()->*handle).swap(newhandle);
         }
     };
 
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 3d72edd..1f89c98 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -180,6 +180,7 @@ static Method* findNonVirtualOverload(Class*cl, Method*mid) {
     if(!cl) {
         return mid;
     }
+    std::lock_guard<std::mutex> lock(cl->mtx);
     auto res = std::find_if(cl->methods.begin(), cl->methods.end(), [mid](auto&& m) {
         return !m->_static && mid->name == m->name && mid->signature == m->signature && m->nativehandle;
     });
-- 
2.43.0


From 7aa2345077beb9f8cfc484e68574e4344d13dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:59 +0000
Subject: [PATCH 07/37] fix: assign and read the class of an object under the
 VM mutex

ToJNIType fills in Object::clazz the first time an object is handed out; two
threads handing out one object, or one asking for its class, raced on it.
---
 include/jnivm/jnitypes.h | 9 ++++++---
 src/jnivm/object.cpp     | 1 +
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index 128bcb9..42c455f 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -299,9 +299,12 @@ template<class T, class B, class orgtype> template<class Y> B jnivm::JNITypesObj
     
     std::shared_ptr<Object> obj(p, p.get());
     if(obj) {
-        auto clazz = obj->clazz.lock();
-        if(!clazz) {
-            obj->clazz = JNITypesObjectBase<Y, B>::GetClass(env);
+        {
+            std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
+            auto clazz = obj->clazz.lock();
+            if(!clazz) {
+                obj->clazz = JNITypesObjectBase<Y, B>::GetClass(env);
+            }
         }
         auto ref = (B)obj.get();
         env->localframe.front().push_back(std::move(obj));
diff --git a/src/jnivm/object.cpp b/src/jnivm/object.cpp
index ed7ab83..0f3f39c 100644
--- a/src/jnivm/object.cpp
+++ b/src/jnivm/object.cpp
@@ -3,6 +3,7 @@
 #include <jnivm/weak.h>
 
 std::shared_ptr<jnivm::Class> jnivm::Object::getClassInternal(jnivm::ENV *env) {
+    std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
     return clazz.lock();
 }
 
-- 
2.43.0


From c57d1550214df3dce609a1785bf9d1699e5a1e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 08/37] fix: do not replace the type information of a class in
 use

ENV::GetClass<T> assigned Instantiate and baseclasses anew on every call (for
FakeJni classes on every getClassInternal) while other threads were calling
them, and left a null entry in typecheck when an allocation failed. The lazily
installed InstantiateArray was not guarded either.
---
 include/fake-jni/fake-jni.h  |  2 +-
 include/jnivm/env.h          | 16 +++++++++++++---
 include/jnivm/jnitypes.h     |  1 +
 src/jnivm/internal/array.cpp |  6 +++++-
 4 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/fake-jni/fake-jni.h b/include/fake-jni/fake-jni.h
index 54707e1..89e97b4 100644
--- a/include/fake-jni/fake-jni.h
+++ b/include/fake-jni/fake-jni.h
@@ -263,7 +263,7 @@ namespace FakeJni {
                                         }
 #define BEGIN_NATIVE_DESCRIPTOR(name, ...)  std::shared_ptr<jnivm::Class> name ::getDescriptor() {\
                                                 auto cl = jnivm::ENV::FromJNIEnv(&FakeJni::JniEnvContext().getJniEnv())->GetClass< name >( name ::getClassName().data());\
-                                                if(cl->methods.size() == 0 && cl->fields.size() == 0 && !cl->Instantiate && !cl->baseclasses) {\
+                                                if(!cl->Instantiate && !cl->baseclasses && cl->methods.size() == 0 && cl->fields.size() == 0) {\
                                                     registerClass();\
                                                 }\
                                                 return cl;\
diff --git a/include/jnivm/env.h b/include/jnivm/env.h
index 4da5fd7..5dbf7f2 100644
--- a/include/jnivm/env.h
+++ b/include/jnivm/env.h
@@ -80,16 +80,26 @@ namespace jnivm {
 
     template<class T> struct IsClass<T, void_t<decltype(T::GetBaseClasses(std::declval<ENV*>()))>> {
         static void AddInherience(std::shared_ptr<jnivm::Class> &c, ENV*env) {
-            c->baseclasses = &T::GetBaseClasses;
+            using BaseClasses = std::vector<std::shared_ptr<jnivm::Class>>(*)(ENV*);
+            auto f = c->baseclasses.target<BaseClasses>();
+            // Other threads could be using it, don't replace it with itself
+            if(!f || *f != &T::GetBaseClasses) {
+                c->baseclasses = (BaseClasses)&T::GetBaseClasses;
+            }
         }
     };
 }
 
 template<class T> std::shared_ptr<jnivm::Class> jnivm::ENV::GetClass(const char *name) {
     std::lock_guard<std::recursive_mutex> lock(vm->mtx);
-    auto& c = vm->typecheck[typeid(T)] = GetClass(name);
-    c->Instantiate = jnivm::Factory<T>::CreateLambda();
+    auto c = GetClass(name);
+    auto instantiate = jnivm::Factory<T>::CreateLambda();
+    // Other threads could be using it, don't replace it with itself
+    if(c->Instantiate.target_type() != instantiate.target_type()) {
+        c->Instantiate = std::move(instantiate);
+    }
     IsClass<T>::AddInherience(c, this);
+    vm->typecheck[typeid(T)] = c;
     return c;
 }
 #endif
\ No newline at end of file
diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index 42c455f..68fe13c 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -228,6 +228,7 @@ namespace jnivm {
 
     template<class T, bool> struct utility_ {
         static void utility(ENV*env, const std::string& res) {
+            std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
             auto c = InternalFindClass(env, res.data());
             if(!c->InstantiateArray) {
                 c->InstantiateArray = [wref = std::weak_ptr<Class>(c)](ENV* env, jsize s) -> std::shared_ptr<jnivm::Array<Object>>{
diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index d220630..fc0a06e 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -11,7 +11,11 @@ jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject
     auto classname = cl0->nativeprefix[0] == '[' ? "[" + cl0->nativeprefix : "[L" + cl0->nativeprefix + ";";
     auto cl = InternalFindClass(ENV::FromJNIEnv(env), classname.data());
     // auto arr = std::make_shared<Array<Object>>(new std::shared_ptr<Object>[length], length);
-    auto arr = cl->InstantiateArray ? cl->InstantiateArray(ENV::FromJNIEnv(env), length) : std::make_shared<Array<Object>>(length);
+    auto instantiate = [&]() {
+        std::lock_guard<std::recursive_mutex> lock(ENV::FromJNIEnv(env)->GetVM()->mtx);
+        return cl->InstantiateArray;
+    }();
+    auto arr = instantiate ? instantiate(ENV::FromJNIEnv(env), length) : std::make_shared<Array<Object>>(length);
     arr->clazz = std::move(cl);
     if(init) {
         for (jsize i = 0; i < length; i++) {
-- 
2.43.0


From a9f318b5a6981b818bab20e0d79a64f511b2756c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 09/37] fix: destroy a detached env after releasing the VM
 mutex

DetachCurrentThread ran the destructors of all objects that only the local
references kept alive while it held VM::mtx, a deadlock as soon as one of
them waits for a thread that needs the VM.
---
 src/jnivm/vm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 30b9e8c..a85ffde 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -487,10 +487,13 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 			[](JavaVM *vm) -> jint {
 #ifdef EnableJNIVMGC
 				auto&& nvm = *VM::FromJavaVM(vm);
+				// Destroyed after unlocking, the local references could be the last owner of an Object
+				std::shared_ptr<ENV> nenv;
 				std::lock_guard<std::recursive_mutex> lock(nvm.mtx);
 				auto fe = nvm.jnienvs.end();
 				auto f = nvm.jnienvs.find(pthread_self());
 				if(f != fe) {
+					nenv = std::move(f->second);
 					nvm.jnienvs.erase(f);
 				}
 #endif
-- 
2.43.0


From 175cc09dbf2775ba069d0615a1ebe78ba087da8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 10/37] fix: push and pop local frames atomically

PopLocalFrame cleared the frame while it was still the current one, so a
destructor that creates a reference modified the vector being cleared, and it
lost the result when its new reference could not be allocated. PushLocalFrame
left an additional frame behind when reserve failed.
---
 src/jnivm/vm.cpp | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index a85ffde..258bfbf 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -119,15 +119,17 @@ void FatalError(JNIEnv *, const char * err) {
 jint PushLocalFrame(JNIEnv * env, jint cap) {
 #ifdef EnableJNIVMGC
 	auto&& nenv = *ENV::FromJNIEnv(env);
-	// Add it to the list
+	std::forward_list<std::vector<std::shared_ptr<Object>>> frame;
 	if(nenv.freeframes.empty()) {
-		nenv.localframe.emplace_front();
+		frame.emplace_front();
 	} else {
-		nenv.localframe.splice_after(nenv.localframe.before_begin(), nenv.freeframes, nenv.freeframes.before_begin());
+		frame.splice_after(frame.before_begin(), nenv.freeframes, nenv.freeframes.before_begin());
 	}
 	// Reserve Memory for the new Frame
 	if(cap)
-		nenv.localframe.front().reserve(cap);
+		frame.front().reserve(cap);
+	// Add it to the list
+	nenv.localframe.splice_after(nenv.localframe.before_begin(), frame, frame.before_begin());
 #endif
 	return 0;
 };
@@ -136,17 +138,25 @@ jobject PopLocalFrame(JNIEnv * env, jobject result) {
 	auto&& nenv = *ENV::FromJNIEnv(env);
 	// save reference on stack
 	auto res = JNITypes<std::shared_ptr<Object>>::JNICast(&nenv, result);
-	// Clear current Frame and move to freelist
-	nenv.localframe.front().clear();
-	nenv.freeframes.splice_after(nenv.freeframes.before_begin(), nenv.localframe, nenv.localframe.before_begin());
-	if(nenv.localframe.empty()) {
-		LOG("JNIVM", "Freed top level frame of this ENV, recreate it");
-		nenv.localframe.emplace_front();
-	}
-	// Add result to previous frame
-	if(res) {
-		return JNITypes<std::shared_ptr<Object>>::ToJNIType(&nenv, res);
+	// Unlink current Frame, destructors of its Objects can call back into this ENV
+	std::forward_list<std::vector<std::shared_ptr<Object>>> frame;
+	frame.splice_after(frame.before_begin(), nenv.localframe, nenv.localframe.before_begin());
+	try {
+		if(nenv.localframe.empty()) {
+			LOG("JNIVM", "Freed top level frame of this ENV, recreate it");
+			nenv.localframe.emplace_front();
+		}
+		// Add result to previous frame
+		if(res) {
+			result = JNITypes<std::shared_ptr<Object>>::ToJNIType(&nenv, res);
+		}
+	} catch(...) {
+		nenv.localframe.splice_after(nenv.localframe.before_begin(), frame, frame.before_begin());
+		throw;
 	}
+	// Clear it and move to freelist
+	frame.front().clear();
+	nenv.freeframes.splice_after(nenv.freeframes.before_begin(), frame, frame.before_begin());
 #endif
 	return result;
 };
-- 
2.43.0


From 269c1dca9757fe0f82ed2015ad910213cc01ca90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 11/37] fix: do not leak the initial elements of primitive
 arrays

New<Type>Array passed a zeroed buffer to a constructor that copies it.
---
 src/jnivm/internal/array.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index fc0a06e..9bbd2f1 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -32,7 +32,10 @@ void jnivm::SetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i, jobject
 }
 
 template <class T> typename JNITypes<T>::Array jnivm::NewArray(JNIEnv * env, jsize length) {
-    auto arr = length ? std::make_shared<Array<T>>(new T[length] {0}, length) : std::make_shared<Array<T>>(0);
+    auto arr = std::make_shared<Array<T>>(length);
+    if(length) {
+        memset(arr->getArray(), 0, sizeof(T) * length);
+    }
     arr->clazz = InternalFindClass(ENV::FromJNIEnv(env), (std::string("[") + JNITypes<T>::GetJNISignature(ENV::FromJNIEnv(env))).data());
     return JNITypes<std::shared_ptr<Array<T>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
 }
-- 
2.43.0


From d2986142a7c3cb82e95750eec5ae5039dd46b3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:47 +0000
Subject: [PATCH 12/37] fix: unwrap the initial element of NewObjectArray

With a global or weak reference as initial element the array was filled with
the reference itself instead of the object, unlike SetObjectArrayElement.
---
 src/jnivm/internal/array.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index 9bbd2f1..05d5090 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -17,9 +17,10 @@ jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject
     }();
     auto arr = instantiate ? instantiate(ENV::FromJNIEnv(env), length) : std::make_shared<Array<Object>>(length);
     arr->clazz = std::move(cl);
-    if(init) {
+    auto val = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), init);
+    if(val) {
         for (jsize i = 0; i < length; i++) {
-            (*arr)[i] = (*(Object*)init).shared_from_this();
+            (*arr)[i] = val;
         }
     }
     return JNITypes<std::shared_ptr<Array<Object>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
-- 
2.43.0


From 73a234953fac4aab5c852d262d724317e8730907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 13/37] fix: find inherited implementations of a method

A virtual call looked for an override in the class of the object only, then
in the base classes of the Method object, and a non virtual call dereferenced
null when the given class inherits the method.
---
 src/jnivm/internal/method.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 1f89c98..15ca243 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -191,13 +191,21 @@ static Method* findNonVirtualOverload(Class*cl, Method*mid) {
     }
 }
 
-static Method* findVirtualOverload(jnivm::ENV *env, Class*cl, Method*mid) {
+static Method* findInheritedOverload(jnivm::ENV *env, Class*cl, Method*mid) {
     auto r = findNonVirtualOverload(cl, mid);
-    if(r != nullptr) {
-        return r;
-    } else {
-        return findVirtualOverload(env, mid->GetBaseClasses(env)[0].get(), mid);
+    if(r == nullptr && cl->baseclasses) {
+        for(auto&& i : cl->baseclasses(env)) {
+            if(i && (r = findInheritedOverload(env, i.get(), mid)) != nullptr) {
+                break;
+            }
+        }
     }
+    return r;
+}
+
+static Method* findVirtualOverload(jnivm::ENV *env, Class*cl, Method*mid) {
+    auto r = findInheritedOverload(env, cl, mid);
+    return r != nullptr ? r : mid;
 }
 
 template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject obj, jmethodID id, jvalue *param) {
@@ -275,7 +283,7 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
-        mid = findNonVirtualOverload(clz.get(), mid);
+        mid = findVirtualOverload(ENV::FromJNIEnv(env), clz.get(), mid);
         try {
             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
-- 
2.43.0


From 6fb02197bb22aeabee5107a920f7da022f0bb068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 14/37] fix: let RegisterNatives replace a registered function

Registering a native method again added a second Method, lookups kept
returning the first one with the outdated function.
---
 src/jnivm/vm.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 258bfbf..7997387 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -276,11 +276,18 @@ jint RegisterNatives(JNIEnv *env, jclass c, const JNINativeMethod *method, jint
 			ss << "Class \"" << clazz->nativeprefix << "\" registred native method: " << method->name << " signature: " << method->signature;
 			LOG("JNIVM", "%s", ss.str().data());
 #endif
-			auto m = std::make_shared<Method>();
-			m->name = method->name;
-			m->signature = method->signature;
-			m->native = method->fnPtr;
-			clazz->methods.push_back(m);
+			auto old = std::find_if(clazz->methods.begin(), clazz->methods.end(), [method](std::shared_ptr<Method> &m) {
+				return m->native && m->name == method->name && m->signature == method->signature;
+			});
+			if(old != clazz->methods.end()) {
+				(*old)->native = method->fnPtr;
+			} else {
+				auto m = std::make_shared<Method>();
+				m->name = method->name;
+				m->signature = method->signature;
+				m->native = method->fnPtr;
+				clazz->methods.push_back(m);
+			}
 			method++;
 		}
 	}
-- 
2.43.0


From edf50949f06274dc910fbda5adf5e5e330c0863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 15/37] fix: accept pending exceptions without a C++ exception

ExceptionDescribe and Method::invoke rethrew a null exception_ptr when the
pending Throwable was not created from a C++ exception.
---
 include/jnivm/method.h | 3 +++
 src/jnivm/vm.cpp       | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/jnivm/method.h b/include/jnivm/method.h
index bbba0f7..3f0b927 100644
--- a/include/jnivm/method.h
+++ b/include/jnivm/method.h
@@ -138,6 +138,9 @@ template<class T, class... param> jvalue jnivm::Method::j2invoke(JNIEnv &env, T
         ret = jinvoke(*ENV::FromJNIEnv(&env), cl, args);
     }
     if((ENV::FromJNIEnv(&env))->current_exception) {
+        if(!(ENV::FromJNIEnv(&env))->current_exception->except) {
+            throw std::runtime_error("Exception without Message was thrown");
+        }
         std::rethrow_exception((ENV::FromJNIEnv(&env))->current_exception->except);
     }
     return ret;
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 7997387..1beaf57 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -99,6 +99,10 @@ jthrowable ExceptionOccurred(JNIEnv * env) {
 };
 void ExceptionDescribe(JNIEnv *env) {
 	if((ENV::FromJNIEnv(env))->current_exception) {
+		if(!(ENV::FromJNIEnv(env))->current_exception->except) {
+			LOG("JNIVM", "Exception without Message was thrown");
+			return;
+		}
 		try {
 			std::rethrow_exception((ENV::FromJNIEnv(env))->current_exception->except);
 		} catch (const std::exception& ex) {
-- 
2.43.0


From f2adab8d8c43b5d5267f39af295224655808d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 16/37] fix: load a library only once

Attaching an attached library opened it again, ran JNI_OnLoad and then
JNI_OnUnload on it while it stayed loaded. removeLibrary ran JNI_OnUnload
while it erased the map entry.
---
 src/fake-jni/fake-jni.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index a06bc77..a91ee55 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -88,11 +88,20 @@ FakeJni::Jvm::libinst::~libinst() {
 }
 
 void FakeJni::Jvm::attachLibrary(const std::string &rpath, const std::string &options, FakeJni::LibraryOptions loptions) {
+	if(libraries.find(rpath) != libraries.end()) {
+		// Already loaded
+		return;
+	}
 	libraries.insert({ rpath, std::make_unique<libinst>(rpath, this, loptions) });
 }
 
 void FakeJni::Jvm::removeLibrary(const std::string &rpath, const std::string &options) {
-	libraries.erase(rpath);
+	auto lib = libraries.find(rpath);
+	if(lib != libraries.end()) {
+		// JNI_OnUnload can call back into this Jvm
+		auto inst = std::move(lib->second);
+		libraries.erase(lib);
+	}
 }
 
 std::shared_ptr<FakeJni::JObject> FakeJni::Env::resolveReference(jobject obj) {
-- 
2.43.0


From 9615ebf9747831a6195f5447d9f2c2d06c26502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 17/37] fix: close a library whose JNI_OnLoad throws

---
 src/fake-jni/fake-jni.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index a91ee55..e7b8929 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -60,20 +60,28 @@ jobject FakeJni::Jvm::createGlobalReference(std::shared_ptr<jnivm::Object> obj)
 
 FakeJni::Jvm::libinst::libinst(const std::string &rpath, JavaVM *javaVM, FakeJni::LibraryOptions loptions) : loptions(loptions), javaVM(javaVM) {
 	handle = loptions.dlopen(rpath.c_str(), RTLD_LAZY);
-	if(handle) {
-		auto JNI_OnLoad = (jint (*)(JavaVM* vm, void* reserved))loptions.dlsym(handle, "JNI_OnLoad");
-		if (JNI_OnLoad) {
-			JNI_OnLoad(javaVM, nullptr);
-		}
-	} else if(!rpath.empty() && rpath.find("/") == std::string::npos && rpath.find(".") == std::string::npos) {
-		handle = loptions.dlopen(nullptr, RTLD_LAZY);
+	try {
 		if(handle) {
-			path = rpath;
-			auto JNI_OnLoad = (jint (*)(JavaVM* vm, void* reserved))loptions.dlsym(handle, ("JNI_OnLoad_" + rpath).data());
+			auto JNI_OnLoad = (jint (*)(JavaVM* vm, void* reserved))loptions.dlsym(handle, "JNI_OnLoad");
 			if (JNI_OnLoad) {
 				JNI_OnLoad(javaVM, nullptr);
 			}
+		} else if(!rpath.empty() && rpath.find("/") == std::string::npos && rpath.find(".") == std::string::npos) {
+			handle = loptions.dlopen(nullptr, RTLD_LAZY);
+			if(handle) {
+				path = rpath;
+				auto JNI_OnLoad = (jint (*)(JavaVM* vm, void* reserved))loptions.dlsym(handle, ("JNI_OnLoad_" + rpath).data());
+				if (JNI_OnLoad) {
+					JNI_OnLoad(javaVM, nullptr);
+				}
+			}
+		}
+	} catch(...) {
+		// No destructor call for this incomplete Object
+		if(handle) {
+			loptions.dlclose(handle);
 		}
+		throw;
 	}
 }
 
-- 
2.43.0


From fb2e1a0aaa5fed62ad641fb21d184ac87b460387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 18/37] fix: enumerate the classes under the VM mutex

---
 src/fake-jni/fake-jni.cpp | 7 ++++---
 src/fake-jni/jvm.cpp      | 1 +
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index e7b8929..d05fe50 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -127,11 +127,12 @@ void FakeJni::Jvm::start() {
 }
 
 void FakeJni::Jvm::start(std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args) {
-	for(auto&& c : classes) {
+	// Other threads could find new classes
+	for(auto&& c : getClasses()) {
 		LocalFrame frame(*this);
-		auto main = c.second->getMethod("([Ljava/lang/String;)V", "main");
+		auto main = c->getMethod("([Ljava/lang/String;)V", "main");
 		if(main != nullptr) {
-			main->invoke(frame.getJniEnv(), c.second.get(), args);
+			main->invoke(frame.getJniEnv(), c.get(), args);
 			return;
 		}
 	}
diff --git a/src/fake-jni/jvm.cpp b/src/fake-jni/jvm.cpp
index 12d8c41..49934d2 100644
--- a/src/fake-jni/jvm.cpp
+++ b/src/fake-jni/jvm.cpp
@@ -38,6 +38,7 @@ std::shared_ptr<jnivm::ENV> FakeJni::Jvm::CreateEnv() {
 
 std::vector<std::shared_ptr<jnivm::Class>> FakeJni::Jvm::getClasses() {
     std::vector<std::shared_ptr<jnivm::Class>> ret;
+    std::lock_guard<std::recursive_mutex> lock(mtx);
     for(auto&& c : classes) {
         ret.emplace_back(c.second);
     }
-- 
2.43.0


From 071b7899fdbd28fc58561fc3179d7e1a8036a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 19/37] fix: give reflected methods and fields their class

ToReflectedMethod and ToReflectedField returned objects without a class, so
FromReflectedMethod and FromReflectedField returned null for them.
---
 src/jnivm/vm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 1beaf57..f6c943a 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -48,7 +48,7 @@ jfieldID FromReflectedField(JNIEnv *env, jobject obj) {
 jobject ToReflectedMethod(JNIEnv * env, jclass c, jmethodID mid, jboolean isStatic) {
 	auto method = (Method*)mid;
 	if(c && method && method->_static == (bool)isStatic) {
-		return env->NewLocalRef((jobject) method);
+		return (jobject)JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), std::shared_ptr<Method>(method->shared_from_this(), method));
 	}
 	return 0;
 };
@@ -75,7 +75,7 @@ jboolean IsAssignableFrom(JNIEnv *env, jclass c1, jclass c2) {
 jobject ToReflectedField(JNIEnv * env, jclass c, jfieldID fid, jboolean isStatic) {
 	auto field = (Field*)fid;
 	if(c && field && field->_static == (bool)isStatic) {
-		return env->NewLocalRef((jobject) field);
+		return (jobject)JNITypes<std::shared_ptr<Field>>::ToJNIType(ENV::FromJNIEnv(env), std::shared_ptr<Field>(field->shared_from_this(), field));
 	}
 	return 0;
 };
-- 
2.43.0


From 8e2a0c4611f04477b031a5b86f0d4870e344e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:58 +0000
Subject: [PATCH 20/37] fix: do not return truncated strings from NewString

std::stringstream swallows a failing allocation, the string lost its tail.
---
 src/jnivm/internal/string.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jnivm/internal/string.cpp b/src/jnivm/internal/string.cpp
index 0504e7b..5b0b888 100644
--- a/src/jnivm/internal/string.cpp
+++ b/src/jnivm/internal/string.cpp
@@ -6,12 +6,12 @@
 using namespace jnivm;
 
 jstring jnivm::NewString(JNIEnv *env, const jchar * str, jsize size) {
-    std::stringstream ss;
+    std::string ss;
     char out[3];
     for (jsize i = 0; i < size; i++) {
-        ss.write(out, JCharToUTF(str[i], out, sizeof(out)));
+        ss.append(out, JCharToUTF(str[i], out, sizeof(out)));
     }
-    return JNITypes<std::shared_ptr<String>>::ToJNIType(ENV::FromJNIEnv(env), std::make_shared<String>(ss.str()));
+    return JNITypes<std::shared_ptr<String>>::ToJNIType(ENV::FromJNIEnv(env), std::make_shared<String>(std::move(ss)));
 };
 jsize jnivm::GetStringLength(JNIEnv *env, jstring str) {
     if(str) {
-- 
2.43.0


From 012af650172668a3b700bf6ae8be328fa4820a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:02 +0000
Subject: [PATCH 21/37] fix: do not allocate in the library destructor

---
 include/fake-jni/fake-jni.h | 2 +-
 src/fake-jni/fake-jni.cpp   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/fake-jni/fake-jni.h b/include/fake-jni/fake-jni.h
index 89e97b4..c64e4cd 100644
--- a/include/fake-jni/fake-jni.h
+++ b/include/fake-jni/fake-jni.h
@@ -60,7 +60,7 @@ namespace FakeJni {
             void* handle;
             LibraryOptions loptions;
             JavaVM* javaVM;
-            std::string path;
+            std::string unloadSymbol;
         public:
             libinst(const std::string& rpath, JavaVM* javaVM, LibraryOptions loptions);
             ~libinst();
diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index d05fe50..4ec6503 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -69,7 +69,8 @@ FakeJni::Jvm::libinst::libinst(const std::string &rpath, JavaVM *javaVM, FakeJni
 		} else if(!rpath.empty() && rpath.find("/") == std::string::npos && rpath.find(".") == std::string::npos) {
 			handle = loptions.dlopen(nullptr, RTLD_LAZY);
 			if(handle) {
-				path = rpath;
+				// Prepared here, because the destructor must not throw
+				unloadSymbol = "JNI_OnUnload_" + rpath;
 				auto JNI_OnLoad = (jint (*)(JavaVM* vm, void* reserved))loptions.dlsym(handle, ("JNI_OnLoad_" + rpath).data());
 				if (JNI_OnLoad) {
 					JNI_OnLoad(javaVM, nullptr);
@@ -87,7 +88,7 @@ FakeJni::Jvm::libinst::libinst(const std::string &rpath, JavaVM *javaVM, FakeJni
 
 FakeJni::Jvm::libinst::~libinst() {
 	if(handle) {
-		auto JNI_OnUnload = (void (*)(JavaVM* vm, void* reserved))loptions.dlsym(handle, path.empty() ? "JNI_OnUnload" : ("JNI_OnUnload_" + path).data() );
+		auto JNI_OnUnload = (void (*)(JavaVM* vm, void* reserved))loptions.dlsym(handle, unloadSymbol.empty() ? "JNI_OnUnload" : unloadSymbol.data());
 		if (JNI_OnUnload) {
 			JNI_OnUnload(javaVM, nullptr);
 		}
-- 
2.43.0


From 111d6486f40e3fed3d0f4b03693425999a643584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:32 +0000
Subject: [PATCH 22/37] fix: access object array elements by the type of the
 final class

---
 include/jnivm/array.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/jnivm/array.h b/include/jnivm/array.h
index d8782ad..7a251de 100644
--- a/include/jnivm/array.h
+++ b/include/jnivm/array.h
@@ -238,19 +238,30 @@ namespace jnivm {
 
         template<class T, class...Base>
         class ArrayBaseImpl<T, std::tuple<Base...>> : public virtual Array<Base, void>... {
+            virtual std::shared_ptr<Object> Get(jint i, array_type_t<Object>) const override {
+                return ((std::shared_ptr<T>*) Array<void>::getArray())[i];
+            }
+            virtual void Set(jint i, const std::shared_ptr<Object>& val) override {
+                std::shared_ptr<T> nval(val, dynamic_cast<T*>(val.get()));
+                if(val && !nval) {
+                    throw std::runtime_error("Class Type Exception");
+                }
+                ((std::shared_ptr<T>*) Array<void>::getArray())[i] = nval;
+            }
+        };
+
+        template<class Z, class Base, class...others> class ArrayBaseImpl<Z, Base, Object, others...> : public ArrayBaseImpl<Z, Base, others...> {
             
         };
 
+        // Only the final class knows the type of the elements, which could be further derived from Z
         template<class Z, class Base, class Y, class...others> class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
             virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
-                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
+                auto val = static_cast<const Array<Object>*>(this)->Get(i, array_type_t<Object>{});
+                return std::shared_ptr<Y>(val, dynamic_cast<Y*>(val.get()));
             }
             virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
-                std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));
-                if(val && !nval) {
-                    throw std::runtime_error("Class Type Exception");
-                }
-                ((std::shared_ptr<Z>*) Array<void>::getArray())[i] = nval;
+                static_cast<Array<Object>*>(this)->Set(i, std::shared_ptr<Object>(val));
             }
         };
 
-- 
2.43.0


From b4ea302088b9cc36d407a1c232ce14d8b615718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:32 +0000
Subject: [PATCH 23/37] fix: do not hide native methods behind looked up
 stand-ins

---
 include/jnivm/method.h  | 14 +++++++++-----
 src/fake-jni/method.cpp |  2 +-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/jnivm/method.h b/include/jnivm/method.h
index 3f0b927..56bd255 100644
--- a/include/jnivm/method.h
+++ b/include/jnivm/method.h
@@ -38,6 +38,10 @@ namespace jnivm {
         jmethodID _member;
         jmethodID _static;
         jmethodID _native;
+        // Symbols constructed by a lookup of an unknown method don't hide a native method
+        static Method* select(jmethodID id, jmethodID native) {
+            return (Method*) (native && (!id || !((Method*) id)->nativehandle) ? native : id);
+        }
     public:
         MethodProxy(jmethodID _member, jmethodID _static, jmethodID _native) {
             this->_member = _member;
@@ -47,12 +51,12 @@ namespace jnivm {
         template<class... param>
         jvalue invoke(JNIEnv& env, jnivm::Class* cl, param... params) {
             if(!_static && !_native) throw std::runtime_error("No such Method!");
-            return ((Method*) (_static ? _static : _native))->invoke(env, cl, params...);
+            return select(_static, _native)->invoke(env, cl, params...);
         }
         template<class... param>
         jvalue invoke(JNIEnv& env, jnivm::Object* obj, param... params) {
             if(!_member && !_native) throw std::runtime_error("No such Method!");
-            return ((Method*) (_member ? _member : _native))->invoke(env, obj, params...);
+            return select(_member, _native)->invoke(env, obj, params...);
         }
         MethodProxy* operator->() {
             return this;
@@ -61,6 +65,9 @@ namespace jnivm {
             return (bool)_member ^ (bool)_static || (bool)_native;
         }
         operator Method*() {
+            if(_native && select(_member, _native) == (Method*) _native && select(_static, _native) == (Method*) _native) {
+                return (Method*) _native;
+            }
             if(_member && _static) {
                 throw std::runtime_error("Fake-jni Api Bug, both static and non static functions found");
             }
@@ -70,9 +77,6 @@ namespace jnivm {
             if(_static) {
                 return (Method*) _static;
             }
-            if(_native) {
-                return (Method*) _native;
-            }
             return nullptr;
         }
     };
diff --git a/src/fake-jni/method.cpp b/src/fake-jni/method.cpp
index 899a9d6..c385112 100644
--- a/src/fake-jni/method.cpp
+++ b/src/fake-jni/method.cpp
@@ -9,5 +9,5 @@ MethodProxy Class::getMethod(const char *sig, const char *name) {
     if(!_member && !_static) {
         return { nullptr, nullptr, GetMethodID<false, true, true>(FakeJni::JniEnv::getCurrentEnv(), (jclass)(Object*)this, name, sig)};
     }
-    return { _member, _static, nullptr };
+    return { _member, _static, GetMethodID<false, true, true, false>(FakeJni::JniEnv::getCurrentEnv(), (jclass)(Object*)this, name, sig)};
 }
\ No newline at end of file
-- 
2.43.0


From 86cb2e5828cb8bd2cdc8f2d2299852d5d849ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:32 +0000
Subject: [PATCH 24/37] fix: turn exceptions of field accessors into pending
 exceptions

---
 src/jnivm/internal/field.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/internal/field.cpp b/src/jnivm/internal/field.cpp
index 73cd24a..f205185 100644
--- a/src/jnivm/internal/field.cpp
+++ b/src/jnivm/internal/field.cpp
@@ -3,6 +3,7 @@
 #include "log.h"
 #include <jnivm/field.h>
 #include <jnivm/class.h>
+#include <jnivm/throwable.h>
 #include <functional>
 #include "method.h"
 
@@ -120,7 +121,14 @@ template<bool RetNull, class T, class O> T jnivm::GetField(JNIEnv *env, O obj, j
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
         LOG("JNIVM", "Invoked Field Getter Class=`%s` Field=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", fid->name.data(), fid->type.data());
 #endif
-        return Caller<std::is_same<O, jclass>::value>::template Get<T>(fid->getnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));
+        try {
+            return Caller<std::is_same<O, jclass>::value>::template Get<T>(fid->getnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));
+        } catch (...) {
+            auto cur = std::make_shared<Throwable>();
+            cur->except = std::current_exception();
+            (ENV::FromJNIEnv(env))->current_exception = cur;
+            return defaultVal<T>(ENV::FromJNIEnv(env), fid->type);
+        }
     } else {
 #ifdef JNI_TRACE
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
@@ -149,7 +157,13 @@ template<class T, class O> void jnivm::SetField(JNIEnv *env, O obj, jfieldID id,
         jvalue val;
         memset(&val, 0, sizeof(val));
         memcpy(&val, &value, sizeof(T));
-        return Caller<std::is_same<O, jclass>::value>::template Set<T>(fid->setnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj), &val);
+        try {
+            Caller<std::is_same<O, jclass>::value>::template Set<T>(fid->setnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj), &val);
+        } catch (...) {
+            auto cur = std::make_shared<Throwable>();
+            cur->except = std::current_exception();
+            (ENV::FromJNIEnv(env))->current_exception = cur;
+        }
     } else {
 #ifdef JNI_TRACE
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
-- 
2.43.0


From 3cfa2493be4e5cf812fe7e5b7884f84f5b8f51a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:40 +0000
Subject: [PATCH 25/37] fix: keep the class locked between the lookup and the
 addition of a method

---
 src/jnivm/internal/method.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 15ca243..a8192c0 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -10,6 +10,8 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
     std::string sname = str0 ? str0 : "";
     std::string ssig = str1 ? str1 : "";
     auto cur = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl);
+    // Held until the symbol is added, otherwise another thread could add it to this or a base class meanwhile
+    std::unique_lock<std::mutex> memberlock;
     if(cur) {
         // Rewrite init to Static external function
         if(!isStatic && sname == "<init>") {
@@ -24,7 +26,7 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
             return GetMethodID<true, ReturnNull, AllowNative, trace>(env, cl, str0, ssig.data());
         }
         else {
-            std::lock_guard<std::mutex> lock(cur->mtx);
+            memberlock = std::unique_lock<std::mutex>(cur->mtx);
             std::string &classname = cur->name;
             auto ccl =
                     std::find_if(cur->methods.begin(), cur->methods.end(),
@@ -67,18 +69,7 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
         Declare(env, next->signature.data());
 #endif
         if(cur) {
-            std::lock_guard<std::mutex> lock(cur->mtx);
-            // Another thread could have added this symbol since the lookup
-            auto ccl =
-                    std::find_if(cur->methods.begin(), cur->methods.end(),
-                                            [&next](std::shared_ptr<Method> &namesp) {
-                                                return namesp->_static == isStatic && AllowNative == (bool)namesp->native && namesp->name == next->name && namesp->signature == next->signature;
-                                            });
-            if (ccl != cur->methods.end()) {
-                next = *ccl;
-            } else {
-                cur->methods.push_back(next);
-            }
+            cur->methods.push_back(next);
         } else {
             // For Debugging purposes without valid parent class
             JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), next);
-- 
2.43.0


From e92be1ce2f63d4a98df103a414244d4fd3014039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:07 +0000
Subject: [PATCH 26/37] fix: make the stand-in result of a multi-dimensional
 array type as deep as declared

---
 src/jnivm/internal/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index a8192c0..83eb4b5 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -117,7 +117,7 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
                 return env->GetJNIEnv()->NewDoubleArray(0);
             case 'L':
             case '[':
-                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 1]), nullptr);
+                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2]), nullptr);
             default:
 #ifdef JNI_TRACE
             LOG("JNIVM", "Constructing array=`%s` failed unknown type", &signature.data()[off + 1]);
-- 
2.43.0


From 445e40282d9b4dcd12cbdb0bdc1b6e2e5dbd9844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:58 +0000
Subject: [PATCH 27/37] fix: do not leave an empty environment behind when
 attaching a thread fails

---
 src/jnivm/vm.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index f6c943a..5aabbcd 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -490,12 +490,13 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 #ifdef EnableJNIVMGC
 				auto&& nvm = *VM::FromJavaVM(vm);
 				std::lock_guard<std::recursive_mutex> lock(nvm.mtx);
-				auto&& nenv = nvm.jnienvs[pthread_self()];
-				if(!nenv) {
-					nenv = nvm.CreateEnv();
+				auto f = nvm.jnienvs.find(pthread_self());
+				if(f == nvm.jnienvs.end()) {
+					// Created first, a failure does not leave an empty entry
+					f = nvm.jnienvs.emplace(pthread_self(), nvm.CreateEnv()).first;
 				}
 				if(penv) {
-					*penv = nenv->GetJNIEnv();
+					*penv = f->second->GetJNIEnv();
 				}
 #else
 				if(penv) {
-- 
2.43.0


From 254adcce541f163e28c98d257ab7d49e0687b0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:22 +0000
Subject: [PATCH 28/37] fix: return the member and not the reference when a
 reflected method or field is passed by a global or weak reference

---
 src/jnivm/vm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 5aabbcd..f662aa8 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -33,14 +33,14 @@ jclass FindClass(JNIEnv *env, const char *name) {
 };
 jmethodID FromReflectedMethod(JNIEnv *env, jobject obj) {
 	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Method"))) {
-		return (jmethodID) obj;
+		return (jmethodID) JNITypes<std::shared_ptr<Method>>::JNICast(ENV::FromJNIEnv(env), obj).get();
 	} else {
 		return nullptr;
 	}
 };
 jfieldID FromReflectedField(JNIEnv *env, jobject obj) {
 	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Field"))) {
-		return (jfieldID) obj;
+		return (jfieldID) JNITypes<std::shared_ptr<Field>>::JNICast(ENV::FromJNIEnv(env), obj).get();
 	} else {
 		return nullptr;
 	}
-- 
2.43.0


From 91502664f08d85fd94c83b00f9b738068a6b6022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:22 +0000
Subject: [PATCH 29/37] fix: return an empty array from an unresolved method if
 the element class is denied

---
 src/jnivm/internal/method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 83eb4b5..ad5abba 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -117,7 +117,7 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
                 return env->GetJNIEnv()->NewDoubleArray(0);
             case 'L':
             case '[':
-                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2]), nullptr);
+                return env->GetJNIEnv()->NewObjectArray(0, InternalFindClass(env->GetJNIEnv(), signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2]), nullptr);
             default:
 #ifdef JNI_TRACE
             LOG("JNIVM", "Constructing array=`%s` failed unknown type", &signature.data()[off + 1]);
-- 
2.43.0


From ceec10f817fc7cd128021eaae48222e2456d0614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:22 +0000
Subject: [PATCH 30/37] fix: keep denied classes hidden after they have been
 declared implicitly

---
 include/baron/baron.h |  4 ++++
 src/baron/jvm.cpp     | 52 +++++++++++++++++++++++++++++++++++--------
 2 files changed, 47 insertions(+), 9 deletions(-)

diff --git a/include/baron/baron.h b/include/baron/baron.h
index 6d7307f..1bd0334 100644
--- a/include/baron/baron.h
+++ b/include/baron/baron.h
@@ -5,12 +5,16 @@
 namespace Baron {
     class Jvm : public FakeJni::Jvm {
         std::unordered_set<std::string> denyClasses;
+        // Denied classes, which were already known at the time of the denial
+        std::unordered_set<std::string> knownClasses;
         struct denyFilter {
             std::string classname;
             std::string signature;
         };
         std::unordered_multimap<std::string, denyFilter> denyMethods;
         std::unordered_multimap<std::string, denyFilter> denyFields;
+        // Denied and not provided by the application
+        bool isClassHidden(const char * name);
     protected:
         virtual std::shared_ptr<jnivm::ENV> CreateEnv() override;
     public:
diff --git a/src/baron/jvm.cpp b/src/baron/jvm.cpp
index d933aee..3fcc78d 100644
--- a/src/baron/jvm.cpp
+++ b/src/baron/jvm.cpp
@@ -22,10 +22,7 @@ std::shared_ptr<jnivm::ENV> Baron::Jvm::CreateEnv() {
         hook(tmpl);
     }
     tmpl.FindClass = [](JNIEnv *env, const char *name) -> jclass {
-        jclass ret = GetNativeInterfaceTemplate<true>().FindClass(env, name);
-        if(ret)
-            return ret;
-        if(!static_cast<Baron::Jvm*>(jnivm::ENV::FromJNIEnv(env)->GetVM())->isClassDenied(name)) {
+        if(!static_cast<Baron::Jvm*>(jnivm::ENV::FromJNIEnv(env)->GetVM())->isClassHidden(name)) {
             return GetNativeInterfaceTemplate<false>().FindClass(env, name);
             // return jnivm::ENV::FromJNIEnv(env)->GetNativeInterface().FindClass(env, name);
         }
@@ -134,7 +131,47 @@ bool Baron::Jvm::isFieldDenied(const char *name, const char *sig, const char *cl
 }
 
 void Baron::Jvm::denyClass(const char *name) {
-    denyClasses.insert(name);
+    std::lock_guard<std::recursive_mutex> lock(mtx);
+    if(denyClasses.insert(name).second && classes.find(name) != classes.end()) {
+        knownClasses.insert(name);
+    }
+}
+
+bool Baron::Jvm::isClassHidden(const char *name) {
+    if(!isClassDenied(name)) {
+        return false;
+    }
+    std::shared_ptr<jnivm::Class> cl;
+    {
+        std::lock_guard<std::recursive_mutex> lock(mtx);
+        if(knownClasses.find(name) != knownClasses.end()) {
+            return false;
+        }
+        auto ccl = classes.find(name);
+        if(ccl == classes.end()) {
+            return true;
+        }
+        cl = ccl->second;
+        for(auto && type : typecheck) {
+            if(type.second == cl) {
+                return false;
+            }
+        }
+    }
+    // The class may have been declared implicitly e.g. by the signature of a member or as the outer class of another one,
+    // only a class with hooked members has been provided by the application
+    std::lock_guard<std::mutex> lock(cl->mtx);
+    for(auto && method : cl->methods) {
+        if(method->nativehandle) {
+            return false;
+        }
+    }
+    for(auto && field : cl->fields) {
+        if(field->getnativehandle || field->setnativehandle) {
+            return false;
+        }
+    }
+    return true;
 }
 
 void Baron::Jvm::denyMethod(const char *name, const char *sig, const char *clazz) {
@@ -148,10 +185,7 @@ void Baron::Jvm::denyField(const char *name, const char *sig, const char *clazz)
 #include <jnivm/internal/findclass.h>
 
 std::shared_ptr<jnivm::Class> Baron::Jvm::findClass(const char *name) {
-    auto ret = FakeJni::Jvm::findClass(name);
-    if(ret)
-        return ret;
-    if(!isClassDenied(name)) {
+    if(!isClassHidden(name)) {
         return jnivm::InternalFindClass(jnivm::VM::GetEnv().get(), name, false);
     }
     return nullptr;
-- 
2.43.0


From 73a529095a0e5aba6953c5595f4f38b280ad2c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:11 +0000
Subject: [PATCH 31/37] fix: create the class of the main method if findClass
 does not

FakeJni::createMainMethod dereferenced a null class on a FakeJni::Jvm, whose
findClass only returns known classes.
---
 src/fake-jni/fake-jni.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index 4ec6503..5c5024e 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -201,13 +201,15 @@ jnivm::Class &jnivm::Object::getClass() {
 }
 
 void FakeJni::createMainMethod(FakeJni::Jvm &jvm, std::function<void (std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args)>&& callback) {
-    std::shared_ptr<JClass> createMainMethod = jvm.findClass("fakejni/impl/createMainMethod");
-    createMainMethod->Hook(jnivm::VM::FromJavaVM(&jvm)->GetEnv().get(), "main", std::move(callback));
+    auto env = jnivm::VM::FromJavaVM(&jvm)->GetEnv();
+    // Not findClass, it does not create the class if unknown classes are not defined implicitly
+    env->GetClass("fakejni/impl/createMainMethod")->Hook(env.get(), "main", std::move(callback));
 }
 
 void FakeJni::createMainMethod(FakeJni::Jvm &jvm, std::function<void (FakeJni::JArray<FakeJni::JString>* args)>&& callback) {
-    std::shared_ptr<JClass> createMainMethod = jvm.findClass("fakejni/impl/createMainMethod");
-    createMainMethod->Hook(jnivm::VM::FromJavaVM(&jvm)->GetEnv().get(), "main", [callback](std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args) {
+    auto env = jnivm::VM::FromJavaVM(&jvm)->GetEnv();
+    // Not findClass, it does not create the class if unknown classes are not defined implicitly
+    env->GetClass("fakejni/impl/createMainMethod")->Hook(env.get(), "main", [callback](std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args) {
         callback(args.get());
     });
 }
\ No newline at end of file
-- 
2.43.0


From c4b4b689800a92351699ba5312d05d17fde3d092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:10 +0000
Subject: [PATCH 32/37] fix: read the base classes and the factory of a class
 under the VM mutex

Registering a type of a class that is already known by name raced with
lookups, calls and Jvm::start, which read its function objects meanwhile.
---
 include/jnivm/class.h         |  4 ++++
 src/jnivm/env.cpp             | 10 ++++++++++
 src/jnivm/internal/field.cpp  | 12 +++++-------
 src/jnivm/internal/method.cpp | 12 ++++++------
 src/jnivm/vm.cpp              | 11 +++++------
 5 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/include/jnivm/class.h b/include/jnivm/class.h
index 0acb83a..9a3c664 100644
--- a/include/jnivm/class.h
+++ b/include/jnivm/class.h
@@ -34,6 +34,10 @@ namespace jnivm {
 
         }
 
+        // Copies of the members above, this class could be registered by another thread meanwhile
+        std::vector<std::shared_ptr<Class>> FindBaseClasses(ENV* env);
+        std::function<std::shared_ptr<Object>(ENV* env)> GetInstantiate(ENV* env);
+
         MethodProxy getMethod(const char* sig, const char* name);
 
         std::string getName() const {
diff --git a/src/jnivm/env.cpp b/src/jnivm/env.cpp
index 978d44e..daa0bbf 100644
--- a/src/jnivm/env.cpp
+++ b/src/jnivm/env.cpp
@@ -18,6 +18,16 @@ std::shared_ptr<Class> ENV::GetClass(const char * name) {
 	return InternalFindClass(this, name);
 }
 
+std::vector<std::shared_ptr<Class>> jnivm::Class::FindBaseClasses(ENV* env) {
+	std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
+	return baseclasses ? baseclasses(env) : std::vector<std::shared_ptr<Class>>{};
+}
+
+std::function<std::shared_ptr<Object>(ENV* env)> jnivm::Class::GetInstantiate(ENV* env) {
+	std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
+	return Instantiate;
+}
+
 void jnivm::ENV::OverrideJNINativeInterface(const JNINativeInterface &ninterface) {
 	if(ninterface.reserved0 != nullptr && ninterface.reserved0 != this->ninterface.reserved0) {
 		throw std::runtime_error("Updating `ninterface.reserved0` to a different value is forbidden");
diff --git a/src/jnivm/internal/field.cpp b/src/jnivm/internal/field.cpp
index f205185..89a63fb 100644
--- a/src/jnivm/internal/field.cpp
+++ b/src/jnivm/internal/field.cpp
@@ -30,13 +30,11 @@ jfieldID jnivm::GetFieldID(JNIEnv *env, jclass cl_, const char *name, const char
         LOG("JNIVM", "Found symbol, Class=`%s`, %sField=`%s`, Signature=`%s`", cl ? cl->nativeprefix.data() : nullptr, isStatic ? "Static" : "", name, type);
 #endif
     } else {
-        if(cur->baseclasses) {
-            for(auto&& i : cur->baseclasses(ENV::FromJNIEnv(env))) {
-                if(i) {
-                    auto id = GetFieldID<isStatic, true, false>(env, (jclass)i.get(), name, type);
-                    if(id) {
-                        return id;
-                    }
+        for(auto&& i : cur->FindBaseClasses(ENV::FromJNIEnv(env))) {
+            if(i) {
+                auto id = GetFieldID<isStatic, true, false>(env, (jclass)i.get(), name, type);
+                if(id) {
+                    return id;
                 }
             }
         }
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index ad5abba..93318cb 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -43,8 +43,8 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
 #endif
     }
     if(!next) {
-        if(cur && cur->baseclasses) {
-            for(auto&& i : cur->baseclasses(ENV::FromJNIEnv(env))) {
+        if(cur) {
+            for(auto&& i : cur->FindBaseClasses(ENV::FromJNIEnv(env))) {
                 if(i) {
                     auto id = GetMethodID<isStatic, true, AllowNative, false>(env, (jclass)i.get(), str0, str1);
                     if(id) {
@@ -127,11 +127,11 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
             
         } else if(signature[off + 1] == 'L' && signature[signature.size() - 1] == ';'){
             auto c = env->GetClass(signature.substr(off + 2, signature.size() - (off + 3)).data());
-            if(c->Instantiate) {
+            if(auto instantiate = c->GetInstantiate(env)) {
 #ifdef JNI_TRACE
                 LOG("JNIVM", "Construct object=`%s` via default constructor", &signature.data()[off + 1]);
 #endif
-                return JNITypes<std::shared_ptr<Object>>::ToJNIReturnType(env, c->Instantiate(env));
+                return JNITypes<std::shared_ptr<Object>>::ToJNIReturnType(env, instantiate(env));
             } else {
                 std::lock_guard<std::recursive_mutex> guard(env->GetVM()->mtx);
                 bool safetocreatedummy = true;
@@ -184,8 +184,8 @@ static Method* findNonVirtualOverload(Class*cl, Method*mid) {
 
 static Method* findInheritedOverload(jnivm::ENV *env, Class*cl, Method*mid) {
     auto r = findNonVirtualOverload(cl, mid);
-    if(r == nullptr && cl->baseclasses) {
-        for(auto&& i : cl->baseclasses(env)) {
+    if(r == nullptr) {
+        for(auto&& i : cl->FindBaseClasses(env)) {
             if(i && (r = findInheritedOverload(env, i.get(), mid)) != nullptr) {
                 break;
             }
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index f662aa8..1c8932a 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -54,17 +54,16 @@ jobject ToReflectedMethod(JNIEnv * env, jclass c, jmethodID mid, jboolean isStat
 };
 jclass GetSuperclass(JNIEnv * env, jclass c) {
 	auto&& cl = JNITypes<std::shared_ptr<jnivm::Class>>::JNICast(ENV::FromJNIEnv(env), c);
-	return cl->baseclasses ? (jclass)(cl->baseclasses(ENV::FromJNIEnv(env))[0]).get() : nullptr;
+	auto baseclasses = cl->FindBaseClasses(ENV::FromJNIEnv(env));
+	return !baseclasses.empty() ? (jclass)baseclasses[0].get() : nullptr;
 };
 bool HasBaseClass(JNIEnv *env, Class* cl, Class* c2) {
 	if(cl == c2) {
 		return true;
 	}
-	if(cl->baseclasses) {
-		for(auto&& i : cl->baseclasses(ENV::FromJNIEnv(env))) {
-			if(i && HasBaseClass(env, i.get(), c2)) {
-				return true;
-			}
+	for(auto&& i : cl->FindBaseClasses(ENV::FromJNIEnv(env))) {
+		if(i && HasBaseClass(env, i.get(), c2)) {
+			return true;
 		}
 	}
 	return false;
-- 
2.43.0


From fb9ead87097671ee4f47c29536c4b851e2e176e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:21 +0000
Subject: [PATCH 33/37] fix: register a type completely or not at all

If the allocation for the type map failed, the class kept a factory whose
objects had no class.
---
 include/jnivm/env.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/jnivm/env.h b/include/jnivm/env.h
index 5dbf7f2..ed3d882 100644
--- a/include/jnivm/env.h
+++ b/include/jnivm/env.h
@@ -93,13 +93,14 @@ namespace jnivm {
 template<class T> std::shared_ptr<jnivm::Class> jnivm::ENV::GetClass(const char *name) {
     std::lock_guard<std::recursive_mutex> lock(vm->mtx);
     auto c = GetClass(name);
+    // The only step that can fail, a class with a factory needs a type
+    vm->typecheck[typeid(T)] = c;
     auto instantiate = jnivm::Factory<T>::CreateLambda();
     // Other threads could be using it, don't replace it with itself
     if(c->Instantiate.target_type() != instantiate.target_type()) {
         c->Instantiate = std::move(instantiate);
     }
     IsClass<T>::AddInherience(c, this);
-    vm->typecheck[typeid(T)] = c;
     return c;
 }
 #endif
\ No newline at end of file
-- 
2.43.0


From a432f609ce8e274555fd257d7de21d169683d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:32 +0000
Subject: [PATCH 34/37] fix: keep the object of a reference parameter alive
 during the call

A hook with an object reference parameter (T&) was given a reference to an
object nothing held: deleting its last JNI reference while the hook runs
destroyed it. Register it as a local reference, like pointer parameters.
---
 include/jnivm/jnitypes.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index 68fe13c..e54f4e4 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -368,6 +368,17 @@ template<class orgtype, class T> struct OrgTypeConverter {
     }
 };
 
+template<class orgtype, class T> struct OrgTypeConverter<orgtype&, T> {
+    static orgtype& Convert(jnivm::ENV *env, std::shared_ptr<T> && org) {
+        if(!org) {
+            throw std::runtime_error("Cannot assign null to value type!");
+        }
+        // the reference has to stay valid, even if the caller loses the object meanwhile
+        (void)jnivm::JNITypes<jnivm::Object>::ToJNIType(env, org);
+        return *org.get();
+    }
+};
+
 template<class orgtype, class T> struct OrgTypeConverter<std::shared_ptr<orgtype>, T> {
     static std::shared_ptr<T> && Convert(jnivm::ENV *env, std::shared_ptr<T> && org) {
         return std::move(org);
-- 
2.43.0


From c000cfcf3d60708684e8e9879591b86c977da29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:13 +0000
Subject: [PATCH 35/37] fix: a hook keeps its own copy of a function pointer

---
 include/jnivm/wrap.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/jnivm/wrap.h b/include/jnivm/wrap.h
index c30b057..bc5229d 100644
--- a/include/jnivm/wrap.h
+++ b/include/jnivm/wrap.h
@@ -5,12 +5,16 @@
 #include <unordered_map>
 #include <utility>
 #include <stdexcept>
+#include <type_traits>
 #include <jni.h>
 #include "jnitypes.h"
 #include "function.h"
 
 namespace jnivm {
 
+    // A hook owns a copy of its function (pointer), the variable it was passed in might not outlive the hook. References to functions are always valid
+    template<class Funk> using FunctionStorage = std::conditional_t<std::is_function<std::remove_reference_t<Funk>>::value, Funk, std::decay_t<Funk>>;
+
     template<class... T> struct UnfoldJNISignature {
         static std::string GetJNISignature(ENV * env) {
             return "";
@@ -159,7 +163,7 @@ namespace jnivm {
     };
     template<class Funk, size_t...I> class OldWrapper<Funk, FunctionType::Property, std::index_sequence<I...>> : public Property<Funk> {
         using Function = jnivm::Function<Funk>;
-        Funk handle;
+        FunctionStorage<Funk> handle;
     public:
         OldWrapper(Funk handle) : handle(handle) {}
 
@@ -179,7 +183,7 @@ namespace jnivm {
 
     template<class Funk, size_t...I> class OldWrapper<Funk, FunctionType::InstanceProperty, std::index_sequence<I...>> : public Property<Funk> {
         using Function = jnivm::Function<Funk>;
-        Funk handle;
+        FunctionStorage<Funk> handle;
     public:
         OldWrapper(Funk handle) : handle(handle) {}
 
@@ -193,7 +197,7 @@ namespace jnivm {
     
     template<class Funk, class...EnvOrObjOrClass> class BaseWrapper<Funk, FunctionType::Instance, EnvOrObjOrClass...> : public Obj<Funk, EnvOrObjOrClass...>::template InstanceBase<std::make_index_sequence<Function<Funk>::plength - sizeof...(EnvOrObjOrClass)>> {
         using Function = jnivm::Function<Funk>;
-        Funk handle;
+        FunctionStorage<Funk> handle;
         using BaseClass = typename Obj<Funk, EnvOrObjOrClass...>::template InstanceBase<std::make_index_sequence<Function::plength - sizeof...(EnvOrObjOrClass)>>;
     public:
         BaseWrapper(Funk handle) : handle(handle) {}
@@ -210,7 +214,7 @@ namespace jnivm {
     };
 
     template<class Funk, class Base1, class Base2> class WrapperUtil : public Base1, public Base2 {
-        Funk handle;
+        FunctionStorage<Funk> handle;
         using Function = jnivm::Function<Funk>;
     public:
         WrapperUtil(Funk handle) : handle(handle) {}
-- 
2.43.0


From 384365bd0fba89fba04099a3e0b2e0602851f780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:56 +0000
Subject: [PATCH 36/37] fix: give arrays made by C++ code their class

An array returned by a hook had no class: GetObjectClass yielded null
and IsInstanceOf crashed.
---
 include/jnivm/jnitypes.h | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index e54f4e4..3be7418 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -252,6 +252,8 @@ namespace jnivm {
             utility_<T, std::is_class<T>::value>::utility(env, res);
             return res;
         }
+        // Arrays aren't part of the typecheck map, their class depends on the class of the elements
+        static std::shared_ptr<jnivm::Class> GetClass(ENV * env);
     };
 
     template <class T> struct JNITypes<std::shared_ptr<impl::Array<T>>> : JNITypes<impl::Array<T>> {
@@ -294,6 +296,32 @@ template<class T, class B, class orgtype> std::shared_ptr<jnivm::Class> jnivm::J
     }
 }
 
+namespace jnivm {
+    template<class T, bool> struct ArrayClassName {
+        static std::string Get(ENV* env) {
+            auto element = JNITypes<T>::GetClass(env);
+            if(!element) return "";
+            return element->nativeprefix[0] == '[' ? "[" + element->nativeprefix : "[L" + element->nativeprefix + ";";
+        }
+    };
+    template<class T> struct ArrayClassName<T, false> {
+        static std::string Get(ENV* env) {
+            return "[" + JNITypes<T>::GetJNISignature(env);
+        }
+    };
+    template<> struct ArrayClassName<void, false> {
+        static std::string Get(ENV* env) {
+            return "";
+        }
+    };
+}
+
+template<class T> std::shared_ptr<jnivm::Class> jnivm::JNITypes<jnivm::impl::Array<T>>::GetClass(jnivm::ENV *env) {
+    std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
+    auto name = ArrayClassName<T, std::is_class<T>::value>::Get(env);
+    return name.empty() ? nullptr : InternalFindClass(env, name.data());
+}
+
 template<class T, class B, class orgtype> template<class Y> B jnivm::JNITypesObjectBase<T, B, orgtype>::ToJNIType(jnivm::ENV *env, const std::shared_ptr<Y> &p) {
     if(!p) return nullptr;
     // Cache return values in localframe list of this thread, destroy delayed
@@ -304,7 +332,7 @@ template<class T, class B, class orgtype> template<class Y> B jnivm::JNITypesObj
             std::lock_guard<std::recursive_mutex> lock(env->GetVM()->mtx);
             auto clazz = obj->clazz.lock();
             if(!clazz) {
-                obj->clazz = JNITypesObjectBase<Y, B>::GetClass(env);
+                obj->clazz = JNITypes<Y>::GetClass(env);
             }
         }
         auto ref = (B)obj.get();
-- 
2.43.0


From 83a46cf243b1dd3d31f18f70affce76f99c40890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:56 +0000
Subject: [PATCH 37/37] fix: null is an instance of every class

---
 src/jnivm/vm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 1c8932a..38eefcd 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -255,7 +255,7 @@ jclass GetObjectClass(JNIEnv *env, jobject jo) {
 	return jo ? JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(ENV::FromJNIEnv(env), JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo)->getClassInternal(ENV::FromJNIEnv(env))) : env->FindClass("Invalid");
 };
 jboolean IsInstanceOf(JNIEnv *env, jobject jo, jclass cl) {
-	return jo && IsAssignableFrom(env, GetObjectClass(env, jo), cl);
+	return !jo || IsAssignableFrom(env, GetObjectClass(env, jo), cl);
 };
 
 #include "internal/method.h"
-- 
2.43.0

