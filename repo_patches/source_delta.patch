From e5dd3893e0b16f137dcc95761414645707c5b174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 01/30] fix: declare a looked up method atomically

Two threads asking for the same undeclared method both appended to the
class without holding its lock, which corrupted the list or produced two
ids for one method.
---
 src/jnivm/internal/method.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index a9fe678..83cdb2e 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -10,6 +10,9 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
     std::string sname = str0 ? str0 : "";
     std::string ssig = str1 ? str1 : "";
     auto cur = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl);
+    auto matches = [&sname, &ssig](std::shared_ptr<Method> &namesp) {
+        return namesp->_static == isStatic && AllowNative == (bool)namesp->native && namesp->name == sname && namesp->signature == ssig;
+    };
     if(cur) {
         // Rewrite init to Static external function
         if(!isStatic && sname == "<init>") {
@@ -25,12 +28,7 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
         }
         else {
             std::lock_guard<std::mutex> lock(cur->mtx);
-            std::string &classname = cur->name;
-            auto ccl =
-                    std::find_if(cur->methods.begin(), cur->methods.end(),
-                                            [&sname, &ssig](std::shared_ptr<Method> &namesp) {
-                                                return namesp->_static == isStatic && AllowNative == (bool)namesp->native && namesp->name == sname && namesp->signature == ssig;
-                                            });
+            auto ccl = std::find_if(cur->methods.begin(), cur->methods.end(), matches);
             if (ccl != cur->methods.end()) {
                 next = *ccl;
             }
@@ -60,15 +58,22 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
             return nullptr;
         }
         next = std::make_shared<Method>();
+        next->name = sname;
+        next->signature = ssig;
+        next->_static = isStatic;
         if(cur) {
-            cur->methods.push_back(next);
+            // Another thread may have declared the same method since the lookup above
+            std::lock_guard<std::mutex> lock(cur->mtx);
+            auto ccl = std::find_if(cur->methods.begin(), cur->methods.end(), matches);
+            if (ccl != cur->methods.end()) {
+                next = *ccl;
+            } else {
+                cur->methods.push_back(next);
+            }
         } else {
             // For Debugging purposes without valid parent class
             JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), next);
         }
-        next->name = std::move(sname);
-        next->signature = std::move(ssig);
-        next->_static = isStatic;
 #ifdef JNI_DEBUG
         Declare(env, next->signature.data());
 #endif
-- 
2.43.0


From 330f7ae2d9ba7267677caa5316fa5260198a0677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:33 +0000
Subject: [PATCH 02/30] fix: guard the class registry in every lookup

Only FindClass and the typed GetClass took the VM lock; classes declared
by a signature, an array, a handle or a default return value modified the
class map and the namespaces concurrently with them.
---
 include/jnivm/env.h              |  3 +-
 src/fake-jni/fake-jni.cpp        |  6 +--
 src/fake-jni/jvm.cpp             | 89 ++++++++++++++++----------------
 src/jnivm/internal/findclass.cpp |  2 +
 src/jnivm/vm.cpp                 |  2 -
 5 files changed, 52 insertions(+), 50 deletions(-)

diff --git a/include/jnivm/env.h b/include/jnivm/env.h
index 5505207..1ddd999 100644
--- a/include/jnivm/env.h
+++ b/include/jnivm/env.h
@@ -85,8 +85,9 @@ namespace jnivm {
 }
 
 template<class T> std::shared_ptr<jnivm::Class> jnivm::ENV::GetClass(const char *name) {
+    auto cl = GetClass(name);
     std::lock_guard<std::mutex> lock(vm->mtx);
-    auto& c = vm->typecheck[typeid(T)] = GetClass(name);
+    auto& c = vm->typecheck[typeid(T)] = std::move(cl);
     c->Instantiate = jnivm::Factory<T>::CreateLambda();
     IsClass<T>::AddInherience(c, this);
     return c;
diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index a06bc77..7e15c3e 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -110,11 +110,11 @@ void FakeJni::Jvm::start() {
 }
 
 void FakeJni::Jvm::start(std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args) {
-	for(auto&& c : classes) {
+	for(auto&& c : getClasses()) {
 		LocalFrame frame(*this);
-		auto main = c.second->getMethod("([Ljava/lang/String;)V", "main");
+		auto main = c->getMethod("([Ljava/lang/String;)V", "main");
 		if(main != nullptr) {
-			main->invoke(frame.getJniEnv(), c.second.get(), args);
+			main->invoke(frame.getJniEnv(), c.get(), args);
 			return;
 		}
 	}
diff --git a/src/fake-jni/jvm.cpp b/src/fake-jni/jvm.cpp
index 12d8c41..48c9300 100644
--- a/src/fake-jni/jvm.cpp
+++ b/src/fake-jni/jvm.cpp
@@ -1,45 +1,46 @@
-#include <fake-jni/jvm.h>
-#include <stdexcept>
-
-using namespace FakeJni;
-
-FakeJni::Jvm::Jvm(bool skipInit, bool returnNull) : VM(true, returnNull) {
-    functions = GetJavaVM()->functions;
-    if(!skipInit) {
-        initialize();
-    }
-}
-
-FakeJni::Jvm::Jvm() : Jvm(false, true) {
-
-    // oldinterface = *GetJavaVM()->functions;
-    // JNIInvokeInterface patchinterface = *GetJavaVM()->functions;
-    // patchinterface.reserved1 = this;
-    // // patchinterface.AttachCurrentThread = [](JavaVM *vm, JNIEnv **env, void *reserved) {
-    // //     auto jvm = static_cast<Jvm*>(vm->functions->reserved1);
-    // //     auto ret = jvm->oldinterface.AttachCurrentThread(vm, env, reserved);
-    // //     return ret;
-    // // };
-    // OverrideJNIInvokeInterface(patchinterface);
-}
-
-std::shared_ptr<jnivm::ENV> FakeJni::Jvm::CreateEnv() {
-    if(FakeJni::JniEnvContext::env.env.lock()) {
-        throw std::runtime_error("Attempt to initialize a FakeJni::Env twice in one thread!");
-    }
-    auto tmpl = GetNativeInterfaceTemplate();
-	for(auto && hook : jnienvhooks) {
-        hook(tmpl);
-    }
-    auto ret = std::make_shared<Env>(*this, static_cast<jnivm::VM*>(this), tmpl);
-    FakeJni::JniEnvContext::env.env = ret;
-    return std::shared_ptr<jnivm::ENV>(ret, jnivm::ENV::FromJNIEnv(ret.get()));
-}
-
-std::vector<std::shared_ptr<jnivm::Class>> FakeJni::Jvm::getClasses() {
-    std::vector<std::shared_ptr<jnivm::Class>> ret;
-    for(auto&& c : classes) {
-        ret.emplace_back(c.second);
-    }
-    return ret;
+#include <fake-jni/jvm.h>
+#include <stdexcept>
+
+using namespace FakeJni;
+
+FakeJni::Jvm::Jvm(bool skipInit, bool returnNull) : VM(true, returnNull) {
+    functions = GetJavaVM()->functions;
+    if(!skipInit) {
+        initialize();
+    }
+}
+
+FakeJni::Jvm::Jvm() : Jvm(false, true) {
+
+    // oldinterface = *GetJavaVM()->functions;
+    // JNIInvokeInterface patchinterface = *GetJavaVM()->functions;
+    // patchinterface.reserved1 = this;
+    // // patchinterface.AttachCurrentThread = [](JavaVM *vm, JNIEnv **env, void *reserved) {
+    // //     auto jvm = static_cast<Jvm*>(vm->functions->reserved1);
+    // //     auto ret = jvm->oldinterface.AttachCurrentThread(vm, env, reserved);
+    // //     return ret;
+    // // };
+    // OverrideJNIInvokeInterface(patchinterface);
+}
+
+std::shared_ptr<jnivm::ENV> FakeJni::Jvm::CreateEnv() {
+    if(FakeJni::JniEnvContext::env.env.lock()) {
+        throw std::runtime_error("Attempt to initialize a FakeJni::Env twice in one thread!");
+    }
+    auto tmpl = GetNativeInterfaceTemplate();
+	for(auto && hook : jnienvhooks) {
+        hook(tmpl);
+    }
+    auto ret = std::make_shared<Env>(*this, static_cast<jnivm::VM*>(this), tmpl);
+    FakeJni::JniEnvContext::env.env = ret;
+    return std::shared_ptr<jnivm::ENV>(ret, jnivm::ENV::FromJNIEnv(ret.get()));
+}
+
+std::vector<std::shared_ptr<jnivm::Class>> FakeJni::Jvm::getClasses() {
+    std::lock_guard<std::mutex> lock(mtx);
+    std::vector<std::shared_ptr<jnivm::Class>> ret;
+    for(auto&& c : classes) {
+        ret.emplace_back(c.second);
+    }
+    return ret;
 }
\ No newline at end of file
diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index dd71499..ae60955 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -13,6 +13,8 @@ std::shared_ptr<jnivm::Class> jnivm::InternalFindClass(ENV *env, const char *nam
 		LOG("JNIVM", "FindClass %s", name);
 	}
 #endif
+	// Protects the class map and the namespace hierarchy
+	std::lock_guard<std::mutex> lock(vm->mtx);
 	std::shared_ptr<Class> curc = nullptr;
 #ifdef JNI_DEBUG
 	if(name[0] != '[') {
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index b27b9d2..b9d6c7d 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -27,8 +27,6 @@ jclass DefineClass(JNIEnv *, const char *, jobject, const jbyte *, jsize) {
 
 template<bool returnZero=false>
 jclass FindClass(JNIEnv *env, const char *name) {
-	auto&& nenv = *ENV::FromJNIEnv(env);
-	std::lock_guard<std::mutex> lock(nenv.GetVM()->mtx);
 	return InternalFindClass(env, name, returnZero, true);
 };
 jmethodID FromReflectedMethod(JNIEnv *env, jobject obj) {
-- 
2.43.0


From 98c89e07b7d4e658d079d65f7a126e11aa7740cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 03/30] fix: guard the native type registry and the lazily
 assigned object class

Registering a native type modified the registry under the VM lock while
conversions, hooks and hierarchy queries read it without; extending an
unregistered base even inserted into it. Two threads converting the same
object for the first time both wrote its class.
---
 include/jnivm/class.h         |  2 +
 include/jnivm/env.h           |  1 +
 include/jnivm/extends.h       | 83 +++++++++++++++++++----------------
 include/jnivm/jnitypes.h      | 15 ++++---
 src/jnivm/internal/method.cpp | 12 ++---
 src/jnivm/object.cpp          |  2 +
 6 files changed, 66 insertions(+), 49 deletions(-)

diff --git a/include/jnivm/class.h b/include/jnivm/class.h
index dd096c3..2886350 100644
--- a/include/jnivm/class.h
+++ b/include/jnivm/class.h
@@ -72,6 +72,7 @@ namespace jnivm {
             static void install(ENV* env, Class* cl, const std::string& id, T&& t) {
                 // Filter false positives at runtime
                 if((int)bind & (int)FunctionType::Instance ? !std::is_same<Object*, typename Function<T>::template Parameter<1>>::value && !std::is_same<jobject, typename Function<T>::template Parameter<1>>::value : !std::is_same<Class*, typename Function<T>::template Parameter<1>>::value && !std::is_same<jclass, typename Function<T>::template Parameter<1>>::value) {
+                    std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
                     auto oc = env->GetVM()->typecheck.find(typeid(std::remove_pointer_t<typename Function<T>::template Parameter<1>>));
                     if(oc == env->GetVM()->typecheck.end() || oc->second.get() != cl) {
                         return;
@@ -85,6 +86,7 @@ namespace jnivm {
             static void install(ENV* env, Class* cl, const std::string& id, T&& t) {
                 // Filter false positives at runtime
                 if((int)bind & (int)FunctionType::Instance ? !std::is_same<Object*, typename Function<T>::template Parameter<0>>::value && !std::is_same<jobject, typename Function<T>::template Parameter<0>>::value : !std::is_same<Class*, typename Function<T>::template Parameter<0>>::value && !std::is_same<jclass, typename Function<T>::template Parameter<0>>::value) {
+                    std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
                     auto oc = env->GetVM()->typecheck.find(typeid(std::remove_pointer_t<typename Function<T>::template Parameter<0>>));
                     if(oc == env->GetVM()->typecheck.end() || oc->second.get() != cl) {
                         return;
diff --git a/include/jnivm/env.h b/include/jnivm/env.h
index 1ddd999..348dbce 100644
--- a/include/jnivm/env.h
+++ b/include/jnivm/env.h
@@ -62,6 +62,7 @@ namespace jnivm {
             static_assert(std::is_base_of<Object, T>::value, "You have to public extend jnivm::Object / FakeJni::JObject");
             return [](ENV* env) -> std::shared_ptr<jnivm::Object> {
                 auto res = std::make_shared<T>();
+                std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
                 auto f = env->GetVM()->typecheck.find(typeid(T));
                 if(f != env->GetVM()->typecheck.end()) {
                     res->clazz = f->second;
diff --git a/include/jnivm/extends.h b/include/jnivm/extends.h
index d7b7aad..94320e5 100644
--- a/include/jnivm/extends.h
+++ b/include/jnivm/extends.h
@@ -1,40 +1,45 @@
-#pragma once
-#include "object.h"
-#include "env.h"
-#include "arrayBase.h"
-#include <typeindex>
-#include <stdexcept>
-
-namespace jnivm {
-
-    namespace impl {
-        template<class, class... BaseClasses> class Extends : public virtual BaseClasses... {
-        public:
-            using BaseClasseTuple = std::tuple<BaseClasses...>;
-            template<class T>
-            using ArrayBaseType = ArrayBase<T, BaseClasses...>;
-            static std::vector<std::shared_ptr<Class>> GetBaseClasses(ENV* env) {
-                std::vector<std::shared_ptr<Class>> ret = { env->GetVM()->typecheck[typeid(BaseClasses)]... };
-#ifndef NDEBUG
-                for(size_t i = 0, size = ret.size(); i < size; ++i) {
-                    if(!ret[i]) {
-                        static const std::type_info* const types[] = {&typeid(BaseClasses)...};
-                        throw std::runtime_error("Fatal BaseClass not registred!" + std::string(types[i]->name()));
-                    }
-                }
-#endif
-                return ret;
-            }
-        };
-
-        // template<class Base, class Result, class...Interfaces> struct ExtendsResolver;
-        // template<class Base, class Result, class Interface, class...Interfaces> struct ExtendsResolver<Base, Result, Interface, Interfaces...> {
-        //     using Resolver = std::conditional_t<std::is_base_of<Interface, Base>::value, typename ExtendsResolver<Base, Result, Interfaces...>::Resolver, typename ExtendsResolver<Base, decltype(std::tuple_cat(Result{}, std::tuple<Interface>{})), Interfaces...>::Resolver>;
-        // };
-        // template<class Base, class...Interfaces> struct ExtendsResolver<Base, std::tuple<Interfaces...>> {
-        //     using Resolver = impl::Extends<void, Base, Interfaces...>;
-        // };
-    }
-    template<class Base = Object, class... Interfaces>
-    using Extends = /* typename impl::ExtendsResolver<Base, std::tuple<>, Interfaces...>::Resolver; */impl::Extends<void, Base, Interfaces...>;
+#pragma once
+#include "object.h"
+#include "env.h"
+#include "arrayBase.h"
+#include <typeindex>
+#include <stdexcept>
+
+namespace jnivm {
+
+    namespace impl {
+        template<class, class... BaseClasses> class Extends : public virtual BaseClasses... {
+        public:
+            using BaseClasseTuple = std::tuple<BaseClasses...>;
+            template<class T>
+            using ArrayBaseType = ArrayBase<T, BaseClasses...>;
+            static std::vector<std::shared_ptr<Class>> GetBaseClasses(ENV* env) {
+                auto find = [vm = env->GetVM()](std::type_index type) -> std::shared_ptr<Class> {
+                    std::lock_guard<std::mutex> lock(vm->mtx);
+                    auto f = vm->typecheck.find(type);
+                    return f != vm->typecheck.end() ? f->second : nullptr;
+                };
+                std::vector<std::shared_ptr<Class>> ret = { find(typeid(BaseClasses))... };
+#ifndef NDEBUG
+                for(size_t i = 0, size = ret.size(); i < size; ++i) {
+                    if(!ret[i]) {
+                        static const std::type_info* const types[] = {&typeid(BaseClasses)...};
+                        throw std::runtime_error("Fatal BaseClass not registred!" + std::string(types[i]->name()));
+                    }
+                }
+#endif
+                return ret;
+            }
+        };
+
+        // template<class Base, class Result, class...Interfaces> struct ExtendsResolver;
+        // template<class Base, class Result, class Interface, class...Interfaces> struct ExtendsResolver<Base, Result, Interface, Interfaces...> {
+        //     using Resolver = std::conditional_t<std::is_base_of<Interface, Base>::value, typename ExtendsResolver<Base, Result, Interfaces...>::Resolver, typename ExtendsResolver<Base, decltype(std::tuple_cat(Result{}, std::tuple<Interface>{})), Interfaces...>::Resolver>;
+        // };
+        // template<class Base, class...Interfaces> struct ExtendsResolver<Base, std::tuple<Interfaces...>> {
+        //     using Resolver = impl::Extends<void, Base, Interfaces...>;
+        // };
+    }
+    template<class Base = Object, class... Interfaces>
+    using Extends = /* typename impl::ExtendsResolver<Base, std::tuple<>, Interfaces...>::Resolver; */impl::Extends<void, Base, Interfaces...>;
 }
\ No newline at end of file
diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index 473101e..1ff8779 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -284,8 +284,7 @@ template<class T, class B, class orgtype> std::string jnivm::JNITypesObjectBase<
 }
 
 template<class T, class B, class orgtype> std::shared_ptr<jnivm::Class> jnivm::JNITypesObjectBase<T, B, orgtype>::GetClass(jnivm::ENV *env) {
-    // ToDo find the deadlock or replace with recursive_mutex
-    // std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
+    std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
     auto r = env->GetVM()->typecheck.find(typeid(T));
     if(r != env->GetVM()->typecheck.end()) {
         return r->second;
@@ -300,9 +299,15 @@ template<class T, class B, class orgtype> template<class Y> B jnivm::JNITypesObj
     
     std::shared_ptr<Object> obj(p, p.get());
     if(obj) {
-        auto clazz = obj->clazz.lock();
-        if(!clazz) {
-            obj->clazz = JNITypesObjectBase<Y, B>::GetClass(env);
+        {
+            // Multiple threads may convert the same object for the first time
+            std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
+            if(obj->clazz.expired()) {
+                auto r = env->GetVM()->typecheck.find(typeid(Y));
+                if(r != env->GetVM()->typecheck.end()) {
+                    obj->clazz = r->second;
+                }
+            }
         }
         auto ref = (B)obj.get();
         env->localframe.front().push_back(std::move(obj));
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 83cdb2e..48aa4ad 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -136,12 +136,14 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
 #endif
                 return JNITypes<std::shared_ptr<Object>>::ToJNIReturnType(env, c->Instantiate(env));
             } else {
-                std::lock_guard<std::mutex> guard(env->GetVM()->mtx);
                 bool safetocreatedummy = true;
-                for(auto&& ty : env->GetVM()->typecheck) {
-                    if(ty.second == c) {
-                        safetocreatedummy = false;
-                        break;
+                {
+                    std::lock_guard<std::mutex> guard(env->GetVM()->mtx);
+                    for(auto&& ty : env->GetVM()->typecheck) {
+                        if(ty.second == c) {
+                            safetocreatedummy = false;
+                            break;
+                        }
                     }
                 }
                 if(safetocreatedummy) {
diff --git a/src/jnivm/object.cpp b/src/jnivm/object.cpp
index ed7ab83..75da886 100644
--- a/src/jnivm/object.cpp
+++ b/src/jnivm/object.cpp
@@ -3,6 +3,8 @@
 #include <jnivm/weak.h>
 
 std::shared_ptr<jnivm::Class> jnivm::Object::getClassInternal(jnivm::ENV *env) {
+    // Assigned while converting the object to a jni reference, maybe by another thread
+    std::lock_guard<std::mutex> lock(env->GetVM()->mtx);
     return clazz.lock();
 }
 
-- 
2.43.0


From b7e81175d0dd91a8b7b6510807a6bc956d20efca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 04/30] fix: guard the environment map in VM::GetEnv

It may insert an entry for the calling thread while other threads attach
or detach.
---
 src/jnivm/vm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index b9d6c7d..cd12982 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -543,6 +543,7 @@ JNIEnv *VM::GetJNIEnv() {
 
 const std::shared_ptr<ENV>& VM::GetEnv() {
 #ifdef EnableJNIVMGC
+	std::lock_guard<std::mutex> lock(mtx);
 	return jnienvs[pthread_self()];
 #else
 	return jnienvs.begin()->second;
-- 
2.43.0


From aa99bead2221ba5e24f2e72a49bf11abe2a73558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:26 +0000
Subject: [PATCH 05/30] fix: destroy a detached environment without holding the
 VM lock

Releasing the local references of the thread runs destructors of user
objects; one that used the VM deadlocked.
---
 src/jnivm/vm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index cd12982..bfa29b6 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -485,10 +485,13 @@ jnivm::VM::VM(bool skipInit, bool ReturnNull) : ninterface(ReturnNull ? GetNativ
 			[](JavaVM *vm) -> jint {
 #ifdef EnableJNIVMGC
 				auto&& nvm = *VM::FromJavaVM(vm);
+				// Destroyed after releasing the lock, the destructors of the local references may use the VM
+				std::shared_ptr<ENV> env;
 				std::lock_guard<std::mutex> lock(nvm.mtx);
 				auto fe = nvm.jnienvs.end();
 				auto f = nvm.jnienvs.find(pthread_self());
 				if(f != fe) {
+					env = std::move(f->second);
 					nvm.jnienvs.erase(f);
 				}
 #endif
-- 
2.43.0


From 0bb1f11116dc4a5a39bffcb8bbfbdeb71dcff013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 06/30] fix: search the base classes of the receiver for an
 implementation

A virtual call only considered the class of the object itself and then ran
the method the id belongs to, ignoring an override in a class in between.
A non virtual call on a class which inherits the method dereferenced null.
The method list is read under the lock of its class.
---
 src/jnivm/internal/method.cpp | 43 ++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 48aa4ad..3e266ce 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -172,27 +172,34 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
     return nullptr;
 }
 
-static Method* findNonVirtualOverload(Class*cl, Method*mid) {
+// Finds the implementation of the nearest class, starting at cl
+static Method* findOverload(jnivm::ENV *env, Class*cl, Method*mid) {
     if(!cl) {
-        return mid;
-    }
-    auto res = std::find_if(cl->methods.begin(), cl->methods.end(), [mid](auto&& m) {
-        return !m->_static && mid->name == m->name && mid->signature == m->signature && m->nativehandle;
-    });
-    if(res != cl->methods.end()) {
-        return res->get();
-    } else {
         return nullptr;
     }
+    {
+        std::lock_guard<std::mutex> lock(cl->mtx);
+        auto res = std::find_if(cl->methods.begin(), cl->methods.end(), [mid](auto&& m) {
+            return !m->_static && mid->name == m->name && mid->signature == m->signature && m->nativehandle;
+        });
+        if(res != cl->methods.end()) {
+            return res->get();
+        }
+    }
+    if(cl->baseclasses) {
+        for(auto&& i : cl->baseclasses(env)) {
+            auto r = findOverload(env, i.get(), mid);
+            if(r) {
+                return r;
+            }
+        }
+    }
+    return nullptr;
 }
 
-static Method* findVirtualOverload(jnivm::ENV *env, Class*cl, Method*mid) {
-    auto r = findNonVirtualOverload(cl, mid);
-    if(r != nullptr) {
-        return r;
-    } else {
-        return findVirtualOverload(env, mid->GetBaseClasses(env)[0].get(), mid);
-    }
+static Method* findOverloadOrDefault(jnivm::ENV *env, Class*cl, Method*mid) {
+    auto r = findOverload(env, cl, mid);
+    return r ? r : mid;
 }
 
 template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject obj, jmethodID id, jvalue *param) {
@@ -205,7 +212,7 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
 #endif
     if (mid && mid->nativehandle) {
         auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
-        mid = findVirtualOverload(ENV::FromJNIEnv(env), cl.get(), mid);
+        mid = findOverloadOrDefault(ENV::FromJNIEnv(env), cl.get(), mid);
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid->signature.data());
 #endif
@@ -270,7 +277,7 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
-        mid = findNonVirtualOverload(clz.get(), mid);
+        mid = findOverloadOrDefault(ENV::FromJNIEnv(env), clz.get(), mid);
         try {
             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
-- 
2.43.0


From 0980a0a1fa67451a698a947d1d3ee47a0c78a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:38 +0000
Subject: [PATCH 07/30] fix: convert reflected methods and fields back to their
 ids

The reflected object had no class, so FromReflectedMethod and
FromReflectedField returned null; given a global or weak reference they
returned the reference instead of the id.
---
 src/jnivm/vm.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index bfa29b6..0040947 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -31,14 +31,14 @@ jclass FindClass(JNIEnv *env, const char *name) {
 };
 jmethodID FromReflectedMethod(JNIEnv *env, jobject obj) {
 	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Method"))) {
-		return (jmethodID) obj;
+		return (jmethodID) JNITypes<std::shared_ptr<Method>>::JNICast(ENV::FromJNIEnv(env), obj).get();
 	} else {
 		return nullptr;
 	}
 };
 jfieldID FromReflectedField(JNIEnv *env, jobject obj) {
 	if(obj && env->functions->IsSameObject(env, env->functions->GetObjectClass(env, obj), FindClass(env, "java/lang/reflect/Field"))) {
-		return (jfieldID) obj;
+		return (jfieldID) JNITypes<std::shared_ptr<Field>>::JNICast(ENV::FromJNIEnv(env), obj).get();
 	} else {
 		return nullptr;
 	}
@@ -46,7 +46,7 @@ jfieldID FromReflectedField(JNIEnv *env, jobject obj) {
 jobject ToReflectedMethod(JNIEnv * env, jclass c, jmethodID mid, jboolean isStatic) {
 	auto method = (Method*)mid;
 	if(c && method && method->_static == (bool)isStatic) {
-		return env->NewLocalRef((jobject) method);
+		return JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), std::shared_ptr<Method>(method->shared_from_this(), method));
 	}
 	return 0;
 };
@@ -73,7 +73,7 @@ jboolean IsAssignableFrom(JNIEnv *env, jclass c1, jclass c2) {
 jobject ToReflectedField(JNIEnv * env, jclass c, jfieldID fid, jboolean isStatic) {
 	auto field = (Field*)fid;
 	if(c && field && field->_static == (bool)isStatic) {
-		return env->NewLocalRef((jobject) field);
+		return JNITypes<std::shared_ptr<Field>>::ToJNIType(ENV::FromJNIEnv(env), std::shared_ptr<Field>(field->shared_from_this(), field));
 	}
 	return 0;
 };
-- 
2.43.0


From 78bcd46f5788cb747036ffd7d9a32d4c74e23cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:07 +0000
Subject: [PATCH 08/30] fix: fill a new object array with the object, not its
 reference

A global or weak initial element stored the internal wrapper: the array
did not hold the object or refused it as the wrong type.
---
 src/jnivm/internal/array.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index d220630..e3e5c54 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -14,8 +14,9 @@ jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject
     auto arr = cl->InstantiateArray ? cl->InstantiateArray(ENV::FromJNIEnv(env), length) : std::make_shared<Array<Object>>(length);
     arr->clazz = std::move(cl);
     if(init) {
+        auto element = JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), init);
         for (jsize i = 0; i < length; i++) {
-            (*arr)[i] = (*(Object*)init).shared_from_this();
+            (*arr)[i] = element;
         }
     }
     return JNITypes<std::shared_ptr<Array<Object>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
-- 
2.43.0


From 75725eb03a3d1d03c180604006d9701a67866173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 09/30] fix: do not leak the initial buffer of a new primitive
 array

The array copies the buffer it is given.
---
 src/jnivm/internal/array.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index e3e5c54..47cf07a 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -1,5 +1,6 @@
 #include <jnivm/class.h>
 #include "array.hpp"
+#include <algorithm>
 
 using namespace jnivm;
 
@@ -29,7 +30,8 @@ void jnivm::SetObjectArrayElement(JNIEnv *env, jobjectArray a, jsize i, jobject
 }
 
 template <class T> typename JNITypes<T>::Array jnivm::NewArray(JNIEnv * env, jsize length) {
-    auto arr = length ? std::make_shared<Array<T>>(new T[length] {0}, length) : std::make_shared<Array<T>>(0);
+    auto arr = std::make_shared<Array<T>>(length);
+    std::fill_n(arr->getArray(), length, T());
     arr->clazz = InternalFindClass(ENV::FromJNIEnv(env), (std::string("[") + JNITypes<T>::GetJNISignature(ENV::FromJNIEnv(env))).data());
     return JNITypes<std::shared_ptr<Array<T>>>::ToJNIType(ENV::FromJNIEnv(env), arr);
 }
-- 
2.43.0


From fdc7ce20c746018c12eb17e62bd4a0185f3bbdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 10/30] fix: let a native method registered again replace the
 previous one

The second registration was appended and never found.
---
 src/jnivm/vm.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 0040947..a741ecd 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -264,11 +264,19 @@ jint RegisterNatives(JNIEnv *env, jclass c, const JNINativeMethod *method, jint
 			ss << "Class \"" << clazz->nativeprefix << "\" registred native method: " << method->name << " signature: " << method->signature;
 			LOG("JNIVM", "%s", ss.str().data());
 #endif
+			auto f = std::find_if(clazz->methods.begin(), clazz->methods.end(), [method](const std::shared_ptr<Method>& m) {
+				return m->native && m->name == method->name && m->signature == method->signature;
+			});
 			auto m = std::make_shared<Method>();
 			m->name = method->name;
 			m->signature = method->signature;
 			m->native = method->fnPtr;
-			clazz->methods.push_back(m);
+			if(f != clazz->methods.end()) {
+				// Registered again, the latest function wins
+				*f = m;
+			} else {
+				clazz->methods.push_back(m);
+			}
 			method++;
 		}
 	}
-- 
2.43.0


From ac7f276fac63a4d4ec2ff18acbf097fbab9aef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:50 +0000
Subject: [PATCH 11/30] fix: do not load an attached library again

The second instance was destroyed right away, which called JNI_OnUnload of
the library that stays attached.
---
 src/fake-jni/fake-jni.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index 7e15c3e..e1d1e06 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -88,7 +88,9 @@ FakeJni::Jvm::libinst::~libinst() {
 }
 
 void FakeJni::Jvm::attachLibrary(const std::string &rpath, const std::string &options, FakeJni::LibraryOptions loptions) {
-	libraries.insert({ rpath, std::make_unique<libinst>(rpath, this, loptions) });
+	if(libraries.find(rpath) == libraries.end()) {
+		libraries.insert({ rpath, std::make_unique<libinst>(rpath, this, loptions) });
+	}
 }
 
 void FakeJni::Jvm::removeLibrary(const std::string &rpath, const std::string &options) {
-- 
2.43.0


From 0eb98d0ccd285df4a4dc555a0b6fef1466ee4809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 12/30] fix: handle throwables without a native exception or
 message

Throwing a default constructed throwable and describing it, or invoking a
method from c++, rethrew a null exception; ThrowNew dereferenced a null
message.
---
 include/jnivm/method.h | 6 +++++-
 src/jnivm/vm.cpp       | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/jnivm/method.h b/include/jnivm/method.h
index bbba0f7..58fff83 100644
--- a/include/jnivm/method.h
+++ b/include/jnivm/method.h
@@ -138,7 +138,11 @@ template<class T, class... param> jvalue jnivm::Method::j2invoke(JNIEnv &env, T
         ret = jinvoke(*ENV::FromJNIEnv(&env), cl, args);
     }
     if((ENV::FromJNIEnv(&env))->current_exception) {
-        std::rethrow_exception((ENV::FromJNIEnv(&env))->current_exception->except);
+        auto except = (ENV::FromJNIEnv(&env))->current_exception->except;
+        if(!except) {
+            throw std::runtime_error("Exception without native exception is pending");
+        }
+        std::rethrow_exception(except);
     }
     return ret;
 }
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index a741ecd..77df33d 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -84,7 +84,7 @@ jint Throw(JNIEnv *env, jthrowable ex) {
 };
 jint ThrowNew(JNIEnv *env, jclass c, const char * message) {
 	try {
-		throw std::runtime_error(message);
+		throw std::runtime_error(message ? message : "");
 	} catch(...) {
 		auto th = std::make_shared<Throwable>();
 		th->except = std::current_exception();
@@ -98,7 +98,10 @@ jthrowable ExceptionOccurred(JNIEnv * env) {
 void ExceptionDescribe(JNIEnv *env) {
 	if((ENV::FromJNIEnv(env))->current_exception) {
 		try {
-			std::rethrow_exception((ENV::FromJNIEnv(env))->current_exception->except);
+			if((ENV::FromJNIEnv(env))->current_exception->except) {
+				std::rethrow_exception((ENV::FromJNIEnv(env))->current_exception->except);
+			}
+			LOG("JNIVM", "Exception without Message was thrown");
 		} catch (const std::exception& ex) {
 			LOG("JNIVM", "Exception with Message `%s` was thrown", ex.what());
 		} catch (...) {
-- 
2.43.0


From 30d951f454fd52278460847ee1eee479415ad288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 13/30] fix: stay inside of malformed signatures

An array without element type or a class name without ';' at the end of a
signature made the parsers continue behind the end of the string.
---
 src/jnivm/internal/findclass.cpp         | 4 ++++
 src/jnivm/internal/jValuesfromValist.cpp | 9 ++++++++-
 src/jnivm/internal/skipJNIType.cpp       | 7 +++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/findclass.cpp b/src/jnivm/internal/findclass.cpp
index ae60955..fe77037 100644
--- a/src/jnivm/internal/findclass.cpp
+++ b/src/jnivm/internal/findclass.cpp
@@ -110,6 +110,10 @@ void jnivm::Declare(JNIEnv *env, const char *signature) {
 			cur++) {
 		if (*cur == 'L') {
 			auto cend = std::find(cur, end, ';');
+			if(cend == end) {
+				// Incomplete type, stay inside the signature
+				break;
+			}
 			std::string classpath(cur + 1, cend);
 			InternalFindClass(env, classpath.data());
 			cur = cend;
diff --git a/src/jnivm/internal/jValuesfromValist.cpp b/src/jnivm/internal/jValuesfromValist.cpp
index afacbfe..7a45134 100644
--- a/src/jnivm/internal/jValuesfromValist.cpp
+++ b/src/jnivm/internal/jValuesfromValist.cpp
@@ -48,7 +48,14 @@ std::vector<jvalue> jnivm::JValuesfromValist(va_list list, const char* signature
 				values.back().d = va_arg(list, jdouble);
 				break;
 		case '[':
-				signature = jnivm::SkipJNIType(signature + 1, end) - 1;
+				signature = std::find_if(signature, end, [](char c) { return c != '['; });
+				if(signature == end || *signature == ')') {
+					throw std::invalid_argument("Signature missing array element type after '['");
+				}
+				if(*signature == 'L' && std::find(signature, end, ';') == end) {
+					throw std::invalid_argument("Signature missing ';' after 'L'");
+				}
+				signature = jnivm::SkipJNIType(signature, end) - 1;
 				values.back().l = va_arg(list, jobject);
 				break;
 		case 'L':
diff --git a/src/jnivm/internal/skipJNIType.cpp b/src/jnivm/internal/skipJNIType.cpp
index adec7d6..9077868 100644
--- a/src/jnivm/internal/skipJNIType.cpp
+++ b/src/jnivm/internal/skipJNIType.cpp
@@ -2,6 +2,10 @@
 #include <algorithm>
 
 const char * jnivm::SkipJNIType(const char *cur, const char *end) {
+    if(cur == end) {
+            // Incomplete type, stay inside the signature
+            return end;
+    }
     switch (*cur) {
     case 'V':
             // Void has size 0 ignore it
@@ -20,6 +24,9 @@ const char * jnivm::SkipJNIType(const char *cur, const char *end) {
             break;
     case 'L':
             cur = std::find(cur, end, ';');
+            if(cur == end) {
+                    return end;
+            }
             break;
     case '(':
             return SkipJNIType(cur + 1, end);
-- 
2.43.0


From 6cb9dc9ad924ecd821367a3d5b83b667db574975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 14/30] fix: generate stubs of malformed signatures without
 leaving the string

---
 src/jnivm/internal/codegen/parseJNIType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/codegen/parseJNIType.cpp b/src/jnivm/internal/codegen/parseJNIType.cpp
index 4ca4667..d76c2f5 100644
--- a/src/jnivm/internal/codegen/parseJNIType.cpp
+++ b/src/jnivm/internal/codegen/parseJNIType.cpp
@@ -125,5 +125,6 @@ const char *jnivm::ParseJNIType(const char *cur, const char *end, std::string &t
 		cur = cend;
 		break;
 	}
-	return cur;
+	// Incomplete type, the callers continue behind the returned position
+	return cur == end ? end - 1 : cur;
 }
\ No newline at end of file
-- 
2.43.0


From 37380daaa016a83483019ccc99cbe1e784564ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:22 +0000
Subject: [PATCH 15/30] fix: access covariant arrays through the real element
 type

---
 include/jnivm/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/jnivm/array.h b/include/jnivm/array.h
index d8782ad..97efbf7 100644
--- a/include/jnivm/array.h
+++ b/include/jnivm/array.h
@@ -243,14 +243,15 @@ namespace jnivm {
 
         template<class Z, class Base, class Y, class...others> class ArrayBaseImpl<Z, Base, Y, others...> : public ArrayBaseImpl<Z, Base, others...> {
             virtual std::shared_ptr<Y> Get(jint i, array_type_t<Y>) const override {
-                return ((std::shared_ptr<Z>*) Array<void>::getArray())[i];
+                // The elements may be of a further derived type than Z
+                return dynamic_cast<const Array<Z, void, false>&>(*this).Get(i, array_type_t<Z>{});
             }
             virtual void Set(jint i, const std::shared_ptr<Y>& val) override {
                 std::shared_ptr<Z> nval(val, dynamic_cast<Z*>(val.get()));
                 if(val && !nval) {
                     throw std::runtime_error("Class Type Exception");
                 }
-                ((std::shared_ptr<Z>*) Array<void>::getArray())[i] = nval;
+                dynamic_cast<Array<Z, void, false>&>(*this).Set(i, nval);
             }
         };
 
-- 
2.43.0


From c483ceb4764ee556edfbcfd8dc712cc1ed3a1f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:17 +0000
Subject: [PATCH 16/30] fix: treat a cleared weak reference like null

---
 src/jnivm/internal/array.cpp  |  6 ++++--
 src/jnivm/internal/field.cpp  |  3 ++-
 src/jnivm/internal/string.cpp | 14 ++++++++------
 src/jnivm/vm.cpp              | 12 ++++++------
 4 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/jnivm/internal/array.cpp b/src/jnivm/internal/array.cpp
index 47cf07a..0f7665e 100644
--- a/src/jnivm/internal/array.cpp
+++ b/src/jnivm/internal/array.cpp
@@ -5,7 +5,8 @@
 using namespace jnivm;
 
 jsize jnivm::GetArrayLength(JNIEnv *env, jarray a) {
-    return a ? JNITypes<std::shared_ptr<Array<void>>>::JNICast(ENV::FromJNIEnv(env), a)->getSize() : 0;
+    auto arr = JNITypes<std::shared_ptr<Array<void>>>::JNICast(ENV::FromJNIEnv(env), a);
+    return arr ? arr->getSize() : 0;
 }
 jobjectArray jnivm::NewObjectArray(JNIEnv * env, jsize length, jclass c, jobject init) {
     auto cl0 = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), c);
@@ -41,7 +42,8 @@ T *jnivm::GetArrayElements(JNIEnv *env, typename JNITypes<T>::Array a, jboolean
     if (iscopy) {
         *iscopy = false;
     }
-    return a ? JNITypes<std::shared_ptr<Array<T>>>::JNICast(ENV::FromJNIEnv(env), a)->getArray() : nullptr;
+    auto arr = JNITypes<std::shared_ptr<Array<T>>>::JNICast(ENV::FromJNIEnv(env), a);
+    return arr ? arr->getArray() : nullptr;
 }
 
 template <class T>
diff --git a/src/jnivm/internal/field.cpp b/src/jnivm/internal/field.cpp
index e2e44cd..c1a572e 100644
--- a/src/jnivm/internal/field.cpp
+++ b/src/jnivm/internal/field.cpp
@@ -138,7 +138,8 @@ template<class T, class O> void jnivm::SetField(JNIEnv *env, O obj, jfieldID id,
     if(!id)
         LOG("JNIVM", "SetField field is null");
 #endif
-    if (obj && fid && fid->setnativehandle) {
+    // A cleared weak reference is null as well
+    if (JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj) && fid && fid->setnativehandle) {
         if(fid->_static != std::is_same<O, jclass>::value) {
             env->FatalError("SetField / Invalid Field ID");
         }
diff --git a/src/jnivm/internal/string.cpp b/src/jnivm/internal/string.cpp
index 0504e7b..8e61937 100644
--- a/src/jnivm/internal/string.cpp
+++ b/src/jnivm/internal/string.cpp
@@ -14,8 +14,8 @@ jstring jnivm::NewString(JNIEnv *env, const jchar * str, jsize size) {
     return JNITypes<std::shared_ptr<String>>::ToJNIType(ENV::FromJNIEnv(env), std::make_shared<String>(ss.str()));
 };
 jsize jnivm::GetStringLength(JNIEnv *env, jstring str) {
-    if(str) {
-        std::shared_ptr<std::string> cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    std::shared_ptr<std::string> cstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    if(cstr) {
         size_t count = 0;
         jsize length = 0;
         auto cur = cstr->data(), end = cur + cstr->length();
@@ -33,7 +33,7 @@ jsize jnivm::GetStringLength(JNIEnv *env, jstring str) {
     }
 };
 const jchar *jnivm::GetStringChars(JNIEnv * env, jstring str, jboolean * copy) {
-    if(str) {
+    if(JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str)) {
         if(copy) {
             *copy = true;
         }
@@ -54,8 +54,9 @@ jstring jnivm::NewStringUTF(JNIEnv * env, const char *str) {
     return JNITypes<std::shared_ptr<String>>::ToJNIType(ENV::FromJNIEnv(env), std::make_shared<String>(str ? str : ""));
 };
 jsize jnivm::GetStringUTFLength(JNIEnv *env, jstring str) {
-    if(str) {
-        auto length = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str)->length();
+    auto jstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    if(jstr) {
+        auto length = jstr->length();
         if(length > static_cast<size_t>(std::numeric_limits<jsize>::max())) {
             throw std::runtime_error("String to long, to fit in jsize");
         } else {
@@ -67,7 +68,8 @@ jsize jnivm::GetStringUTFLength(JNIEnv *env, jstring str) {
 const char *jnivm::GetStringUTFChars(JNIEnv * env, jstring str, jboolean *copy) {
     if (copy)
         *copy = false;
-    return str ? JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str)->data() : "";
+    auto jstr = JNITypes<std::shared_ptr<String>>::JNICast(ENV::FromJNIEnv(env), str);
+    return jstr ? jstr->data() : "";
 };
 void jnivm::ReleaseStringUTFChars(JNIEnv * env, jstring str, const char * cstr) {
     // Never copied, never free
diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 77df33d..36e671c 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -145,11 +145,10 @@ jobject PopLocalFrame(JNIEnv * env, jobject result) {
 		nenv.localframe.emplace_front();
 	}
 	// Add result to previous frame
-	if(res) {
-		return JNITypes<std::shared_ptr<Object>>::ToJNIType(&nenv, res);
-	}
-#endif
+	return JNITypes<std::shared_ptr<Object>>::ToJNIType(&nenv, res);
+#else
 	return result;
+#endif
 };
 jobject NewGlobalRef(JNIEnv * env, std::shared_ptr<Object> obj) {
 #ifdef EnableJNIVMGC
@@ -240,10 +239,11 @@ jobject AllocObject(JNIEnv *env, jclass cl) {
 };
 
 jclass GetObjectClass(JNIEnv *env, jobject jo) {
-	return jo ? JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(ENV::FromJNIEnv(env), JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo)->getClassInternal(ENV::FromJNIEnv(env))) : env->FindClass("Invalid");
+	auto obj = JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo);
+	return obj ? JNITypes<std::shared_ptr<jnivm::Class>>::ToJNIType(ENV::FromJNIEnv(env), obj->getClassInternal(ENV::FromJNIEnv(env))) : env->FindClass("Invalid");
 };
 jboolean IsInstanceOf(JNIEnv *env, jobject jo, jclass cl) {
-	return jo && IsAssignableFrom(env, GetObjectClass(env, jo), cl);
+	return JNITypes<std::shared_ptr<jnivm::Object>>::JNICast(ENV::FromJNIEnv(env), jo) && IsAssignableFrom(env, GetObjectClass(env, jo), cl);
 };
 
 #include "internal/method.h"
-- 
2.43.0


From 46489cc6ce99146d8f1a680fc2a4c8c07d9b9b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:25 +0000
Subject: [PATCH 17/30] fix: assign the properties of a registered native class
 only once

---
 include/fake-jni/fake-jni.h |  2 +-
 include/jnivm/env.h         | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/fake-jni/fake-jni.h b/include/fake-jni/fake-jni.h
index 54707e1..89e97b4 100644
--- a/include/fake-jni/fake-jni.h
+++ b/include/fake-jni/fake-jni.h
@@ -263,7 +263,7 @@ namespace FakeJni {
                                         }
 #define BEGIN_NATIVE_DESCRIPTOR(name, ...)  std::shared_ptr<jnivm::Class> name ::getDescriptor() {\
                                                 auto cl = jnivm::ENV::FromJNIEnv(&FakeJni::JniEnvContext().getJniEnv())->GetClass< name >( name ::getClassName().data());\
-                                                if(cl->methods.size() == 0 && cl->fields.size() == 0 && !cl->Instantiate && !cl->baseclasses) {\
+                                                if(!cl->Instantiate && !cl->baseclasses && cl->methods.size() == 0 && cl->fields.size() == 0) {\
                                                     registerClass();\
                                                 }\
                                                 return cl;\
diff --git a/include/jnivm/env.h b/include/jnivm/env.h
index 348dbce..25e1293 100644
--- a/include/jnivm/env.h
+++ b/include/jnivm/env.h
@@ -88,9 +88,13 @@ namespace jnivm {
 template<class T> std::shared_ptr<jnivm::Class> jnivm::ENV::GetClass(const char *name) {
     auto cl = GetClass(name);
     std::lock_guard<std::mutex> lock(vm->mtx);
-    auto& c = vm->typecheck[typeid(T)] = std::move(cl);
-    c->Instantiate = jnivm::Factory<T>::CreateLambda();
-    IsClass<T>::AddInherience(c, this);
+    auto& c = vm->typecheck[typeid(T)];
+    // Other threads may already use the class, don't assign it's properties again
+    if(c != cl) {
+        c = std::move(cl);
+        c->Instantiate = jnivm::Factory<T>::CreateLambda();
+        IsClass<T>::AddInherience(c, this);
+    }
     return c;
 }
 #endif
\ No newline at end of file
-- 
2.43.0


From 6a7c10557e49eac76089370f6d4af477007c4fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:17 +0000
Subject: [PATCH 18/30] fix: run the implementation of the receiver for methods
 declared without one

A method looked up in a base class that does not implement it was never
dispatched to the class of the receiver or the named class implementing it.
---
 src/jnivm/internal/method.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 3e266ce..83ad539 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -210,9 +210,13 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
     if(!id)
         LOG("JNIVM", "CallMethod field is null");
 #endif
-    if (mid && mid->nativehandle) {
-        auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
+    // The method may be declared in a base class without implementing it there
+    std::shared_ptr<Class> cl;
+    if (mid && JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj)) {
+        cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
         mid = findOverloadOrDefault(ENV::FromJNIEnv(env), cl.get(), mid);
+    }
+    if (mid && mid->nativehandle) {
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid->signature.data());
 #endif
@@ -229,7 +233,6 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         }
     } else {
 #ifdef JNI_TRACE
-        auto cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
         LOG("JNIVM", "Call Unknown Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid ? mid->name.data() : "???", mid ? mid->signature.data() : "???");
 #endif
         return defaultVal<T>(ENV::FromJNIEnv(env), mid ? mid->signature : "");
@@ -272,12 +275,15 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
     if(!id)
         LOG("JNIVM", "CallMethod field is null");
 #endif
+    auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl);
+    // The method may be declared in a base class without implementing it there
+    if (mid) {
+        mid = findOverloadOrDefault(ENV::FromJNIEnv(env), clz.get(), mid);
+    }
     if (mid && mid->nativehandle) {
-        auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl); 
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
-        mid = findOverloadOrDefault(ENV::FromJNIEnv(env), clz.get(), mid);
         try {
             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
@@ -291,7 +297,6 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         }
     } else {
 #ifdef JNI_TRACE
-        auto clz = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), cl);
         LOG("JNIVM", "Call Unknown NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid ? mid->name.data() : "???", mid ? mid->signature.data() : "???");
 #endif
         return defaultVal<T>(ENV::FromJNIEnv(env), mid ? mid->signature : "");
-- 
2.43.0


From e61f4e750a01a0f0f20ac0b276644a7aecef7a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:42 +0000
Subject: [PATCH 19/30] fix: hooking a method no longer reuses the entry of a
 registered native

A hook for an instance method with the name and signature of a registered
native was stored in the entry of the native, where method lookups do not find
it and registering or unregistering the native again dropped it.
---
 include/jnivm/hookManager.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/jnivm/hookManager.h b/include/jnivm/hookManager.h
index e489f96..5c2e47f 100644
--- a/include/jnivm/hookManager.h
+++ b/include/jnivm/hookManager.h
@@ -49,7 +49,7 @@ namespace jnivm {
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
-                                                return m->_static == isStatic && m->name == id && m->signature == ssig;
+                                                return m->_static == isStatic && !m->native && m->name == id && m->signature == ssig;
                                             });
             std::shared_ptr<Method> method;
             if (ccl != cl->methods.end()) {
@@ -70,7 +70,7 @@ namespace jnivm {
             auto ccl =
                     std::find_if(cl->methods.begin(), cl->methods.end(),
                                             [&id, &ssig](std::shared_ptr<Method> &m) {
-                                                return m->_static == isStatic && m->name == id && m->signature == ssig;
+                                                return m->_static == isStatic && !m->native && m->name == id && m->signature == ssig;
                                             });
             std::shared_ptr<Method> method;
             if (ccl != cl->methods.end()) {
-- 
2.43.0


From 0ec866a42150175c990d49286a4014ada5db15f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 20/30] fix: declare java::lang::ref::WeakReference used by
 generated code

---
 include/jnivm/javatypes.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/jnivm/javatypes.h b/include/jnivm/javatypes.h
index 125d7b7..95a8aa8 100644
--- a/include/jnivm/javatypes.h
+++ b/include/jnivm/javatypes.h
@@ -5,6 +5,7 @@
 #include "class.h"
 #include "bytebuffer.h"
 #include "throwable.h"
+#include "weak.h"
 
 namespace jnivm {
     namespace java {
@@ -18,6 +19,9 @@ namespace jnivm {
                 using Method = jnivm::Method;
                 using Field = jnivm::Field;
             }
+            namespace ref {
+                using WeakReference = jnivm::Weak;
+            }
         }
         namespace nio {
             using ByteBuffer = jnivm::ByteBuffer;
-- 
2.43.0


From b5fb953e064a9aa9d96faa4c2ac7acc6f1425098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:34 +0000
Subject: [PATCH 21/30] fix: run the hooks of a Baron::Jvm after its own
 functions are installed

Baron::Jvm::CreateEnv applied the hooks first and then replaced FindClass,
GetMethodID, GetStaticMethodID, GetFieldID and GetStaticFieldID, a hook of
one of them had no effect.
---
 src/baron/jvm.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/baron/jvm.cpp b/src/baron/jvm.cpp
index d933aee..14d8d23 100644
--- a/src/baron/jvm.cpp
+++ b/src/baron/jvm.cpp
@@ -18,9 +18,6 @@ std::shared_ptr<jnivm::ENV> Baron::Jvm::CreateEnv() {
         throw std::runtime_error("Attempt to initialize a FakeJni::Env twice in one thread!");
     }
     auto tmpl = GetNativeInterfaceTemplate();
-    for(auto && hook : jnienvhooks) {
-        hook(tmpl);
-    }
     tmpl.FindClass = [](JNIEnv *env, const char *name) -> jclass {
         jclass ret = GetNativeInterfaceTemplate<true>().FindClass(env, name);
         if(ret)
@@ -71,6 +68,10 @@ std::shared_ptr<jnivm::ENV> Baron::Jvm::CreateEnv() {
         }
         return nullptr;
     };
+    // After the functions above, a hook may replace them too
+    for(auto && hook : jnienvhooks) {
+        hook(tmpl);
+    }
     
     auto ret = std::make_shared<FakeJni::Env>(*this, static_cast<jnivm::VM*>(this), tmpl);
     FakeJni::JniEnvContext::env.env = ret;
-- 
2.43.0


From c03efe18946cd53de4817db464f516d6bff61cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:17 +0000
Subject: [PATCH 22/30] fix: restore the line endings of two files changed by
 earlier fixes

---
 include/jnivm/extends.h | 88 ++++++++++++++++++++--------------------
 src/fake-jni/jvm.cpp    | 90 ++++++++++++++++++++---------------------
 2 files changed, 89 insertions(+), 89 deletions(-)

diff --git a/include/jnivm/extends.h b/include/jnivm/extends.h
index 94320e5..c538181 100644
--- a/include/jnivm/extends.h
+++ b/include/jnivm/extends.h
@@ -1,45 +1,45 @@
-#pragma once
-#include "object.h"
-#include "env.h"
-#include "arrayBase.h"
-#include <typeindex>
-#include <stdexcept>
-
-namespace jnivm {
-
-    namespace impl {
-        template<class, class... BaseClasses> class Extends : public virtual BaseClasses... {
-        public:
-            using BaseClasseTuple = std::tuple<BaseClasses...>;
-            template<class T>
-            using ArrayBaseType = ArrayBase<T, BaseClasses...>;
-            static std::vector<std::shared_ptr<Class>> GetBaseClasses(ENV* env) {
-                auto find = [vm = env->GetVM()](std::type_index type) -> std::shared_ptr<Class> {
-                    std::lock_guard<std::mutex> lock(vm->mtx);
-                    auto f = vm->typecheck.find(type);
-                    return f != vm->typecheck.end() ? f->second : nullptr;
-                };
-                std::vector<std::shared_ptr<Class>> ret = { find(typeid(BaseClasses))... };
-#ifndef NDEBUG
-                for(size_t i = 0, size = ret.size(); i < size; ++i) {
-                    if(!ret[i]) {
-                        static const std::type_info* const types[] = {&typeid(BaseClasses)...};
-                        throw std::runtime_error("Fatal BaseClass not registred!" + std::string(types[i]->name()));
-                    }
-                }
-#endif
-                return ret;
-            }
-        };
-
-        // template<class Base, class Result, class...Interfaces> struct ExtendsResolver;
-        // template<class Base, class Result, class Interface, class...Interfaces> struct ExtendsResolver<Base, Result, Interface, Interfaces...> {
-        //     using Resolver = std::conditional_t<std::is_base_of<Interface, Base>::value, typename ExtendsResolver<Base, Result, Interfaces...>::Resolver, typename ExtendsResolver<Base, decltype(std::tuple_cat(Result{}, std::tuple<Interface>{})), Interfaces...>::Resolver>;
-        // };
-        // template<class Base, class...Interfaces> struct ExtendsResolver<Base, std::tuple<Interfaces...>> {
-        //     using Resolver = impl::Extends<void, Base, Interfaces...>;
-        // };
-    }
-    template<class Base = Object, class... Interfaces>
-    using Extends = /* typename impl::ExtendsResolver<Base, std::tuple<>, Interfaces...>::Resolver; */impl::Extends<void, Base, Interfaces...>;
+#pragma once
+#include "object.h"
+#include "env.h"
+#include "arrayBase.h"
+#include <typeindex>
+#include <stdexcept>
+
+namespace jnivm {
+
+    namespace impl {
+        template<class, class... BaseClasses> class Extends : public virtual BaseClasses... {
+        public:
+            using BaseClasseTuple = std::tuple<BaseClasses...>;
+            template<class T>
+            using ArrayBaseType = ArrayBase<T, BaseClasses...>;
+            static std::vector<std::shared_ptr<Class>> GetBaseClasses(ENV* env) {
+                auto find = [vm = env->GetVM()](std::type_index type) -> std::shared_ptr<Class> {
+                    std::lock_guard<std::mutex> lock(vm->mtx);
+                    auto f = vm->typecheck.find(type);
+                    return f != vm->typecheck.end() ? f->second : nullptr;
+                };
+                std::vector<std::shared_ptr<Class>> ret = { find(typeid(BaseClasses))... };
+#ifndef NDEBUG
+                for(size_t i = 0, size = ret.size(); i < size; ++i) {
+                    if(!ret[i]) {
+                        static const std::type_info* const types[] = {&typeid(BaseClasses)...};
+                        throw std::runtime_error("Fatal BaseClass not registred!" + std::string(types[i]->name()));
+                    }
+                }
+#endif
+                return ret;
+            }
+        };
+
+        // template<class Base, class Result, class...Interfaces> struct ExtendsResolver;
+        // template<class Base, class Result, class Interface, class...Interfaces> struct ExtendsResolver<Base, Result, Interface, Interfaces...> {
+        //     using Resolver = std::conditional_t<std::is_base_of<Interface, Base>::value, typename ExtendsResolver<Base, Result, Interfaces...>::Resolver, typename ExtendsResolver<Base, decltype(std::tuple_cat(Result{}, std::tuple<Interface>{})), Interfaces...>::Resolver>;
+        // };
+        // template<class Base, class...Interfaces> struct ExtendsResolver<Base, std::tuple<Interfaces...>> {
+        //     using Resolver = impl::Extends<void, Base, Interfaces...>;
+        // };
+    }
+    template<class Base = Object, class... Interfaces>
+    using Extends = /* typename impl::ExtendsResolver<Base, std::tuple<>, Interfaces...>::Resolver; */impl::Extends<void, Base, Interfaces...>;
 }
\ No newline at end of file
diff --git a/src/fake-jni/jvm.cpp b/src/fake-jni/jvm.cpp
index 48c9300..b0976e7 100644
--- a/src/fake-jni/jvm.cpp
+++ b/src/fake-jni/jvm.cpp
@@ -1,46 +1,46 @@
-#include <fake-jni/jvm.h>
-#include <stdexcept>
-
-using namespace FakeJni;
-
-FakeJni::Jvm::Jvm(bool skipInit, bool returnNull) : VM(true, returnNull) {
-    functions = GetJavaVM()->functions;
-    if(!skipInit) {
-        initialize();
-    }
-}
-
-FakeJni::Jvm::Jvm() : Jvm(false, true) {
-
-    // oldinterface = *GetJavaVM()->functions;
-    // JNIInvokeInterface patchinterface = *GetJavaVM()->functions;
-    // patchinterface.reserved1 = this;
-    // // patchinterface.AttachCurrentThread = [](JavaVM *vm, JNIEnv **env, void *reserved) {
-    // //     auto jvm = static_cast<Jvm*>(vm->functions->reserved1);
-    // //     auto ret = jvm->oldinterface.AttachCurrentThread(vm, env, reserved);
-    // //     return ret;
-    // // };
-    // OverrideJNIInvokeInterface(patchinterface);
-}
-
-std::shared_ptr<jnivm::ENV> FakeJni::Jvm::CreateEnv() {
-    if(FakeJni::JniEnvContext::env.env.lock()) {
-        throw std::runtime_error("Attempt to initialize a FakeJni::Env twice in one thread!");
-    }
-    auto tmpl = GetNativeInterfaceTemplate();
-	for(auto && hook : jnienvhooks) {
-        hook(tmpl);
-    }
-    auto ret = std::make_shared<Env>(*this, static_cast<jnivm::VM*>(this), tmpl);
-    FakeJni::JniEnvContext::env.env = ret;
-    return std::shared_ptr<jnivm::ENV>(ret, jnivm::ENV::FromJNIEnv(ret.get()));
-}
-
-std::vector<std::shared_ptr<jnivm::Class>> FakeJni::Jvm::getClasses() {
-    std::lock_guard<std::mutex> lock(mtx);
-    std::vector<std::shared_ptr<jnivm::Class>> ret;
-    for(auto&& c : classes) {
-        ret.emplace_back(c.second);
-    }
-    return ret;
+#include <fake-jni/jvm.h>
+#include <stdexcept>
+
+using namespace FakeJni;
+
+FakeJni::Jvm::Jvm(bool skipInit, bool returnNull) : VM(true, returnNull) {
+    functions = GetJavaVM()->functions;
+    if(!skipInit) {
+        initialize();
+    }
+}
+
+FakeJni::Jvm::Jvm() : Jvm(false, true) {
+
+    // oldinterface = *GetJavaVM()->functions;
+    // JNIInvokeInterface patchinterface = *GetJavaVM()->functions;
+    // patchinterface.reserved1 = this;
+    // // patchinterface.AttachCurrentThread = [](JavaVM *vm, JNIEnv **env, void *reserved) {
+    // //     auto jvm = static_cast<Jvm*>(vm->functions->reserved1);
+    // //     auto ret = jvm->oldinterface.AttachCurrentThread(vm, env, reserved);
+    // //     return ret;
+    // // };
+    // OverrideJNIInvokeInterface(patchinterface);
+}
+
+std::shared_ptr<jnivm::ENV> FakeJni::Jvm::CreateEnv() {
+    if(FakeJni::JniEnvContext::env.env.lock()) {
+        throw std::runtime_error("Attempt to initialize a FakeJni::Env twice in one thread!");
+    }
+    auto tmpl = GetNativeInterfaceTemplate();
+	for(auto && hook : jnienvhooks) {
+        hook(tmpl);
+    }
+    auto ret = std::make_shared<Env>(*this, static_cast<jnivm::VM*>(this), tmpl);
+    FakeJni::JniEnvContext::env.env = ret;
+    return std::shared_ptr<jnivm::ENV>(ret, jnivm::ENV::FromJNIEnv(ret.get()));
+}
+
+std::vector<std::shared_ptr<jnivm::Class>> FakeJni::Jvm::getClasses() {
+    std::lock_guard<std::mutex> lock(mtx);
+    std::vector<std::shared_ptr<jnivm::Class>> ret;
+    for(auto&& c : classes) {
+        ret.emplace_back(c.second);
+    }
+    return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 251139e6d3e92cc0053964ebcbba300ce60a5fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:36 +0000
Subject: [PATCH 23/30] fix: declare a looked up method while nobody can
 declare it in a base class

---
 src/jnivm/internal/method.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 83ad539..193c81b 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -13,6 +13,8 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
     auto matches = [&sname, &ssig](std::shared_ptr<Method> &namesp) {
         return namesp->_static == isStatic && AllowNative == (bool)namesp->native && namesp->name == sname && namesp->signature == ssig;
     };
+    // Held until the method is found or declared, nobody can declare it in the meantime
+    std::unique_lock<std::mutex> lock;
     if(cur) {
         // Rewrite init to Static external function
         if(!isStatic && sname == "<init>") {
@@ -27,7 +29,7 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
             return GetMethodID<true, ReturnNull, AllowNative, trace>(env, cl, str0, ssig.data());
         }
         else {
-            std::lock_guard<std::mutex> lock(cur->mtx);
+            lock = std::unique_lock<std::mutex>(cur->mtx);
             auto ccl = std::find_if(cur->methods.begin(), cur->methods.end(), matches);
             if (ccl != cur->methods.end()) {
                 next = *ccl;
@@ -62,14 +64,7 @@ jmethodID jnivm::GetMethodID(JNIEnv *env, jclass cl, const char *str0, const cha
         next->signature = ssig;
         next->_static = isStatic;
         if(cur) {
-            // Another thread may have declared the same method since the lookup above
-            std::lock_guard<std::mutex> lock(cur->mtx);
-            auto ccl = std::find_if(cur->methods.begin(), cur->methods.end(), matches);
-            if (ccl != cur->methods.end()) {
-                next = *ccl;
-            } else {
-                cur->methods.push_back(next);
-            }
+            cur->methods.push_back(next);
         } else {
             // For Debugging purposes without valid parent class
             JNITypes<std::shared_ptr<Method>>::ToJNIType(ENV::FromJNIEnv(env), next);
-- 
2.43.0


From 8df883ac0714c45efbed5d97295015d7dd3f5ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:32 +0000
Subject: [PATCH 24/30] fix: construct boolean arrays as default return values

---
 src/jnivm/internal/method.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index 193c81b..c237e9d 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -99,6 +99,8 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
 #endif
             switch (signature[off + 2])
             {
+            case 'Z':
+                return env->GetJNIEnv()->NewBooleanArray(0);
             case 'B':
                 return env->GetJNIEnv()->NewByteArray(0);
             case 'S':
-- 
2.43.0


From cce1587b387492b2be45cb13068aaf5167871344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:15 +0000
Subject: [PATCH 25/30] fix: construct default return values of array types
 with the declared type

---
 src/jnivm/internal/method.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index c237e9d..d37ad95 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -117,7 +117,8 @@ template<> jobject jnivm::defaultVal(ENV* env, std::string signature) {
                 return env->GetJNIEnv()->NewDoubleArray(0);
             case 'L':
             case '[':
-                return env->GetJNIEnv()->NewObjectArray(0, env->GetJNIEnv()->FindClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 1]), nullptr);
+                // The elements are of the type behind the first bracket
+                return env->GetJNIEnv()->NewObjectArray(0, (jclass)env->GetClass(signature[off + 2] == 'L' && signature[signature.size() - 1] == ';' ? signature.substr(off + 3, signature.size() - (off + 4)).data() : &signature.data()[off + 2]).get(), nullptr);
             default:
 #ifdef JNI_TRACE
             LOG("JNIVM", "Constructing array=`%s` failed unknown type", &signature.data()[off + 1]);
-- 
2.43.0


From 89459f7a8c2af71fed485edef8a64c61e0b9e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:47 +0000
Subject: [PATCH 26/30] fix: direct buffer queries of null and other objects
 return null and -1

---
 src/jnivm/internal/bytebuffer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jnivm/internal/bytebuffer.cpp b/src/jnivm/internal/bytebuffer.cpp
index e4c0685..732d607 100644
--- a/src/jnivm/internal/bytebuffer.cpp
+++ b/src/jnivm/internal/bytebuffer.cpp
@@ -9,8 +9,10 @@ jobject jnivm::NewDirectByteBuffer(JNIEnv *env, void *buffer, jlong capacity) {
     return JNITypes<std::shared_ptr<ByteBuffer>>::ToJNIType(ENV::FromJNIEnv(env), std::make_shared<ByteBuffer>(buffer, capacity));
 }
 void *jnivm::GetDirectBufferAddress(JNIEnv *env, jobject bytebuffer) {
-    return JNITypes<std::shared_ptr<ByteBuffer>>::JNICast(ENV::FromJNIEnv(env), bytebuffer)->buffer;
+    auto buffer = std::dynamic_pointer_cast<ByteBuffer>(JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), bytebuffer));
+    return buffer ? buffer->buffer : nullptr;
 }
 jlong jnivm::GetDirectBufferCapacity(JNIEnv *env, jobject bytebuffer) {
-    return JNITypes<std::shared_ptr<ByteBuffer>>::JNICast(ENV::FromJNIEnv(env), bytebuffer)->capacity;
+    auto buffer = std::dynamic_pointer_cast<ByteBuffer>(JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), bytebuffer));
+    return buffer ? buffer->capacity : -1;
 }
\ No newline at end of file
-- 
2.43.0


From a91c72a1e968fc40ffb6e9a2de7cc81e591a066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:57 +0000
Subject: [PATCH 27/30] fix: create the class of createMainMethod instead of
 looking it up

---
 src/fake-jni/fake-jni.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fake-jni/fake-jni.cpp b/src/fake-jni/fake-jni.cpp
index e1d1e06..d4dc38b 100644
--- a/src/fake-jni/fake-jni.cpp
+++ b/src/fake-jni/fake-jni.cpp
@@ -184,12 +184,12 @@ jnivm::Class &jnivm::Object::getClass() {
 }
 
 void FakeJni::createMainMethod(FakeJni::Jvm &jvm, std::function<void (std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args)>&& callback) {
-    std::shared_ptr<JClass> createMainMethod = jvm.findClass("fakejni/impl/createMainMethod");
+    std::shared_ptr<JClass> createMainMethod = jnivm::VM::FromJavaVM(&jvm)->GetEnv()->GetClass("fakejni/impl/createMainMethod");
     createMainMethod->Hook(jnivm::VM::FromJavaVM(&jvm)->GetEnv().get(), "main", std::move(callback));
 }
 
 void FakeJni::createMainMethod(FakeJni::Jvm &jvm, std::function<void (FakeJni::JArray<FakeJni::JString>* args)>&& callback) {
-    std::shared_ptr<JClass> createMainMethod = jvm.findClass("fakejni/impl/createMainMethod");
+    std::shared_ptr<JClass> createMainMethod = jnivm::VM::FromJavaVM(&jvm)->GetEnv()->GetClass("fakejni/impl/createMainMethod");
     createMainMethod->Hook(jnivm::VM::FromJavaVM(&jvm)->GetEnv().get(), "main", [callback](std::shared_ptr<FakeJni::JArray<FakeJni::JString>> args) {
         callback(args.get());
     });
-- 
2.43.0


From d568fd77a8c761f19e3b3fb9d3c42b4f717ebc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:42 +0000
Subject: [PATCH 28/30] fix: keep a method or field handle alive while it is
 running

---
 src/jnivm/internal/field.cpp  | 12 ++++++++----
 src/jnivm/internal/method.cpp | 18 ++++++++++++------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/jnivm/internal/field.cpp b/src/jnivm/internal/field.cpp
index c1a572e..d13addc 100644
--- a/src/jnivm/internal/field.cpp
+++ b/src/jnivm/internal/field.cpp
@@ -112,7 +112,9 @@ template<bool RetNull, class T, class O> T jnivm::GetField(JNIEnv *env, O obj, j
     if(!id)
         LOG("JNIVM", "GetField field is null");
 #endif
-    if (fid && fid->getnativehandle) {
+    // The field may be hooked again while its getter is running
+    auto handle = fid ? fid->getnativehandle : nullptr;
+    if (handle) {
         if(fid->_static != std::is_same<O, jclass>::value) {
             env->FatalError("GetField / Invalid Field ID");
         }
@@ -120,7 +122,7 @@ template<bool RetNull, class T, class O> T jnivm::GetField(JNIEnv *env, O obj, j
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
         LOG("JNIVM", "Invoked Field Getter Class=`%s` Field=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", fid->name.data(), fid->type.data());
 #endif
-        return Caller<std::is_same<O, jclass>::value>::template Get<T>(fid->getnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));
+        return Caller<std::is_same<O, jclass>::value>::template Get<T>(handle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj));
     } else {
 #ifdef JNI_TRACE
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
@@ -138,8 +140,10 @@ template<class T, class O> void jnivm::SetField(JNIEnv *env, O obj, jfieldID id,
     if(!id)
         LOG("JNIVM", "SetField field is null");
 #endif
+    // The field may be hooked again while its setter is running
+    auto handle = fid ? fid->setnativehandle : nullptr;
     // A cleared weak reference is null as well
-    if (JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj) && fid && fid->setnativehandle) {
+    if (JNITypes<std::shared_ptr<Object>>::JNICast(ENV::FromJNIEnv(env), obj) && handle) {
         if(fid->_static != std::is_same<O, jclass>::value) {
             env->FatalError("SetField / Invalid Field ID");
         }
@@ -150,7 +154,7 @@ template<class T, class O> void jnivm::SetField(JNIEnv *env, O obj, jfieldID id,
         jvalue val;
         memset(&val, 0, sizeof(val));
         memcpy(&val, &value, sizeof(T));
-        return Caller<std::is_same<O, jclass>::value>::template Set<T>(fid->setnativehandle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj), &val);
+        return Caller<std::is_same<O, jclass>::value>::template Set<T>(handle.get(), ENV::FromJNIEnv(env), Util::GetParam(ENV::FromJNIEnv(env), obj), &val);
     } else {
 #ifdef JNI_TRACE
         auto cl = Util::GetClass(ENV::FromJNIEnv(env), obj);
diff --git a/src/jnivm/internal/method.cpp b/src/jnivm/internal/method.cpp
index d37ad95..cb3f10e 100644
--- a/src/jnivm/internal/method.cpp
+++ b/src/jnivm/internal/method.cpp
@@ -214,12 +214,14 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
         cl = JNITypes<std::shared_ptr<Class>>::JNICast(ENV::FromJNIEnv(env), env->GetObjectClass(obj));
         mid = findOverloadOrDefault(ENV::FromJNIEnv(env), cl.get(), mid);
     }
-    if (mid && mid->nativehandle) {
+    // The method may be hooked again while it is running
+    auto handle = mid ? mid->nativehandle : nullptr;
+    if (handle) {
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call Member Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid->signature.data());
 #endif
         try {
-            return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->InstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
+            return static_cast<jnivm::impl::MethodHandleBase<T>*>(handle.get())->InstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
@@ -278,12 +280,14 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jobject ob
     if (mid) {
         mid = findOverloadOrDefault(ENV::FromJNIEnv(env), clz.get(), mid);
     }
-    if (mid && mid->nativehandle) {
+    // The method may be hooked again while it is running
+    auto handle = mid ? mid->nativehandle : nullptr;
+    if (handle) {
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call NonVirtual Member Function Class=`%s` Method=`%s` Signature=`%s`", clz ? clz->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
         try {
-            return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
+            return static_cast<jnivm::impl::MethodHandleBase<T>*>(handle.get())->NonVirtualInstanceInvoke(ENV::FromJNIEnv(env), obj, param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
@@ -310,12 +314,14 @@ template<class T> T jnivm::MDispatchBase2<T>::CallMethod(JNIEnv *env, jclass _cl
     if(!id)
         LOG("JNIVM", "CallMethod method is null");
 #endif
-    if (mid && mid->nativehandle) {
+    // The method may be hooked again while it is running
+    auto handle = mid ? mid->nativehandle : nullptr;
+    if (handle) {
 #ifdef JNI_TRACE
         LOG("JNIVM", "Call Static Function Class=`%s` Method=`%s` Signature=`%s`", cl ? cl->nativeprefix.data() : "???", mid->name.data(), mid ? mid->signature.data() : "???");
 #endif
         try {
-             return static_cast<jnivm::impl::MethodHandleBase<T>*>(mid->nativehandle.get())->StaticInvoke(ENV::FromJNIEnv(env), cl.get(), param, jnivm::impl::MethodHandleBase<T>{});
+             return static_cast<jnivm::impl::MethodHandleBase<T>*>(handle.get())->StaticInvoke(ENV::FromJNIEnv(env), cl.get(), param, jnivm::impl::MethodHandleBase<T>{});
         } catch (...) {
             auto cur = std::make_shared<Throwable>();
             cur->except = std::current_exception();
-- 
2.43.0


From 519332bcb6bf4554cbe60271fe57f1bc071e55ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:59 +0000
Subject: [PATCH 29/30] fix: take the frame off before clearing it in
 PopLocalFrame

---
 src/jnivm/vm.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jnivm/vm.cpp b/src/jnivm/vm.cpp
index 36e671c..770e1df 100644
--- a/src/jnivm/vm.cpp
+++ b/src/jnivm/vm.cpp
@@ -137,13 +137,16 @@ jobject PopLocalFrame(JNIEnv * env, jobject result) {
 	auto&& nenv = *ENV::FromJNIEnv(env);
 	// save reference on stack
 	auto res = JNITypes<std::shared_ptr<Object>>::JNICast(&nenv, result);
-	// Clear current Frame and move to freelist
-	nenv.localframe.front().clear();
-	nenv.freeframes.splice_after(nenv.freeframes.before_begin(), nenv.localframe, nenv.localframe.before_begin());
+	// Take the current Frame first, the destructors of it's objects may create and delete local references
+	std::forward_list<std::vector<std::shared_ptr<Object>>> frame;
+	frame.splice_after(frame.before_begin(), nenv.localframe, nenv.localframe.before_begin());
 	if(nenv.localframe.empty()) {
 		LOG("JNIVM", "Freed top level frame of this ENV, recreate it");
 		nenv.localframe.emplace_front();
 	}
+	// Clear it and move it to freelist
+	frame.front().clear();
+	nenv.freeframes.splice_after(nenv.freeframes.before_begin(), frame);
 	// Add result to previous frame
 	return JNITypes<std::shared_ptr<Object>>::ToJNIType(&nenv, res);
 #else
-- 
2.43.0


From 1d4214da5e8b2abb98c7b86d1687b6dc3ef6cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:47 +0000
Subject: [PATCH 30/30] fix: convert a leading jobject parameter of hooked
 instance functions

---
 include/jnivm/jnitypes.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/jnivm/jnitypes.h b/include/jnivm/jnitypes.h
index 1ff8779..a568c14 100644
--- a/include/jnivm/jnitypes.h
+++ b/include/jnivm/jnitypes.h
@@ -140,6 +140,9 @@ namespace jnivm {
 
     template <> struct JNITypes<jobject> : ___JNIType<jobject>, JNITypesObjectBase<Object, jobject, jobject> {
         using Array = jobjectArray;
+        static jobject JNICast(ENV* env, const jobject& o) {
+            return o;
+        }
         static jobject JNICast(ENV* env, const jvalue& v) {
             return v.l;
         }
-- 
2.43.0

