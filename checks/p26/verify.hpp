// Included behind the generated code: binds one case in a strict VM and looks everything up
#pragma once
#include <jnivm.h>
#include <fake-jni/fake-jni.h>
#include <cstdio>
#include <cstring>
struct Expected { char kind; const char* cls; const char* name; const char* sig; };
static int failures;
static void lookups(int no, JNIEnv* env, const Expected* x, int n) {
    for(int i = 0; i < n; ++i, ++x) {
        auto c = env->FindClass(x->cls);
        bool ok = c;
        if(ok) switch(x->kind) {
        case 'c': break;
        case 's': ok = env->GetStaticMethodID(c, x->name, x->sig); break;
        case 'm': ok = env->GetMethodID(c, x->name, x->sig); break;
        case 'S': ok = env->GetStaticFieldID(c, x->name, x->sig); break;
        case 'f': ok = env->GetFieldID(c, x->name, x->sig); break;
        case 'n': ok = !env->GetStaticMethodID(c, x->name, x->sig) && !env->GetMethodID(c, x->name, x->sig); break;
        }
        if(!ok) {
            printf("FAILED %d %c %s %s %s\n", no, x->kind, x->cls, x->name, x->sig);
            failures++;
        }
    }
}
#ifdef GENERATED_FAKE
static void verify(int no, void (*bind)(FakeJni::Jvm*), const Expected* x, int n) {
    FakeJni::Jvm vm;
    FakeJni::LocalFrame frame(vm);
    try { bind(&vm); } catch(const std::exception& e) { printf("FAILED %d binding: %s\n", no, e.what()); failures++; return; }
    lookups(no, &frame.getJniEnv(), x, n);
}
#else
static void verify(int no, void (*bind)(jnivm::ENV*), const Expected* x, int n) {
    jnivm::VM vm(false, true);
    try { bind(vm.GetEnv().get()); } catch(const std::exception& e) { printf("FAILED %d binding: %s\n", no, e.what()); failures++; return; }
    lookups(no, vm.GetJNIEnv(), x, n);
}
#endif
