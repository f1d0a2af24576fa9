// Hooked functions with long mixed parameter lists and every kind of leading parameter
#include "typed.hpp"
namespace {
    using S = std::shared_ptr<Tr>;
    using Z = jboolean; using B = jbyte; using C = jchar; using H = jshort; using I = jint; using J = jlong; using F = jfloat; using D = jdouble;
    template<class R, class...A> void list() {
        World w;
        cur = &w;
        for(salt = 0; salt < 6; ++salt) {
            w.env->PushLocalFrame(0);
            auto c = w.cls.get();
            c->Hook(w.e, "a", [](A...a) -> R { note(nullptr, nullptr, nullptr, a...); return P<R>::val(*cur, salt + 3); });
            tryIt<R, A...>("a", Cls);
            c->HookInstanceFunction(w.e, "b", [](Object* self, A...a) -> R { note(nullptr, self, nullptr, a...); return P<R>::val(*cur, salt + 3); });
            tryIt<R, A...>("b", Self | Virtual);
            c->HookInstanceFunction(w.e, "c", [](ENV* e, Object* self, A...a) -> R { note(e->GetJNIEnv(), self, nullptr, a...); return P<R>::val(*cur, salt + 3); });
            tryIt<R, A...>("c", Env | Self | Virtual);
            c->Hook(w.e, "d", [](JNIEnv* e, jclass cl, A...a) -> R { note(e, nullptr, cl, a...); return P<R>::val(*cur, salt + 3); });
            tryIt<R, A...>("d", Env | Cls);
            c->HookInstanceFunction(w.e, "e", [](Tr* self, A...a) -> R { note(nullptr, static_cast<Object*>(self), nullptr, a...); return P<R>::val(*cur, salt + 3); });
            tryIt<R, A...>("e", Self | Virtual);
            c->Hook(w.e, "f", [](JNIEnv* e, A...a) -> R { note(e, nullptr, nullptr, a...); return P<R>::val(*cur, salt + 3); });
            tryIt<R, A...>("f", Env | Cls);
            w.env->PopLocalFrame(nullptr);
        }
    }
    void lists() {
        switch(choose(16)) {
        case 0: list<I>(); break;
        case 1: list<S, I>(); break;
        case 2: list<J, S>(); break;
        case 3: list<D, I, D, I>(); break;
        case 4: list<F, F, F, F, F>(); break;
        case 5: list<B, D, D, D, D, D, D, D, D, D>(); break;
        case 6: list<Z, F, F, F, F, F, F, F, F, F, F, I>(); break;
        case 7: list<C, I, I, I, I, I, I, I>(); break;
        case 8: list<H, Z, B, C, H, I, J, F, D, S>(); break;
        case 9: list<S, S, D, J, F, I, H, C, B, Z>(); break;
        case 10: list<jobject, J, D, J, D, J, D, J, D, J, D, J, D>(); break;
        case 11: list<I, B, B, B, B, B, B, B, B, B, B, B, B>(); break;
        case 12: list<D, S, S, S, S, S, S, S, S, S, S>(); break;
        case 13: list<F, C, F, H, D, B, F, Z, D, J, F, S, D, I, F, C, D>(); break;
        case 14: list<J, I, J, I, J, I, J, I, J, I, J, I, J, I, J, I, J, I>(); break;
        case 15: list<std::shared_ptr<String>, std::shared_ptr<String>, bool, std::shared_ptr<jnivm::Array<jint>>, bool, jobject>(); break;
        }
    }
    // References, pointers and results by value
    struct Val : Extends<> { int n = 0; };
    void shapes() {
        World w;
        cur = &w;
        auto c = w.cls.get();
        auto vc = w.e->GetClass<Val>("p/Val");
        auto v = std::make_shared<Val>();
        v->n = 77;
        jobject jv = local(w.env, v);
        int calls = 0;
        void* seen = nullptr;
        auto check = [&](const char* what, jobject want, bool st) {
            MC_CHECK(calls == 1, "calls", "%s ran %d times", what, calls);
            MC_CHECK(seen == want, "argument", "%s", what);
            MC_CHECK(!w.env->ExceptionCheck(), "exception", "%s", what);
            calls = 0;
            seen = nullptr;
            mc::transition();
        };
        switch(choose(6)) {
        case 0:
            c->Hook(w.e, "p", [&](Tr* t) { calls++; seen = t ? static_cast<Object*>(t) : nullptr; });
            w.env->CallStaticVoidMethod(w.jc, w.env->GetStaticMethodID(w.jc, "p", "(Lp/Tr;)V"), w.jo);
            check("pointer", w.jo, true);
            w.env->CallStaticVoidMethod(w.jc, w.env->GetStaticMethodID(w.jc, "p", "(Lp/Tr;)V"), nullptr);
            check("null pointer", nullptr, true);
            break;
        case 1:
            c->Hook(w.e, "r", [&](Tr& t) { calls++; seen = static_cast<Object*>(&t); });
            w.env->CallStaticVoidMethod(w.jc, w.env->GetStaticMethodID(w.jc, "r", "(Lp/Tr;)V"), w.jo);
            check("reference", w.jo, true);
            break;
        case 2: {
            c->Hook(w.e, "v", [&]() -> Val { calls++; Val x; x.n = 42; return x; });
            auto o = w.env->CallStaticObjectMethod(w.jc, w.env->GetStaticMethodID(w.jc, "v", "()Lp/Val;"));
            auto r = unwrap<Val>(w.env, o);
            MC_CHECK(r && r->n == 42 && r != v, "result", "object returned by value");
            check("value", nullptr, true);
            break; }
        case 3: {
            c->Hook(w.e, "n", [&]() -> std::shared_ptr<Val> { calls++; return nullptr; });
            auto o = w.env->CallStaticObjectMethod(w.jc, w.env->GetStaticMethodID(w.jc, "n", "()Lp/Val;"));
            MC_CHECK(!o, "result", "null");
            check("null", nullptr, true);
            break; }
        case 4: {
            // Constructors
            c->Hook(w.e, "<init>", [&](jint a, std::shared_ptr<Val> b) { calls++; seen = b ? static_cast<Object*>(b.get()) : nullptr; auto t = std::make_shared<Tr>(); t->base = a; return t; });
            auto id = w.env->GetMethodID(w.jc, "<init>", "(ILp/Val;)V");
            auto o = w.env->NewObject(w.jc, id, 1234567, jv);
            auto t = unwrap<Tr>(w.env, o);
            MC_CHECK(t && t->base == 1234567 && o != w.js, "result", "constructed object");
            MC_CHECK(w.env->IsSameObject(w.env->GetObjectClass(o), w.jc), "class", "constructed object");
            check("constructor", jv, true);
            break; }
        case 5: {
            // Through global and weak references
            c->Hook(w.e, "g", [&](std::shared_ptr<Val> x) { calls++; seen = x ? static_cast<Object*>(x.get()) : nullptr; return x; });
            auto id = w.env->GetStaticMethodID(w.jc, "g", "(Lp/Val;)Lp/Val;");
            auto g = w.env->NewGlobalRef(jv);
            auto k = w.env->NewWeakGlobalRef(jv);
            MC_CHECK(w.env->CallStaticObjectMethod(w.jc, id, g) == jv, "result", "global");
            check("global", jv, true);
            MC_CHECK(w.env->CallStaticObjectMethod(w.jc, id, k) == jv, "result", "weak");
            check("weak", jv, true);
            break; }
        }
    }
    static int init = [] {
        mc::scenario("lists", lists, 1);
        mc::scenario("shapes", shapes, 1);
        return 0;
    }();
}
