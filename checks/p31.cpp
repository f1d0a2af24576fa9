// P31: direct byte buffers
#include "../mc/jtypes.hpp"
#include <sys/mman.h>
using namespace jh;

namespace {
    enum Vm { Permissive, Strict, Fake, Baron_, VMS };
    struct World {
        std::shared_ptr<void> vm;
        JavaVM* j;
        JNIEnv* env;
        template<class T> void make(const std::shared_ptr<T>& v) { j = ((VM*)v.get())->GetJavaVM(); vm = v; }
        World(int kind) {
            switch(kind) {
            case Permissive: make(std::make_shared<VM>()); break;
            case Strict: make(std::make_shared<VM>(false, true)); break;
            case Fake: make(std::make_shared<FakeJni::Jvm>()); break;
            default: make(std::make_shared<Baron::Jvm>()); break;
            }
            j->GetEnv((void**)&env, JNI_VERSION_1_6);
        }
        ~World() { j->DetachCurrentThread(); }
    };
    // Memory nobody may touch
    char* guard() {
        static char* p = (char*)mmap(nullptr, 1 << 16, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        return p;
    }
    const std::vector<void*>& addresses() {
        static const std::vector<void*> a = [] {
            static char buf[64];
            std::vector<void*> r { nullptr, (void*)1, (void*)2, (void*)0x7f, (void*)0x80, (void*)0xff, (void*)0x7fffffff, (void*)0x80000000, (void*)0xffffffff,
                (void*)0x100000000, (void*)0x7fffffffffffffff, (void*)0x8000000000000000, (void*)~(uintptr_t)0, buf, buf + 1, buf + 63, guard(), guard() + 4095, guard() + 65535 };
            return r;
        }();
        return a;
    }
    const std::vector<jlong>& capacities() {
        static const std::vector<jlong> c = [] {
            std::set<jlong> r { 0, -1, INT64_MAX, INT64_MIN, INT64_MIN + 1, 0x0123456789abcdef };
            for(int i = 0; i < 63; ++i) for(int d = -1; d <= 1; ++d) { r.insert((1ll << i) + d); r.insert(-(1ll << i) + d); }
            return std::vector<jlong>(r.begin(), r.end());
        }();
        return c;
    }
    void expect(World& w, jobject b, void* a, jlong c, const char* what) {
        for(int i = 0; i < 2; ++i) {
            auto ga = w.env->GetDirectBufferAddress(b);
            MC_CHECK(ga == a, "address", "%s: address %p instead of %p", what, ga, a);
            auto gc = w.env->GetDirectBufferCapacity(b);
            MC_CHECK(gc == c, "capacity", "%s: capacity %lld instead of %lld", what, (long long)gc, (long long)c);
        }
        MC_CHECK(!w.env->ExceptionCheck(), "exception", "%s raised", what);
    }
    struct Holder : Extends<> {
        static std::shared_ptr<ByteBuffer>& got() { static std::shared_ptr<ByteBuffer> b; return b; }
        std::shared_ptr<ByteBuffer> field;
        static std::shared_ptr<ByteBuffer> pass(std::shared_ptr<ByteBuffer> b) { got() = b; return b; }
    };
    enum Way { Local, Copy, Global, WeakRef, Element, ElementByGlobal, FieldOf, Passed, PassedGlobal, PassedV, Native, AfterPop, WAYS };

    void values() {
        int kind = choose(VMS);
        int way = choose(WAYS);
        auto a = addresses()[choose((int)addresses().size())];
        auto c = capacities()[choose((int)capacities().size())];
        World w(kind);
        auto e = w.env;
        log("vm %d way %d %p %lld", kind, way, a, (long long)c);
        auto hc = E(e)->GetClass<Holder>("p/Holder");
        auto jc = (jclass)(Object*)hc.get();
        if(way == AfterPop) e->PushLocalFrame(0);
        auto b = way == Native ? local(e, std::make_shared<ByteBuffer>(a, c)) : e->NewDirectByteBuffer(a, c);
        MC_CHECK(b, "null", "no buffer");
        MC_CHECK(e->GetObjectRefType(b) == JNILocalRefType, "reference", "a new buffer is no local reference");
        expect(w, b, a, c, "new");
        jobject r = b;
        switch(way) {
        case Copy: r = e->NewLocalRef(b); e->DeleteLocalRef(b); break;
        case Global: r = e->NewGlobalRef(b); e->DeleteLocalRef(b); break;
        case WeakRef: r = e->NewWeakGlobalRef(b); break;
        case Element: case ElementByGlobal: {
            auto bc = e->FindClass("java/nio/ByteBuffer");
            auto arr = e->NewObjectArray(2, bc, nullptr);
            auto g = way == ElementByGlobal ? e->NewGlobalRef(b) : b;
            e->SetObjectArrayElement(arr, 1, g);
            if(way == ElementByGlobal) e->DeleteGlobalRef(g);
            e->DeleteLocalRef(b);
            MC_CHECK(!e->GetObjectArrayElement(arr, 0), "array", "another element is set");
            r = e->GetObjectArrayElement(arr, 1);
            break;
        }
        case FieldOf: {
            hc->HookInstance(E(e), "field", &Holder::field);
            auto h = local(e, std::make_shared<Holder>());
            auto f = e->GetFieldID(jc, "field", "Ljava/nio/ByteBuffer;");
            e->SetObjectField(h, f, b);
            e->DeleteLocalRef(b);
            auto nat = unwrap<Holder>(e, h)->field;
            MC_CHECK(nat && nat->buffer == a && nat->capacity == c, "native", "the field has another buffer");
            r = e->GetObjectField(h, f);
            break;
        }
        case Passed: case PassedGlobal: case PassedV: {
            hc->Hook(E(e), "pass", &Holder::pass);
            auto m = e->GetStaticMethodID(jc, "pass", "(Ljava/nio/ByteBuffer;)Ljava/nio/ByteBuffer;");
            auto g = way == PassedGlobal ? e->NewGlobalRef(b) : b;
            jvalue v;
            v.l = g;
            r = way == PassedV ? e->CallStaticObjectMethodA(jc, m, &v) : e->CallStaticObjectMethod(jc, m, g);
            auto got = std::move(Holder::got());
            MC_CHECK(got && got->buffer == a && got->capacity == c, "native", "the function got another buffer");
            MC_CHECK(e->IsSameObject(r, b), "identity", "the function returned another buffer");
            if(way == PassedGlobal) e->DeleteGlobalRef(g);
            e->DeleteLocalRef(b);
            break;
        }
        case AfterPop: r = e->PopLocalFrame(b); break;
        }
        MC_CHECK(r, "null", "the buffer is gone");
        expect(w, r, a, c, "reference");
        auto n = unwrap<ByteBuffer>(e, r);
        MC_CHECK(n && n->buffer == a && n->capacity == c, "native", "the native object has other values");
        auto k = e->GetObjectClass(r);
        MC_CHECK(e->IsSameObject(k, e->FindClass("java/nio/ByteBuffer")) && e->IsInstanceOf(r, e->FindClass("java/nio/ByteBuffer")), "class", "a buffer is no java/nio/ByteBuffer");
        // Two buffers of the same memory are two objects
        auto o = e->NewDirectByteBuffer(a, c);
        MC_CHECK(!e->IsSameObject(o, r), "identity", "two buffers are the same object");
        if(way == Global) e->DeleteGlobalRef(r);
        if(way == WeakRef) e->DeleteWeakGlobalRef((jweak)r);
    }

    // Everything that is no buffer has no address and no capacity
    void others() {
        int kind = choose(VMS);
        int what = choose(14);
        int ref = choose(4);
        World w(kind);
        auto e = w.env;
        jobject o = nullptr;
        struct Own : Extends<> {};
        static char mem[4];
        switch(what) {
        case 0: break;
        case 1: o = e->NewStringUTF("x"); break;
        case 2: o = e->NewIntArray(3); break;
        case 3: o = e->NewByteArray(3); break;
        case 4: o = e->FindClass("java/lang/String"); break;
        case 5: o = e->FindClass("java/nio/ByteBuffer"); break;
        case 6: o = local(e, std::make_shared<Object>()); break;
        case 7: E(e)->GetClass<Own>("p/Own"); o = local(e, std::make_shared<Own>()); break;
        case 8: o = e->NewObjectArray(1, e->FindClass("java/nio/ByteBuffer"), nullptr); break;
        case 9: case 10: {
            // A weak reference whose buffer is gone
            e->PushLocalFrame(0);
            o = e->NewWeakGlobalRef(e->NewDirectByteBuffer(what == 9 ? mem : nullptr, 4));
            e->PopLocalFrame(nullptr);
            break;
        }
        case 11: e->ThrowNew(e->FindClass("java/lang/Throwable"), "x"); o = e->ExceptionOccurred(); e->ExceptionClear(); break;
        case 12: {
            auto s = e->FindClass("java/lang/String");
            auto m = e->GetMethodID(s, "m", "()V");
            o = m ? e->ToReflectedMethod(s, m, false) : nullptr;
            e->ExceptionClear();
            break;
        }
        case 13: o = e->NewStringUTF(""); break;
        }
        jobject h = o;
        if(ref == 1) h = o ? e->NewGlobalRef(o) : o;
        if(ref == 2) h = o ? e->NewWeakGlobalRef(o) : o;
        if(ref == 3) h = o ? e->NewLocalRef(o) : o;
        log("vm %d object %d reference %d", kind, what, ref);
        auto a = e->GetDirectBufferAddress(h);
        MC_CHECK(!a, "no-buffer", "object %d has the address %p", what, a);
        auto c = e->GetDirectBufferCapacity(h);
        MC_CHECK(c == -1, "no-buffer", "object %d has the capacity %lld", what, (long long)c);
        MC_CHECK(!e->ExceptionCheck(), "exception", "object %d raised", what);
        if(h && ref == 1) e->DeleteGlobalRef(h);
        if(h && ref == 2) e->DeleteWeakGlobalRef((jweak)h);
        if(what == 9 || what == 10) e->DeleteWeakGlobalRef((jweak)o);
    }

    // Histories of buffers over the same memory: each keeps its values, the memory is the caller's
    void history() {
        static const int DEPTH = mc::bound(5, 4, 7, 6);
        World w(choose(2) ? Strict : Permissive);
        auto e = w.env;
        alignas(16) char mem[16], model[16];
        for(int i = 0; i < 16; ++i) mem[i] = model[i] = (char)(i * 17 + 3);
        struct B { jobject ref; int kind; void* a; jlong c; std::weak_ptr<Object> obj; };
        std::vector<B> all;
        static const struct { int off; jlong n; } regions[] = { { 0, 16 }, { 0, 8 }, { 8, 8 }, { 15, 1 } };
        for(int step = 0; step < DEPTH; ++step) {
            int op = choose(6);
            if(op == 5) break;
            if(op == 0) {
                auto& r = regions[choose(4)];
                auto b = e->NewDirectByteBuffer(mem + r.off, r.n);
                log("new %d %d", r.off, (int)r.n);
                all.push_back({ b, 0, mem + r.off, r.n, unwrap<Object>(e, b) });
            } else if(op == 1) {
                if(all.empty()) break;
                auto& b = all[choose((int)all.size())];
                int k = choose(3);
                log("convert to %d", k);
                auto old = b.ref;
                int ok = b.kind;
                b.ref = k == 0 ? e->NewLocalRef(old) : k == 1 ? e->NewGlobalRef(old) : old;
                b.kind = k == 2 ? ok : k;
                if(k != 2) { if(ok == 0) e->DeleteLocalRef(old); else e->DeleteGlobalRef(old); }
            } else if(op == 2) {
                if(all.empty()) break;
                int i = choose((int)all.size());
                log("delete %d", i);
                auto b = all[i];
                all.erase(all.begin() + i);
                if(b.kind == 0) e->DeleteLocalRef(b.ref); else e->DeleteGlobalRef(b.ref);
                MC_CHECK(b.obj.expired(), "lifetime", "a buffer without references exists");
            } else if(op == 3) {
                if(all.empty()) break;
                auto& b = all[choose((int)all.size())];
                log("write");
                auto p = (char*)e->GetDirectBufferAddress(b.ref);
                auto n = e->GetDirectBufferCapacity(b.ref);
                MC_CHECK(p == b.a && n == b.c, "values", "a buffer has other values");
                p[0] = (char)(step + 1);
                p[n - 1] = (char)(step + 101);
                model[(char*)b.a - mem] = (char)(step + 1);
                model[(char*)b.a - mem + b.c - 1] = (char)(step + 101);
            } else {
                log("native");
                if(all.empty()) break;
                auto& b = all[choose((int)all.size())];
                auto n = unwrap<ByteBuffer>(e, b.ref);
                MC_CHECK(n, "native", "no native buffer");
                // Native code may change what the buffer refers to
                n->buffer = mem + 4;
                n->capacity = 2;
                b.a = mem + 4;
                b.c = 2;
            }
            for(auto& b : all) {
                expect(w, b.ref, b.a, b.c, "history");
                mc::transition();
                MC_CHECK(!b.obj.expired(), "lifetime", "a buffer with a reference is gone");
            }
            MC_CHECK(!memcmp(mem, model, 16), "memory", "the memory changed");
        }
        for(auto& b : all) { if(b.kind == 0) e->DeleteLocalRef(b.ref); else e->DeleteGlobalRef(b.ref); MC_CHECK(b.obj.expired(), "lifetime", "a buffer without references exists"); }
        MC_CHECK(!memcmp(mem, model, 16), "memory", "the memory changed");
    }
    int init = [] {
        mc::scenario("values", values, 3);
        mc::scenario("others", others, 2);
        mc::scenario("history", history, 3);
        return 0;
    }();
}
