// P28: what is left when a VM is gone and after balanced sequences of operations
#include "../mc/jtypes.hpp"
#include <sstream>
#include <iostream>
using namespace jh;

namespace {
    struct Count {
        static int alive;
        static bool twice;
        uint64_t magic = 0x0b9ec7a11fe5afe1ull;
        Count() { alive++; }
        Count(const Count&) { alive++; }
        ~Count() { if(magic != 0x0b9ec7a11fe5afe1ull) twice = true; magic = 0; alive--; }
    };
    int Count::alive;
    bool Count::twice;
    struct Tr : Extends<> {
        Count c;
        std::shared_ptr<Object> next;
        std::shared_ptr<Tr> same;
        jint n = 0;
        jint add(jint i) { return n += i; }
    };
    struct Sub : Extends<Tr> {};
    struct Other : Extends<> {
        std::shared_ptr<jnivm::Array<jnivm::Array<Other>>> array;
    };
    struct Ex : Extends<Throwable> { Count c; };
    struct Thrown { Count c; std::shared_ptr<Tr> obj; };
    struct Described : FakeJni::JObject {
        DEFINE_CLASS_NAME("p/Described")
        Count c;
        std::shared_ptr<Described> other;
        FakeJni::JInt number = 3;
        FakeJni::JInt get() { return number; }
        static void nothing(std::shared_ptr<Described>) {}
    };
    BEGIN_NATIVE_DESCRIPTOR(Described)
        {FakeJni::Constructor<Described>{}},
        {FakeJni::Function<&Described::get>{}, "get"},
        {FakeJni::Function<&Described::nothing>{}, "nothing", FakeJni::JMethodID::STATIC},
        {FakeJni::Field<&Described::number>{}, "number"},
        {FakeJni::Field<&Described::other>{}, "other"},
    END_NATIVE_DESCRIPTOR

    // Class::getMethod is only for threads with an environment of fake-jni
    std::shared_ptr<Method> find(const std::shared_ptr<Class>& c, const char* name) {
        for(auto& m : c->methods) if(m->name == name) return m;
        return nullptr;
    }
    void nativeFn(JNIEnv* env, jobject o, jobject a) { if(a) env->NewLocalRef(a); }
    void* noLib(const char*, int) { return &Count::alive; }
    jint loadFn(JavaVM* vm, void*) { JNIEnv* e; vm->GetEnv((void**)&e, JNI_VERSION_1_6); e->NewGlobalRef(e->NewStringUTF("loaded")); return JNI_VERSION_1_6; }
    void* noSym(void*, const char* n) { return !strcmp(n, "JNI_OnLoad") ? (void*)loadFn : nullptr; }
    int noClose(void*) { return 0; }

    Peer& peer() { static Peer* p = new Peer; return *p; }
    struct VMs {
        std::shared_ptr<VM> plain;
        std::shared_ptr<FakeJni::Jvm> fake;
        std::shared_ptr<Baron::Jvm> baron;
        VM* vm;
        JavaVM* jvm;
        VMs(int kind) {
            if(kind < 2) { plain = std::make_shared<VM>(false, kind == 1); vm = plain.get(); jvm = vm->GetJavaVM(); }
            else {
                if(kind == 3) fake = baron = std::make_shared<Baron::Jvm>(); else fake = std::make_shared<FakeJni::Jvm>();
                jvm = static_cast<JavaVM*>(fake.get());
                vm = jnivm::VM::FromJavaVM(jvm);
            }
        }
    };
    struct World : VMs {
        JNIEnv* env;
        ENV* e;
        std::shared_ptr<Class> cls, sub;
        jclass c;
        World(int kind) : VMs(kind) {
            jvm->GetEnv((void**)&env, JNI_VERSION_1_6);
            e = E(env);
            cls = e->GetClass<Tr>("p/Tr");
            sub = e->GetClass<Sub>("p/Sub");
            c = (jclass)(Object*)cls.get();
            cls->HookInstanceProperty(e, "next", &Tr::next);
            cls->HookInstanceProperty(e, "same", &Tr::same);
            cls->HookInstanceProperty(e, "n", &Tr::n);
            cls->Hook(e, "add", &Tr::add);
            cls->Hook(e, "<init>", [](Class*, std::shared_ptr<Object> o) { auto t = std::make_shared<Tr>(); t->next = o; return t; });
            cls->Hook(e, "pass", [](ENV*, Class*, std::shared_ptr<Object> o) { return o; });
            cls->Hook(e, "fail", [](ENV* e, Class*, std::shared_ptr<Object> o) { auto t = std::make_shared<Tr>(); t->next = o; throw Thrown{{}, t}; });
        }
    };

    // The histories that end with the VM
    struct History : World {
        jobject cur = nullptr;
        int frames = 0;
        bool peerAttached = false;
        std::vector<jobject> globals;
        std::vector<jweak> weaks;
        std::vector<std::shared_ptr<Object>> held;
        std::vector<std::shared_ptr<Count>> counted;
        std::vector<jobject> saved;
        int serial = 0;
        History(int kind) : World(kind) {}
        std::shared_ptr<Object> obj() { return unwrap<Object>(env, cur); }
        // What is stored may not lead back to where it is stored (reference counting does not free cycles)
        jobject arg() { return std::dynamic_pointer_cast<Class>(obj()) ? nullptr : cur; }
        std::shared_ptr<Tr> tr() { auto o = obj(); return std::dynamic_pointer_cast<Tr>(o); }
        static constexpr int OPS = 34;
        void op(int k) {
            switch(k) {
            case 0: cur = local(env, std::make_shared<Tr>()); break;
            case 1: globals.push_back(cur = env->NewGlobalRef(cur)); break;
            case 2: if(auto w = env->NewWeakGlobalRef(cur)) weaks.push_back(w); break;
            case 3: cur = env->NewObjectArray(2, c, tr() ? cur : nullptr); break;
            case 4: {
                auto a = std::make_shared<jnivm::Array<Tr>>(3);
                (*a)[1] = tr();
                cur = local(env, a);
                break;
            }
            case 5: {
                auto n = local(env, std::make_shared<Sub>());
                env->SetObjectField(n, env->GetFieldID(c, "next", "Ljava/lang/Object;"), arg());
                cur = n;
                break;
            }
            case 6: {
                auto ex = std::make_shared<Ex>();
                env->Throw((jthrowable)local<Throwable>(env, ex));
                cur = (jobject)env->ExceptionOccurred();
                break;
            }
            case 7: {
                jvalue v;
                v.l = arg();
                env->CallStaticObjectMethodA(c, env->GetStaticMethodID(c, "fail", "(Ljava/lang/Object;)Ljava/lang/Object;"), &v);
                (void)env->CallStaticVoidMethodA(c, env->GetStaticMethodID(c, "fail", "(Ljava/lang/Object;)V"), &v);
                break;
            }
            case 8: {
                auto s = env->NewStringUTF("some string that is too long for the buffer inside");
                env->ReleaseStringChars(s, env->GetStringChars(s, nullptr));
                env->ReleaseStringUTFChars(s, env->GetStringUTFChars(s, nullptr));
                cur = s;
                break;
            }
            case 9: {
                auto a = env->NewLongArray(5);
                env->ReleaseLongArrayElements(a, env->GetLongArrayElements(a, nullptr), 0);
                cur = a;
                break;
            }
            case 10: {
                std::string n = "a" + std::to_string(serial++) + "/B$C";
                auto k = env->FindClass(n.data());
                if(!k) break;
                env->GetMethodID(k, "m", "(Lx/Y;[[Lz/W;)Lv/U;");
                env->GetStaticFieldID(k, "f", "[Lt/S;");
                env->GetMethodID(k, "<init>", "(I)V");
                cur = k;
                break;
            }
            case 11: {
                auto m = env->GetStaticMethodID(c, "undeclared", serial++ % 2 ? "()[Lp/Tr;" : "()Lp/Tr;");
                if(m) cur = env->CallStaticObjectMethod(c, m);
                break;
            }
            case 12: {
                JNINativeMethod n[] = {{(char*)"nat", (char*)"(Ljava/lang/Object;)V", (void*)nativeFn}, {(char*)"other", (char*)"()V", (void*)nativeFn}};
                env->RegisterNatives(c, n, 2);
                auto m = find(cls, "nat");
                // Throws what is pending
                try { m->invoke(*env, cls.get(), obj()); } catch(...) {}
                break;
            }
            case 13: {
                auto p = std::make_shared<Tr>();
                p->next = unwrap<Object>(env, arg());
                cls->Hook(e, "hooked", [p](ENV*, Class*) { return p; });
                if(serial++ % 2) cls->HookInstanceFunction(e, "hooked", [p](ENV*, Object*) {});
                break;
            }
            case 14: env->PushLocalFrame(4); frames++; break;
            case 15: if(frames) { frames--; cur = env->PopLocalFrame(cur); } break;
            case 16: {
                peerAttached = true;
                auto o = unwrap<Object>(env, arg());
                peer().run([&] {
                    JNIEnv* e;
                    jvm->AttachCurrentThread(&e, nullptr);
                    auto t = std::make_shared<Tr>();
                    t->next = o;
                    local(e, t);
                    e->PushLocalFrame(2);
                    globals.push_back(e->NewGlobalRef(local(e, std::make_shared<Tr>())));
                    e->ThrowNew(e->FindClass("java/lang/Throwable"), "peer");
                });
                break;
            }
            case 17: if(peerAttached) { peerAttached = false; peer().run([&] { jvm->DetachCurrentThread(); }); } break;
            case 18: if(auto t = tr()) { held.push_back(t); counted.push_back(std::shared_ptr<Count>(t, &t->c)); } break;
            case 19: cur = env->NewObject(c, env->GetMethodID(c, "<init>", "(Ljava/lang/Object;)V"), arg()); break;
            case 20:
                cur = env->ToReflectedMethod(c, env->GetMethodID(c, "add", "(I)I"), false);
                env->ToReflectedField(c, env->GetFieldID(c, "n", "I"), false);
                break;
            case 21: cur = env->NewDirectByteBuffer(&serial, 4); break;
            case 22: if(cur) { env->MonitorEnter(cur); env->MonitorExit(cur); } break;
            case 23:
                if(globals.size()) { if(globals.back() == cur) cur = nullptr; env->DeleteGlobalRef(globals.back()); globals.pop_back(); }
                if(weaks.size()) { env->DeleteWeakGlobalRef(weaks.back()); weaks.pop_back(); }
                break;
            case 24: {
                auto p = std::make_shared<Count>();
                if(baron) baron->AddHook([p](JNINativeInterface&) {});
                if(plain) plain->AddHook([p](JNINativeInterface&) {});
                break;
            }
            case 25:
                if(cur) cur = env->GetObjectClass(cur);
                env->GetSuperclass((jclass)(Object*)sub.get());
                env->IsAssignableFrom((jclass)(Object*)sub.get(), c);
                break;
            case 26: {
                auto p = std::make_shared<std::shared_ptr<Object>>();
                auto n = "closure" + std::to_string(serial++);
                cls->HookGetterFunction(e, n, [p]() { return *p; });
                cls->HookSetterFunction(e, n, [p](std::shared_ptr<Object> o) { *p = o; });
                env->SetStaticObjectField(c, env->GetStaticFieldID(c, n.data(), "Ljava/lang/Object;"), arg());
                break;
            }
            case 27: {
                std::string s = vm->GeneratePreDeclaration() + vm->GenerateHeader() + vm->GenerateStubs() + vm->GenerateJNIPreDeclaration() + vm->GenerateJNIBinding();
                break;
            }
            case 28: {
                if(!fake) break;
                fake->registerClass<Described>();
                auto d = std::make_shared<Described>();
                d->other = std::make_shared<Described>();
                cur = local(env, d);
                auto k = env->GetObjectClass(cur);
                env->GetMethodID(k, "get", "()I");
                env->IsInstanceOf(cur, k);
                break;
            }
            case 29: if(fake) fake->attachLibrary(serial++ % 2 ? "x.so" : "y.so", "", FakeJni::LibraryOptions(noOpen(), noSym, noClose)); break;
            case 30:
                if(baron) { baron->denyClass("no/Such"); baron->denyMethod("add", "(I)I", "p/Tr"); baron->denyField("n", "I"); }
                if(auto t = tr()) { t->same = std::make_shared<Tr>(); env->SetObjectField(cur, env->GetFieldID(c, "same", "Lp/Tr;"), local(env, std::make_shared<Sub>())); }
                break;
            case 31: if(cur) { env->NewLocalRef(cur); cur = env->NewLocalRef(cur); env->DeleteLocalRef(cur); } break;
            case 32: env->ExceptionClear(); env->UnregisterNatives(c); break;
            // Members whose types the VM has to know the classes of, of a class of their own each time
            case 33: {
                auto k = e->GetClass<Other>("q/Other");
                auto n = "typed" + std::to_string(serial++);
                k->Hook(e, n, [](ENV*, Class*, std::shared_ptr<jnivm::Array<Tr>> a, std::shared_ptr<jnivm::Array<jnivm::Array<String>>>, std::shared_ptr<Other> o, std::shared_ptr<jnivm::Array<jint>>) { return a; });
                k->HookInstanceFunction(e, n, [](ENV*, Object*, std::shared_ptr<jnivm::Array<Other>>) { return std::make_shared<jnivm::Array<Throwable>>(1); });
                k->HookInstanceProperty(e, n, &Other::array);
                k->HookGetterFunction(e, n, [] { return std::shared_ptr<jnivm::Array<Class>>(); });
                for(auto s : {"[Lp/Tr;", "[[Ljava/lang/String;", "[Lq/Other;"}) if(auto a = env->FindClass(s)) {
                    auto m = std::make_shared<Method>();
                    m->name = n + s;
                    m->signature = std::string("()") + s;
                    m->_static = true;
                    k->methods.push_back(m);
                    if(auto r = env->CallStaticObjectMethod((jclass)(Object*)k.get(), (jmethodID)m.get())) cur = r;
                }
                break;
            }
            }
        }
        static void* (*noOpen())(const char*, int) { return noLib; }
    };
    // cur may be a reference the operation has deleted the object of: only used while it is protected
    void replayHistory(int kind, const std::vector<int>& ops, std::vector<std::shared_ptr<Object>>& survivors, std::vector<std::shared_ptr<Count>>& counted) {
        std::unique_ptr<History> h(new History(kind));
        h->op(0);
        // The object used by the operations outlives the references to it
        std::shared_ptr<Object> keep = h->obj();
        for(int k : ops) {
            if(!keep) h->cur = nullptr;
            h->op(k);
            keep = h->cur ? h->obj() : nullptr;
            mc::transition();
        }
        survivors = h->held;
        counted = h->counted;
        keep.reset();
        if(h->peerAttached && h->fake) peer().run([&] { h->jvm->DetachCurrentThread(); });
        auto v = static_cast<VMs>(*h);
        h.reset();
        v.baron.reset(); v.fake.reset(); v.plain.reset();
    }
    void finish(int kind, const std::vector<int>& ops) {
        for(int attempt = 0; ; ++attempt) {
            long blocks = mc::liveBlocks(), bytes = mc::liveBytes();
            int alive0 = Count::alive;
            Count::twice = false;
            {
                std::vector<std::shared_ptr<Object>> survivors;
                std::vector<std::shared_ptr<Count>> counted;
                replayHistory(kind, ops, survivors, counted);
                for(auto& s : counted) MC_CHECK(s->magic == 0x0b9ec7a11fe5afe1ull, "survivor", "an object held by C++ is gone");
                // What is held may hold others
                std::set<Object*> seen;
                std::function<void(Object*)> visit = [&](Object* o) {
                    if(!o || !seen.insert(o).second) return;
                    if(auto t = dynamic_cast<Tr*>(o)) { visit(t->next.get()); visit(t->same.get()); }
                    else if(auto d = dynamic_cast<Described*>(o)) visit(d->other.get());
                    else if(auto a = dynamic_cast<jnivm::Array<Object>*>(o)) for(int i = 0; i < a->getSize(); ++i) visit(std::shared_ptr<Object>((*a)[i]).get());
                };
                for(auto& s : survivors) visit(s.get());
                int n = 0;
                for(auto o : seen) if(dynamic_cast<Tr*>(o) || dynamic_cast<Ex*>(o) || dynamic_cast<Described*>(o)) n++;
                bool throwing = false;
                for(auto o : seen) throwing |= dynamic_cast<Throwable*>(o) != nullptr;
                if(!throwing) MC_CHECK(Count::alive - alive0 == n, "objects", "%d objects exist after the end of the VM, %d of them held by C++", Count::alive - alive0, n);
            }
            MC_CHECK(!Count::twice, "destroyed twice", "an object");
            MC_CHECK(Count::alive == alive0, "objects", "%d objects exist after the end of the VM", Count::alive - alive0);
            if(mc::verbose()) log("attempt %d: %ld blocks, %ld bytes", attempt, mc::liveBlocks() - blocks, mc::liveBytes() - bytes);
            if(!mc::countsMemory() || (mc::liveBlocks() == blocks && mc::liveBytes() == bytes)) break;
            // Only what is not kept for good by the first use
            MC_CHECK(attempt < 5, "memory", "%ld blocks of %ld bytes are left after the end of the VM", mc::liveBlocks() - blocks, mc::liveBytes() - bytes);
        }
    }
    void histories(int kind) {
        (void)peer();
        int n = mc::bound(kind ? 3 : 4, kind ? 2 : 3, kind ? 4 : 5, 3);
        std::vector<int> ops;
        int l = choose(n + 1);
        for(int i = 0; i < l; ++i) ops.push_back(choose(History::OPS));
        for(int k : ops) log("operation %d", k);
        std::string s = std::to_string(kind);
        for(int k : ops) s += "," + std::to_string(k);
        mc::state(s);
        finish(kind, ops);
    }
    // Long histories: every operation many times, in turns with another one
    void repeated() {
        (void)peer();
        int kind = choose(4), a = choose(History::OPS), b = choose(History::OPS), n = mc::bound(40, 8, 200, 40);
        std::vector<int> ops;
        // Each frame holds its references, the number of operations bounds the depth
        for(int i = 0; i < n; ++i) ops.push_back(i % 2 ? b : a);
        if((a == 27 || b == 27) && n > 8) ops.resize(8);
        finish(kind, ops);
    }

    // Balanced sequences: every one leaves the VM as it was
    struct Balanced : World {
        std::shared_ptr<Tr> t = std::make_shared<Tr>(), u = std::make_shared<Sub>();
        jobject jt, ju;
        jthrowable ex;
        jstring str;
        jobjectArray arr;
        jobject buf;
        jmethodID add, pass, fail, init, undecl, undeclObj;
        jfieldID fn, fnext, funk;
        std::vector<std::pair<std::string, std::function<void()>>> ops;
        Balanced(int kind) : World(kind) {
            jt = local(env, t);
            ju = local(env, u);
            ex = (jthrowable)local(env, std::make_shared<Throwable>());
            str = env->NewStringUTF("a string that does not fit \xc3\xa4 into the object");
            arr = env->NewObjectArray(3, c, jt);
            buf = env->NewDirectByteBuffer(this, 4);
            VM helper; // Members a strict VM would not declare
            add = env->GetMethodID(c, "add", "(I)I");
            pass = env->GetStaticMethodID(c, "pass", "(Ljava/lang/Object;)Ljava/lang/Object;");
            fail = env->GetStaticMethodID(c, "fail", "(Ljava/lang/Object;)V");
            init = env->GetMethodID(c, "<init>", "(Ljava/lang/Object;)V");
            for(auto s : {"()Lp/Tr;", "()Ljava/lang/String;", "()[I", "()[Lp/Tr;", "()[[J", "()Ljava/lang/Class;", "()Ljava/lang/Object;", "()V"}) declare((kind == 1 || kind == 2) && !strcmp(s, "()[[J") ? "()[J" : s, true);
            fn = env->GetFieldID(c, "n", "I");
            fnext = env->GetFieldID(c, "next", "Ljava/lang/Object;");
            build();
        }
        std::vector<std::pair<jmethodID, std::string>> undeclared;
        void declare(const char* sig, bool st) {
            auto m = std::make_shared<Method>();
            m->name = "undeclared";
            m->signature = sig;
            m->_static = st;
            cls->methods.push_back(m);
            undeclared.push_back({(jmethodID)m.get(), sig});
        }
        void o(const std::string& n, std::function<void()> f) { ops.push_back({n, std::move(f)}); }
        template<class T> void prim() {
            std::string n = JT<T>::name();
            o("array " + n, [this] {
                auto a = JT<T>::newArray(env, 7);
                T buf[7] = {};
                JT<T>::release(env, a, JT<T>::elements(env, a, nullptr), 0);
                JT<T>::release(env, a, JT<T>::elements(env, a, nullptr), JNI_COMMIT);
                JT<T>::release(env, a, JT<T>::elements(env, a, nullptr), JNI_ABORT);
                JT<T>::setRegion(env, a, 1, 5, buf);
                JT<T>::getRegion(env, a, 1, 5, buf);
                env->ReleasePrimitiveArrayCritical(a, env->GetPrimitiveArrayCritical(a, nullptr), 0);
                env->GetArrayLength(a);
            });
        }
        template<class T> void calls() {
            std::string n = JT<T>::name();
            o("calls " + n, [this] {
                jvalue v[2];
                v[0].l = jt;
                for(auto id : {pass, undeclared[0].first, undeclared[7].first}) {
                    // Only what the implementation returns
                    if(id == pass && !std::is_same<T, jobject>::value && !std::is_void<T>::value) continue;
                    if(std::is_void<T>::value && id == pass) continue;
                    (void)JT<T>::stA(env, c, id, v);
                    (void)JT<T>::st(env, c, id, jt);
                    VaArgs va;
                    va.build({{false, (uint64_t)jt}}, 3);
                    va.with([&](va_list l) { (void)JT<T>::stV(env, c, id, l); });
                }
                auto id = undeclared[7].first;
                (void)JT<T>::callA(env, jt, id, v);
                (void)JT<T>::call(env, jt, id);
                (void)JT<T>::nvA(env, jt, c, id, v);
                (void)JT<T>::nv(env, jt, c, id);
            });
        }
        void build() {
            o("nothing", [] {});
            o("FindClass", [this] { env->FindClass("p/Tr"); env->FindClass("java/lang/String"); env->FindClass("[I"); env->FindClass("[Lp/Tr;"); env->FindClass("a/b/C$D"); });
            o("GetMethodID", [this] { env->GetMethodID(c, "add", "(I)I"); env->GetMethodID(c, "none", "(Lq/R;)V"); env->GetStaticMethodID(c, "none", "()I"); env->GetMethodID(c, "<init>", "()V"); });
            o("GetFieldID", [this] { env->GetFieldID(c, "n", "I"); env->GetFieldID(c, "none", "Lq/R;"); env->GetStaticFieldID(c, "none", "I"); });
            o("local references", [this] { auto r = env->NewLocalRef(jt); env->DeleteLocalRef(r); env->NewLocalRef(ju); env->EnsureLocalCapacity(4); local(env, std::make_shared<Tr>()); });
            o("global reference", [this] { auto g = env->NewGlobalRef(jt), h = env->NewGlobalRef(g); env->NewLocalRef(g); env->DeleteGlobalRef(g); env->DeleteGlobalRef(h); });
            o("weak reference", [this] { auto w = env->NewWeakGlobalRef(jt); auto l = env->NewLocalRef(w); auto g = env->NewGlobalRef(w); env->IsSameObject(w, l); env->DeleteGlobalRef(g); env->DeleteWeakGlobalRef(w); });
            o("cleared weak reference", [this] {
                env->PushLocalFrame(1);
                auto w = env->NewWeakGlobalRef(local(env, std::make_shared<Tr>()));
                env->PopLocalFrame(nullptr);
                env->NewLocalRef(w); env->IsSameObject(w, nullptr);
                env->DeleteWeakGlobalRef(w);
            });
            o("frames", [this] { for(int i = 0; i < 3; ++i) { env->PushLocalFrame(i * 8); env->NewLocalRef(jt); } for(int i = 0; i < 3; ++i) env->PopLocalFrame(i ? jt : nullptr); });
            o("Throw", [this] { env->Throw(ex); env->ExceptionOccurred(); env->ExceptionCheck(); env->ExceptionDescribe(); env->ExceptionClear(); });
            o("ThrowNew", [this] { env->ThrowNew(c, "a message of more than a few characters"); env->ExceptionOccurred(); env->ExceptionDescribe(); env->ThrowNew(c, nullptr); env->ExceptionClear(); });
            o("failing call", [this] { env->CallStaticVoidMethod(c, fail, jt); env->ExceptionDescribe(); env->NewGlobalRef(nullptr); env->ExceptionClear(); });
            o("objects", [this] { env->NewObject(c, init, jt); jvalue v; v.l = nullptr; env->NewObjectA(c, init, &v); env->GetObjectClass(jt); env->GetObjectClass(nullptr); env->IsInstanceOf(ju, c); env->GetObjectRefType(jt); env->GetSuperclass((jclass)(Object*)sub.get()); env->IsAssignableFrom(c, (jclass)(Object*)sub.get()); env->IsSameObject(jt, ju); });
            o("reflection", [this] { auto m = env->ToReflectedMethod(c, add, false); env->FromReflectedMethod(m); auto f = env->ToReflectedField(c, fn, false); env->FromReflectedField(f); env->FromReflectedMethod(jt); env->FromReflectedField(nullptr); });
            o("strings", [this] {
                auto s = env->NewStringUTF("\xc3\xa4 more than the sixteen bytes of small strings");
                auto l = env->GetStringLength(s);
                auto p = env->GetStringChars(s, nullptr);
                env->NewString(p, l);
                env->ReleaseStringChars(s, p);
                env->ReleaseStringUTFChars(s, env->GetStringUTFChars(s, nullptr));
                env->ReleaseStringCritical(s, env->GetStringCritical(s, nullptr));
                env->ReleaseStringChars(nullptr, env->GetStringChars(nullptr, nullptr));
                jchar b[100]; char u[400];
                env->GetStringRegion(s, 0, l, b); env->GetStringUTFRegion(s, 1, l - 1, u); env->GetStringUTFLength(s);
                env->NewStringUTF(nullptr);
            });
            prim<jboolean>(); prim<jbyte>(); prim<jchar>(); prim<jshort>(); prim<jint>(); prim<jlong>(); prim<jfloat>(); prim<jdouble>();
            o("object arrays", [this] { auto a = env->NewObjectArray(5, c, jt); env->SetObjectArrayElement(a, 1, ju); env->SetObjectArrayElement(a, 2, nullptr); env->GetObjectArrayElement(a, 1); env->GetObjectArrayElement(arr, 0); auto b = env->NewObjectArray(2, env->GetObjectClass(a), a); env->GetObjectArrayElement(b, 1); env->GetArrayLength(b); env->SetObjectArrayElement(arr, 2, local(env, std::make_shared<Tr>())); });
            o("fields", [this] { env->SetIntField(jt, fn, 3); env->GetIntField(jt, fn); env->SetObjectField(jt, fnext, ju); env->GetObjectField(jt, fnext); env->SetObjectField(jt, fnext, local(env, std::make_shared<Tr>())); });
            o("undeclared methods", [this] { for(auto& m : undeclared) if(m.second != "()V") (void)env->CallStaticObjectMethod(c, m.first); });
            o("instance method", [this] { env->CallIntMethod(jt, add, 3); env->CallIntMethod(ju, add, 4); });
            calls<jobject>(); calls<jint>(); calls<jdouble>(); calls<jboolean>(); calls<void>(); calls<jlong>(); calls<jfloat>(); calls<jbyte>(); calls<jchar>(); calls<jshort>();
            o("natives", [this] {
                JNINativeMethod n[] = {{(char*)"nat", (char*)"(Ljava/lang/Object;)V", (void*)nativeFn}, {(char*)"other", (char*)"()V", (void*)nativeFn}};
                env->RegisterNatives(c, n, 2);
                env->RegisterNatives(c, n, 2);
                env->UnregisterNatives(c);
            });
            o("native from C++", [this] {
                JNINativeMethod n = {(char*)"nat2", (char*)"(Ljava/lang/Object;)V", (void*)nativeFn};
                env->RegisterNatives((jclass)(Object*)sub.get(), &n, 1);
                find(sub, "nat2")->invoke(*env, t.get(), u);
            });
            o("C++ calls", [this] { find(cls, "add")->invoke(*env, t.get(), 3); });
            o("hook again", [this] { auto p = std::make_shared<Tr>(); cls->Hook(e, "again", [p](ENV*, Class*) { return p; }); cls->HookGetterFunction(e, "fagain", [p]() { return p; }); });
            o("monitor", [this] { env->MonitorEnter(jt); env->MonitorEnter(jt); env->MonitorExit(jt); env->MonitorExit(jt); });
            o("buffer", [this] { auto b = env->NewDirectByteBuffer(this, 8); env->GetDirectBufferAddress(b); env->GetDirectBufferCapacity(buf); });
            o("vm", [this] { JavaVM* v; env->GetJavaVM(&v); void* p; v->GetEnv(&p, JNI_VERSION_1_6); v->AttachCurrentThread((JNIEnv**)&p, nullptr); env->GetVersion(); });
            o("another thread", [this] {
                peer().run([&] {
                    JNIEnv* e;
                    jvm->AttachCurrentThread(&e, nullptr);
                    e->NewLocalRef(jt);
                    local(e, std::make_shared<Tr>());
                    e->PushLocalFrame(3);
                    e->ThrowNew(e->FindClass("p/Tr"), "x");
                    e->DeleteGlobalRef(e->NewGlobalRef(jt));
                    jvm->DetachCurrentThread();
                });
            });
            o("generating", [this] { std::string s = vm->GeneratePreDeclaration() + vm->GenerateHeader() + vm->GenerateStubs() + vm->GenerateJNIPreDeclaration() + vm->GenerateJNIBinding(); });
            o("registering a class again", [this] { e->GetClass<Tr>("p/Tr"); e->GetClass("p/Tr"); });
            if(fake) {
                o("described", [this] {
                    fake->registerClass<Described>();
                    auto d = std::make_shared<Described>();
                    d->other = std::make_shared<Described>();
                    auto j = local(env, d);
                    auto k = env->GetObjectClass(j);
                    env->CallIntMethod(j, env->GetMethodID(k, "get", "()I"));
                    env->CallStaticVoidMethod(k, env->GetStaticMethodID(k, "nothing", "(Lp/Described;)V"), j);
                    env->GetObjectField(j, env->GetFieldID(k, "other", "Lp/Described;"));
                });
                o("library", [this] {
                    fake->attachLibrary("x.so", "", FakeJni::LibraryOptions(noLib, [](void*, const char*) -> void* { return nullptr; }, noClose));
                    fake->removeLibrary("x.so");
                });
                o("scopes", [this] { FakeJni::LocalFrame f(*fake, 3); FakeJni::LocalFrame g; f.getJniEnv().NewStringUTF("s"); });
                o("scopes of another thread", [this] { peer().run([&] { FakeJni::LocalFrame f(*fake, 3); FakeJni::LocalFrame g; local(&f.getJniEnv(), std::make_shared<Tr>()); g.getJniEnv().NewStringUTF("s"); }); });
                o("classes", [this] { fake->getClasses(); fake->findClass("p/Tr"); fake->findClass("none/Such"); });
            }
        }
    };
    std::unique_ptr<Balanced> b;
    constexpr int MAXOPS = 60;
    void measure(const std::vector<int>& seq, int rounds) {
        auto round = [&] {
            b->env->PushLocalFrame(0);
            for(int k : seq) { b->ops[k].second(); mc::transition(); }
            b->env->PopLocalFrame(nullptr);
        };
        std::string names;
        for(int k : seq) names += (names.empty() ? "" : ", ") + b->ops[k].first;
        for(int i = 0; i < 3; ++i) round();
        // A container may reach its final capacity late: only what never ends is an accumulation
        for(int attempt = 0; ; ++attempt) {
            long blocks = mc::liveBlocks(), bytes = mc::liveBytes();
            int alive = Count::alive;
            size_t globals = b->vm->globals.size(), classes = b->vm->classes.size();
            for(int i = 0; i < rounds << attempt; ++i) round();
            MC_CHECK(Count::alive == alive, "objects", "%d rounds of (%s) leave %d objects", rounds << attempt, names.data(), Count::alive - alive);
            MC_CHECK(b->vm->globals.size() == globals && b->vm->classes.size() == classes, "registry", "%d rounds of (%s) leave references or classes", rounds << attempt, names.data());
            if(!mc::countsMemory() || (mc::liveBlocks() == blocks && mc::liveBytes() == bytes)) break;
            MC_CHECK(attempt < 3, "memory", "%d rounds of (%s) leave %ld blocks of %ld bytes", rounds << attempt, names.data(), mc::liveBlocks() - blocks, mc::liveBytes() - bytes);
        }
    }
    void balanced(int kind) {
        (void)peer();
        int n = mc::bound(kind == 0 || kind == 3 ? 2 : 1, 1, 3, 2);
        b.reset(new Balanced(kind));
        struct End { ~End() { b.reset(); } } end;
        int k = (int)b->ops.size();
        std::vector<int> seq;
        for(int i = 0; i < n; ++i) { seq.push_back(choose(k)); mc::log("%s", b->ops[seq.back()].first.data()); }
        for(int g = 0; g < n; ++g) if(b->ops[seq[g]].first == "generating" && n > 1) { measure({seq[g]}, 3); return; }
        measure(seq, 5);
        std::string s = "b" + std::to_string(kind);
        for(int k : seq) s += "," + std::to_string(k);
        mc::state(s);
    }
    static int init = [] {
        mc::scenario("plain", [] { histories(0); });
        mc::scenario("strict", [] { histories(1); });
        mc::scenario("fake-jni", [] { histories(2); });
        mc::scenario("baron", [] { histories(3); });
        mc::scenario("repeated", repeated);
        mc::scenario("balanced plain", [] { balanced(0); }, 1);
        mc::scenario("balanced strict", [] { balanced(1); }, 1);
        mc::scenario("balanced fake-jni", [] { balanced(2); }, 1);
        mc::scenario("balanced baron", [] { balanced(3); }, 1);
        return 0;
    }();
}
