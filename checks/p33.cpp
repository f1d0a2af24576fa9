// P33: virtual machines in one process do not influence each other
#include "../mc/jtypes.hpp"
using namespace jh;

namespace {
    struct X : Tracked<> { jint x = 0; };
    struct Y : Tracked<Extends<X>> {};
    struct Machine {
        int no, gen;
        bool strict;
        std::shared_ptr<void> vm;
        JavaVM* j;
        JNIEnv* env;
        // The model
        std::string xname, yname;
        int f = -1, g = -1, nat = -1;   // What the hooks and natives return
        int stat = 0;
        bool prop = false, declared = false, pending = false;
        int frames = 0, held = 0;
        jobject global = nullptr;
        int globalId = -1;
        std::string base(const char* n) { return std::string(1, (char)('a' + no)) + "/" + n; }
        Machine(int no, int gen, bool strict) : no(no), gen(gen), strict(strict) {
            auto v = strict ? std::make_shared<VM>(false, true) : std::make_shared<VM>();
            j = v->GetJavaVM();
            vm = v;
            j->GetEnv((void**)&env, JNI_VERSION_1_6);
        }
        ~Machine() {
            if(global) env->DeleteGlobalRef(global);
            j->DetachCurrentThread();
        }
        ENV* e() { return E(env); }
        jclass jc(const std::string& n) { auto c = env->FindClass(n.data()); if(!pending) env->ExceptionClear(); return c; }
    };
    int natResult[2];
    jint nat0(JNIEnv*, jobject) { return natResult[0]; }
    jint nat1(JNIEnv*, jobject) { return natResult[1]; }
    jint statics[2];

    // Everything observable through this VM's environment
    void observe(Machine& m, const Machine* other) {
        auto env = m.env;
        JavaVM* j = nullptr;
        MC_CHECK(!env->GetJavaVM(&j) && j == m.j, "vm", "VM %d: the environment belongs to another VM", m.no);
        JNIEnv* e2 = nullptr;
        MC_CHECK(!m.j->GetEnv((void**)&e2, JNI_VERSION_1_6) && e2 == env, "environment", "VM %d: another environment", m.no);
        MC_CHECK((bool)env->ExceptionCheck() == m.pending, "exception", "VM %d: an exception is %s", m.no, m.pending ? "lost" : "pending");
        env->PushLocalFrame(0);
        if(m.pending) {
            auto t = unwrap<Throwable>(env, env->ExceptionOccurred());
            MC_CHECK(t && t->except, "exception", "VM %d: no exception", m.no);
            try { std::rethrow_exception(t->except); } catch(const std::exception& x) { MC_CHECK(x.what() == "VM " + std::to_string(m.no), "exception", "VM %d has '%s'", m.no, x.what()); }
        }
        // Names of the other VM
        if(m.strict && other) for(auto& n : {other->xname, other->yname}) if(!n.empty() && n != m.xname && n != m.yname) MC_CHECK(!m.jc(n), "names", "VM %d knows %s of the other", m.no, n.data());
        auto cls = [&](jobject o) { auto c = unwrap<Class>(env, env->GetObjectClass(o)); return c ? c->nativeprefix : std::string("?"); };
        if(!m.xname.empty()) {
            auto c = m.jc(m.xname);
            MC_CHECK(c, "names", "VM %d lost %s", m.no, m.xname.data());
            auto o = std::make_shared<X>();
            o->x = 5 + m.no;
            auto r = local(env, o);
            MC_CHECK(cls(r) == m.xname && env->IsSameObject(env->GetObjectClass(r), c), "class", "VM %d: an X is a %s", m.no, cls(r).data());
            auto a = env->NewObjectArray(2, c, nullptr);
            MC_CHECK(cls(a) == "[L" + m.xname + ";", "class", "VM %d: an array of X is a %s", m.no, cls(a).data());
            auto sig = JNITypes<std::shared_ptr<X>>::GetJNISignature(m.e());
            MC_CHECK(sig == "L" + m.xname + ";", "signature", "VM %d: X is %s", m.no, sig.data());
            auto asig = JNITypes<std::shared_ptr<jnivm::Array<X>>>::GetJNISignature(m.e());
            MC_CHECK(asig == "[L" + m.xname + ";", "signature", "VM %d: an array of X is %s", m.no, asig.data());
            auto kc = JNITypes<std::shared_ptr<X>>::GetClass(m.e());
            MC_CHECK(kc && kc == unwrap<Class>(env, c), "class", "VM %d: the class of X is another", m.no);
            auto find = [&](bool st, const char* n, const char* s) {
                int k = 0;
                for(auto& x : kc->methods) k += x->_static == st && x->name == n && x->signature == s;
                return k;
            };
            auto call = [&](const char* n, int want, bool st) {
                int k = find(st, n, "()I");
                MC_CHECK(k == (want >= 0), "members", "VM %d: %s is declared %d times", m.no, n, k);
                if(want < 0) return;
                auto id = st ? env->GetStaticMethodID(c, n, "()I") : env->GetMethodID(c, n, "()I");
                jint v = st ? env->CallStaticIntMethod(c, id) : env->CallIntMethod(r, id);
                MC_CHECK(v == want, "call", "VM %d: %s gave %d instead of %d", m.no, n, v, want);
            };
            call("f", m.f, true);
            call("g", m.g, false);
            int take = 0;
            for(auto& x : kc->methods) if(x->name == "take") { take++; MC_CHECK(x->signature == "(L" + m.xname + ";)L" + m.xname + ";", "signature", "VM %d: take is %s", m.no, x->signature.data()); }
            MC_CHECK(take == (m.g >= 0), "members", "VM %d: take is declared %d times", m.no, take);
            if(m.nat >= 0) {
                auto p = kc->natives.find("nat");
                MC_CHECK(p != kc->natives.end() && p->second == (m.nat ? (void*)nat1 : (void*)nat0), "native", "VM %d has another native", m.no);
            } else MC_CHECK(kc->natives.empty(), "native", "VM %d has natives nobody registered", m.no);
            int fs = 0;
            for(auto& x : kc->fields) fs += 1;
            MC_CHECK(fs == (m.prop ? 2 : 0), "members", "VM %d has %d fields", m.no, fs);
            if(m.prop) {
                MC_CHECK(env->GetIntField(r, env->GetFieldID(c, "x", "I")) == 5 + m.no, "field", "VM %d: another value", m.no);
                MC_CHECK(env->GetStaticIntField(c, env->GetStaticFieldID(c, "s", "I")) == m.stat, "field", "VM %d: another static value", m.no);
            }
            MC_CHECK(find(false, "looked", "()V") == m.declared, "members", "VM %d: a looked up method is declared %d times", m.no, find(false, "looked", "()V"));
            if(!m.yname.empty()) {
                auto cy = m.jc(m.yname);
                auto oy = local(env, std::make_shared<Y>());
                MC_CHECK(cy && cls(oy) == m.yname && env->IsInstanceOf(oy, c) && env->IsAssignableFrom(cy, c) && !env->IsAssignableFrom(c, cy), "class", "VM %d: Y is no X", m.no);
                MC_CHECK(env->IsSameObject(env->GetSuperclass(cy), c), "class", "VM %d: another superclass", m.no);
            }
        } else {
            MC_CHECK(!JNITypes<std::shared_ptr<X>>::GetClass(m.e()), "class", "VM %d knows X, which nobody registered", m.no);
        }
        if(m.global) {
            auto o = unwrap<Object>(env, m.global);
            auto t = std::dynamic_pointer_cast<String>(o);
            MC_CHECK(t && *t == std::to_string(m.globalId), "reference", "VM %d: a global reference is another object", m.no);
        }
        env->PopLocalFrame(nullptr);
        size_t n = 0, h = 0;
        for(auto& f : m.e()->localframe) { n++; h += f.size(); }
        MC_CHECK((int)n == m.frames + 1 && (int)h == m.held, "references", "VM %d: %zu frames, %zu references instead of %d, %d", m.no, n, h, m.frames + 1, m.held);
        mc::transition();
    }
    void history() {
        static const int DEPTH = mc::bound(5, 4, 6, 5);
        int strictness = 1 + choose(mc::bound(2, 2, 3, 3)) % 3;
        X::alive() = Y::alive() = 0;
        std::unique_ptr<Machine> m[2];
        int gen = 0;
        for(int i = 0; i < 2; ++i) m[i].reset(new Machine(i, gen++, strictness == 3 || (strictness == 1 && i == 1)));
        int counter = 0;
        std::vector<int> stack[2];
        for(int step = 0; step < DEPTH; ++step) {
            int who = step == 0 ? 0 : choose(2);        // The VMs are symmetric up to their strictness
            auto& v = *m[who];
            auto env = v.env;
            int op = choose(12);
            if(op == 11) break;
            log("VM %d op %d", who, op);
            counter++;
            auto kc = JNITypes<std::shared_ptr<X>>::GetClass(v.e());
            bool skip = false;
            switch(op) {
            case 0: {
                if(!v.xname.empty()) { skip = true; break; }
                // The same name as in the other VM or its own
                v.xname = choose(2) ? "p/X" : v.base("X");
                v.e()->GetClass<X>(v.xname.data());
                break;
            }
            case 1:
                if(v.xname.empty() || !v.yname.empty()) { skip = true; break; }
                v.yname = choose(2) ? "p/Y" : v.base("Y");
                v.e()->GetClass<Y>(v.yname.data());
                break;
            case 2: {
                if(!kc) { skip = true; break; }
                int r = v.f = 1000 * who + counter;
                kc->Hook(v.e(), "f", [r]() -> jint { return r; });
                break;
            }
            case 3: {
                if(!kc || v.prop) { skip = true; break; }
                kc->HookInstance(v.e(), "x", &X::x);
                kc->HookGetterFunction(v.e(), "s", [who]() -> jint { return statics[who]; });
                v.prop = true;
                v.stat = statics[who] = counter + 50;
                break;
            }
            case 4:
                if(!kc || v.strict || v.declared) { skip = true; break; }
                env->GetMethodID((jclass)(Object*)kc.get(), "looked", "()V");
                v.declared = true;
                break;
            case 5: {
                if(!kc) { skip = true; break; }
                v.nat = choose(2);
                JNINativeMethod n = { (char*)"nat", (char*)"()I", v.nat ? (void*)nat1 : (void*)nat0 };
                env->RegisterNatives((jclass)(Object*)kc.get(), &n, 1);
                break;
            }
            case 6: {
                if(!kc) { skip = true; break; }
                int r = v.g = 2000 + 1000 * who + counter;
                kc->HookInstanceFunction(v.e(), "g", [r](X* self) -> jint { return r; });
                kc->Hook(v.e(), "take", [](std::shared_ptr<X> x) { return x; });
                // The function is also callable with the object as parameter
                break;
            }
            case 7:
                if(v.pending) { env->ExceptionClear(); v.pending = false; }
                else {
                    env->PushLocalFrame(0);
                    env->ThrowNew(env->FindClass("java/lang/Throwable"), ("VM " + std::to_string(who)).data());
                    env->PopLocalFrame(nullptr);
                    v.pending = true;
                }
                break;
            case 8:
                if(v.frames) {
                    env->PopLocalFrame(nullptr);
                    v.frames--;
                    v.held = stack[who].back();
                    stack[who].pop_back();
                } else {
                    stack[who].push_back(v.held);
                    env->PushLocalFrame(0);
                    v.frames++;
                    env->NewStringUTF("x");
                    v.held++;
                }
                break;
            case 9:
                if(v.global) { env->DeleteGlobalRef(v.global); v.global = nullptr; }
                else {
                    env->PushLocalFrame(0);
                    v.global = env->NewGlobalRef(env->NewStringUTF(std::to_string(counter).data()));
                    v.globalId = counter;
                    env->PopLocalFrame(nullptr);
                }
                break;
            case 10: {
                bool s = v.strict;
                m[who].reset();
                stack[who].clear();
                if(m[1 - who]) observe(*m[1 - who], nullptr);
                m[who].reset(new Machine(who, gen++, s));
                break;
            }
            }
            if(skip) break;
            for(int i = 0; i < 2; ++i) observe(*m[(who + i) % 2], m[1 - (who + i) % 2].get());
        }
        // In both orders
        int first = choose(2);
        m[first].reset();
        observe(*m[1 - first], nullptr);
        m[1 - first].reset();
        MC_CHECK(X::alive() == 0 && Y::alive() == 0, "lifetime", "%d objects are left", X::alive() + Y::alive());
    }
    // fake-jni machines: one at a time per thread, or one per thread
    void fake() {
        static const int DEPTH = mc::bound(3, 2, 4, 3);
        int kinds[2] = { choose(3), choose(3) };
        auto make = [](int kind) { return kind == 0 ? std::make_shared<FakeJni::Jvm>() : kind == 1 ? std::make_shared<FakeJni::Jvm>(false, false) : std::make_shared<Baron::Jvm>(); };
        Peer peer[2];
        struct F { std::shared_ptr<FakeJni::Jvm> vm; std::string name; int f = -1; } m[2];
        auto run = [&](int i, std::function<void(JNIEnv*)> f) { peer[i].run([&] {
            JNIEnv* env = nullptr;
            static_cast<JavaVM*>(m[i].vm.get())->GetEnv((void**)&env, JNI_VERSION_1_6);
            MC_CHECK(env && FakeJni::JniEnv::getCurrentEnv() && E(env) == static_cast<ENV*>(FakeJni::JniEnv::getCurrentEnv()), "environment", "another environment");
            f(env);
        }); };
        for(int i = 0; i < 2; ++i) peer[i].run([&] { m[i].vm = make(kinds[i]); });
        int counter = 0;
        for(int step = 0; step < DEPTH; ++step) {
            int who = choose(2), op = choose(6);
            if(op == 5) break;
            auto& v = m[who];
            counter++;
            log("VM %d op %d", who, op);
            if(op == 0) {
                if(!v.name.empty()) break;
                v.name = choose(2) ? "p/X" : who ? "b/X" : "a/X";
                run(who, [&](JNIEnv* env) { E(env)->GetClass<X>(v.name.data()); });
            } else if(op == 1) {
                if(v.name.empty()) break;
                int r = v.f = counter + 100 * who;
                run(who, [&](JNIEnv* env) { JNITypes<std::shared_ptr<X>>::GetClass(E(env))->Hook(E(env), "f", [r]() -> jint { return r; }); });
            } else if(op == 2) {
                peer[who].run([&] { static_cast<JavaVM*>(v.vm.get())->DetachCurrentThread(); MC_CHECK(!FakeJni::JniEnv::getCurrentEnv(), "environment", "still attached"); });
            } else if(op == 3) {
                peer[who].run([&] { static_cast<JavaVM*>(v.vm.get())->DetachCurrentThread(); v = F {}; v.vm = make(kinds[who]); });
            } else {
                int r = v.f = counter + 500;
                run(who, [&](JNIEnv* env) { FakeJni::createMainMethod(*v.vm, [who, r](std::shared_ptr<FakeJni::JArray<FakeJni::JString>>) { natResult[who] = r; }); });
                v.f = -2;
                int other = natResult[1 - who];
                run(who, [&](JNIEnv*) { v.vm->start(); });
                MC_CHECK(natResult[who] == r && natResult[1 - who] == other, "main", "main of another VM ran");
                v.f = -1;
                if(!v.name.empty()) { auto n = v.name; r = v.f = counter + 100 * who; run(who, [&](JNIEnv* env) { JNITypes<std::shared_ptr<X>>::GetClass(E(env))->Hook(E(env), "f", [r]() -> jint { return r; }); }); }
            }
            for(int i = 0; i < 2; ++i) run(i, [&](JNIEnv* env) {
                auto& v = m[i];
                auto c = JNITypes<std::shared_ptr<X>>::GetClass(E(env));
                MC_CHECK((bool)c == !v.name.empty() && (!c || c->nativeprefix == v.name), "class", "VM %d: X is %s", i, c ? c->nativeprefix.data() : "unknown");
                MC_CHECK(FakeJni::JniEnvContext().getJniEnv().getVM().findClass("java/lang/Object") == v.vm->findClass("java/lang/Object"), "vm", "the environment belongs to another VM");
                if(!c) return;
                env->PushLocalFrame(0);
                auto o = local(env, std::make_shared<X>());
                MC_CHECK(unwrap<Class>(env, env->GetObjectClass(o)) == c, "class", "VM %d: an X has another class", i);
                int k = 0;
                for(auto& x : c->methods) k += x->name == "f";
                MC_CHECK(k == (v.f >= 0), "members", "VM %d: f is declared %d times", i, k);
                if(v.f >= 0) MC_CHECK(env->CallStaticIntMethod((jclass)(Object*)c.get(), env->GetStaticMethodID((jclass)(Object*)c.get(), "f", "()I")) == v.f, "call", "VM %d: another function", i);
                env->PopLocalFrame(nullptr);
                mc::transition();
            });
        }
        for(int i = 0; i < 2; ++i) peer[i].run([&] { static_cast<JavaVM*>(m[i].vm.get())->DetachCurrentThread(); m[i].vm.reset(); });
    }
    int init = [] {
        mc::scenario("history", history, 3);
        mc::scenario("fake", fake, 3);
        return 0;
    }();
}
