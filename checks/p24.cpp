// P24: concurrent calls do not interfere
#include "../mc/sched/conc.hpp"
using namespace ch;

namespace {
    struct Base : Tracked<> {
        jint value = 0;
        jlong prop = 0;
        std::shared_ptr<String> text;
    };
    struct Derived : Extends<Base> {};
    struct Other : Extends<> {};
    struct Lazy : Extends<> {};
    jint statics[4];
    std::shared_ptr<Lazy> shared;

    enum { SCALL, VCALL, NVCALL, CTOR, THROWS, THROWNEW, NESTED, FIELD, SFIELD, UFIELD, REGION, ELEMENTS, OARRAY, STRING, SHAREDSTRING, NATIVE, SAMENATIVE, HOOKINVOKE, UNDECLARED, DEFAULT, CLASSES, FIRST, REFLECT, BUFFER, OBJARG, OPS, UNREGISTER = OPS, REGISTER, FINDNATIVE, RLOOKUP, ROPS };
    const char* opname[] = { "static call", "virtual call", "non-virtual call", "constructor", "call of a throwing method", "ThrowNew", "method that calls others", "instance fields", "static fields", "undeclared fields",
        "array region", "array elements", "object array", "string", "shared string", "registers a native and invokes it", "registers the same native", "invocation from C++", "undeclared method", "default object", "subtype queries", "the same object handed out first",
        "reflection", "direct buffer", "object arguments", "UnregisterNatives", "RegisterNatives", "looks up natives", "looks up methods" };

    jint nativeA(JNIEnv*, jobject, jint x) { return x + 100; }
    jint nativeB(JNIEnv*, jobject, jint x) { return x + 200; }
    jint nativeC(JNIEnv*, jobject, jint x) { return x + 300; }
    void* natives[] = { nullptr, (void*)nativeA, (void*)nativeB, (void*)nativeC };
    const char* nativename[] = { "", "na", "nb", "nc" };

    struct World {
        std::unique_ptr<FakeJni::Jvm> vm;
        JavaVM* jvm;
        std::shared_ptr<Class> base, derived;
        jclass B, D, O;
        jmethodID s, v, vd, init, thr, nest, give, take, dflt;
        jfieldID value, prop, text, stat[4];
        jobject ints, objs, str;
        World() : vm(new FakeJni::Jvm(false, false)), jvm(static_cast<JavaVM*>(vm.get())) {
            JNIEnv* env = nullptr;
            jvm->GetEnv((void**)&env, JNI_VERSION_1_6);
            auto e = E(env);
            base = e->GetClass<Base>("x/Base");
            derived = e->GetClass<Derived>("x/Derived");
            O = (jclass)e->GetClass<Other>("x/Other").get();
            e->GetClass<Lazy>("x/Lazy");
            B = (jclass)base.get();
            D = (jclass)derived.get();
            base->Hook(e, "s", [](Class*, jint a, jlong b) -> jlong { return a * 1000 + b; });
            base->HookInstanceFunction(e, "v", [](Base* self, jint x) -> jint { return self->value * 10 + x; });
            derived->HookInstanceFunction(e, "v", [](Derived* self, jint x) -> jint { return -(self->value * 10 + x); });
            base->Hook(e, "<init>", [](jint x) { auto o = std::make_shared<Base>(); o->value = x; return o; });
            base->Hook(e, "thr", [](Class*, jint x) -> jint { throw std::runtime_error("thrown " + std::to_string(x)); });
            base->Hook(e, "nest", [](ENV* env, Class* c, jint x) -> jint {
                auto j = env->GetJNIEnv();
                auto m = j->GetStaticMethodID((jclass)(Object*)c, "thr", "(I)I");
                j->CallStaticIntMethod((jclass)(Object*)c, m, x);
                bool t = j->ExceptionCheck();
                j->ExceptionClear();
                return t ? x + 7 : -1;
            });
            base->Hook(e, "give", []() { return shared; });
            base->Hook(e, "take", [](Class*, std::shared_ptr<Base> a, std::shared_ptr<String> b, jint c) -> jint { return a && b && *b == std::to_string(c) ? a->value + c : -1; });
            base->Hook(e, "value", &Base::value);
            base->HookInstanceGetterFunction(e, "prop", [](Base* b) -> jlong { return b->prop; });
            base->HookInstanceSetterFunction(e, "prop", [](Base* b, jlong x) -> void { b->prop = x; });
            base->Hook(e, "text", &Base::text);
            for(int i = 0; i < 4; ++i) { statics[i] = 0; base->Hook(e, "stat" + std::to_string(i), &statics[i]); stat[i] = env->GetStaticFieldID(B, ("stat" + std::to_string(i)).data(), "I"); }
            s = env->GetStaticMethodID(B, "s", "(IJ)J");
            v = env->GetMethodID(B, "v", "(I)I");
            vd = env->GetMethodID(D, "v", "(I)I");
            init = env->GetMethodID(B, "<init>", "(I)V");
            thr = env->GetStaticMethodID(B, "thr", "(I)I");
            nest = env->GetStaticMethodID(B, "nest", "(I)I");
            give = env->GetStaticMethodID(B, "give", "()Lx/Lazy;");
            take = env->GetStaticMethodID(B, "take", "(Lx/Base;Ljava/lang/String;I)I");
            dflt = env->GetStaticMethodID(B, "dflt", "()Ly/Default;");
            value = env->GetFieldID(B, "value", "I");
            prop = env->GetFieldID(B, "prop", "J");
            text = env->GetFieldID(B, "text", "Ljava/lang/String;");
            SCHED_CHECK(s && v && vd && init && thr && nest && give && take && value && prop && text && stat[3], "setup", "a member was not found");
            ints = env->NewGlobalRef(env->NewIntArray(8));
            objs = env->NewGlobalRef(env->NewObjectArray(4, env->FindClass("java/lang/String"), nullptr));
            str = env->NewGlobalRef(env->NewStringUTF("shared \xc3\xa4"));
            // Natives that stay
            JNINativeMethod n = { (char*)"stays", (char*)"(I)I", (void*)nativeA };
            env->RegisterNatives(D, &n, 1);
            shared = std::make_shared<Lazy>();
        }
        ~World() { shared.reset(); jvm->DetachCurrentThread(); }
    };
    struct Thread {
        World& w;
        JNIEnv* env;
        int no;
        int seq = 0;
        std::shared_ptr<Base> b = std::make_shared<Base>();
        std::shared_ptr<Derived> d = std::make_shared<Derived>();
        Thread(World& w, JNIEnv* env, int no) : w(w), env(env), no(no) {
            b->value = 3 + no;
            d->value = 30 + no;
            // The first reference decides about the class of an object
            sched::Quiet q;
            local(env, b);
            local(env, d);
        }
        void want(jlong got, jlong want, const char* what) { SCHED_CHECK(got == want, "result", "%s gave %lld instead of %lld on thread %d", what, (long long)got, (long long)want, no); }
        void message(const std::string& m) {
            SCHED_CHECK(env->ExceptionCheck(), "exception", "no exception is pending on the thread that raised one");
            auto t = env->ExceptionOccurred();
            env->ExceptionClear();
            SCHED_CHECK(t, "exception", "there is no pending exception");
            auto x = unwrap<Throwable>(env, t);
            std::string got;
            try { std::rethrow_exception(x->except); } catch(const std::exception& e) { got = e.what(); } catch(...) { got = "something else"; }
            SCHED_CHECK(got == m, "exception", "the pending exception is \"%s\" instead of \"%s\"", got.data(), m.data());
            env->DeleteLocalRef(t);
        }
        void run(int op) {
            int k = no * 100 + ++seq;
            jvalue a[3];
            switch(op) {
            case SCALL:
                want(env->CallStaticLongMethod(w.B, w.s, (jint)k, (jlong)no), k * 1000 + no, "a static call");
                a[0].i = -k; a[1].j = k;
                want(env->CallStaticLongMethodA(w.B, w.s, a), -k * 1000 + k, "a static call");
                break;
            case VCALL: {
                auto jb = local(env, b), jd = local(env, d);
                want(env->CallIntMethod(jb, w.v, (jint)k), b->value * 10 + k, "a virtual call");
                want(env->CallIntMethod(jd, w.v, (jint)k), -(d->value * 10 + k), "an overridden virtual call");
                break;
            }
            case NVCALL: {
                auto jd = local(env, d);
                want(env->CallNonvirtualIntMethod(jd, w.D, w.vd, (jint)k), -(d->value * 10 + k), "a non-virtual call");
                want(env->CallNonvirtualIntMethod(jd, w.B, w.v, (jint)k), d->value * 10 + k, "a non-virtual call of the base class");
                break;
            }
            case CTOR: {
                auto o = env->NewObject(w.B, w.init, (jint)k);
                SCHED_CHECK(o, "object", "no object was made");
                want(env->GetIntField(o, w.value), k, "the field of a new object");
                SCHED_CHECK(unwrap<Class>(env, env->GetObjectClass(o)) == w.base, "class", "wrong class of a new object");
                break;
            }
            case THROWS:
                env->CallStaticIntMethod(w.B, w.thr, (jint)k);
                message("thrown " + std::to_string(k));
                break;
            case THROWNEW: {
                auto m = "new " + std::to_string(k);
                want(env->ThrowNew(env->FindClass("java/lang/Throwable"), m.data()), 0, "ThrowNew");
                message(m);
                break;
            }
            case NESTED: want(env->CallStaticIntMethod(w.B, w.nest, (jint)k), k + 7, "a method that calls others"); break;
            case FIELD: {
                auto jb = local(env, b);
                jint old = b->value;
                env->SetIntField(jb, w.value, k);
                want(env->GetIntField(jb, w.value), k, "an instance field");
                env->SetIntField(jb, w.value, old);
                env->SetLongField(jb, w.prop, k);
                want(env->GetLongField(jb, w.prop), k, "an instance property");
                auto s = std::to_string(k);
                env->SetObjectField(jb, w.text, env->NewStringUTF(s.data()));
                auto t = (jstring)env->GetObjectField(jb, w.text);
                SCHED_CHECK(t && *unwrap<String>(env, t) == s, "result", "wrong string in an object field");
                break;
            }
            case SFIELD:
                env->SetStaticIntField(w.B, w.stat[no], k);
                want(env->GetStaticIntField(w.B, w.stat[no]), k, "a static field");
                want(env->GetStaticIntField(w.B, w.stat[0]), 0, "another static field");
                break;
            case UFIELD: {
                auto f = env->GetFieldID(w.B, "undeclared", "I");
                auto jb = local(env, b);
                want(env->GetIntField(jb, f), 0, "an undeclared field");
                env->SetIntField(jb, f, k);
                break;
            }
            case REGION: {
                jint x[2] = { k, -k }, y[2];
                env->SetIntArrayRegion((jintArray)w.ints, no * 2, 2, x);
                env->GetIntArrayRegion((jintArray)w.ints, no * 2, 2, y);
                want(y[0], k, "an array element");
                want(y[1], -k, "an array element");
                break;
            }
            case ELEMENTS: {
                auto a = env->NewLongArray(3);
                jboolean copy;
                auto p = env->GetLongArrayElements(a, &copy);
                p[1] = k;
                env->ReleaseLongArrayElements(a, p, 0);
                auto q = (jlong*)env->GetPrimitiveArrayCritical(a, nullptr);
                want(q[1], k, "an array element");
                want(q[0], 0, "an array element");
                env->ReleasePrimitiveArrayCritical(a, q, 0);
                want(env->GetArrayLength(a), 3, "the length of an array");
                break;
            }
            case OARRAY: {
                auto s = env->NewStringUTF(std::to_string(k).data());
                env->SetObjectArrayElement((jobjectArray)w.objs, no, s);
                auto t = env->GetObjectArrayElement((jobjectArray)w.objs, no);
                SCHED_CHECK(env->IsSameObject(s, t), "result", "wrong element of an object array");
                SCHED_CHECK(!env->GetObjectArrayElement((jobjectArray)w.objs, 0), "result", "another element of an object array is not null");
                break;
            }
            case STRING: {
                auto m = "text " + std::to_string(k);
                auto s = env->NewStringUTF(m.data());
                jboolean copy;
                auto c = env->GetStringUTFChars(s, &copy);
                SCHED_CHECK(c == m, "result", "wrong characters");
                env->ReleaseStringUTFChars(s, c);
                auto u = env->GetStringChars(s, &copy);
                want(u[5], m[5], "a character");
                env->ReleaseStringChars(s, u);
                jchar buf[2];
                env->GetStringRegion(s, 4, 2, buf);
                want(buf[1], m[5], "a character of a region");
                break;
            }
            case SHAREDSTRING: {
                auto s = (jstring)w.str;
                want(env->GetStringLength(s), 8, "the length of a string");
                want(env->GetStringUTFLength(s), 9, "the length of a string in bytes");
                auto c = env->GetStringUTFChars(s, nullptr);
                SCHED_CHECK(!strcmp(c, "shared \xc3\xa4"), "result", "wrong characters");
                auto u = env->GetStringCritical(s, nullptr);
                want(u[7], 0xe4, "a character");
                env->ReleaseStringCritical(s, u);
                env->ReleaseStringUTFChars(s, c);
                break;
            }
            case NATIVE: {
                JNINativeMethod n[2] = { { (char*)nativename[no], (char*)"(I)I", natives[no] }, { (char*)nativename[no], (char*)"(II)I", natives[no] } };
                want(env->RegisterNatives(w.B, n, 2), 0, "RegisterNatives");
                auto m = w.base->getMethod("(I)I", nativename[no]);
                SCHED_CHECK(m, "native", "a registered native is not found");
                want(m->invoke(*env, w.base.get(), (jint)k).i, k + no * 100, "a native");
                break;
            }
            case SAMENATIVE: {
                JNINativeMethod n = { (char*)"same", (char*)"(I)I", natives[no] };
                want(env->RegisterNatives(w.D, &n, 1), 0, "RegisterNatives");
                auto m = w.derived->getMethod("(I)I", "stays");
                SCHED_CHECK(m, "native", "a registered native is not found");
                want(m->invoke(*env, d.get(), (jint)k).i, k + 100, "a native");
                break;
            }
            case HOOKINVOKE: {
                auto m = w.base->getMethod("(I)I", "v");
                SCHED_CHECK(m, "method", "a method is not found");
                want(m->invoke(*env, b.get(), (jint)k).i, b->value * 10 + k, "a call from C++");
                auto s = w.base->getMethod("(I)I", "thr");
                bool threw = false;
                std::string what;
                try { s->invoke(*env, w.base.get(), (jint)k); } catch(const std::exception& e) { threw = true; what = e.what(); }
                SCHED_CHECK(threw && what == "thrown " + std::to_string(k), "exception", "a call from C++ %s %s", threw ? "raised" : "raised nothing", what.data());
                env->ExceptionClear();
                break;
            }
            case UNDECLARED: {
                auto m = env->GetStaticMethodID(w.B, "undeclared", "(I)I");
                SCHED_CHECK(m, "method", "no id");
                want(env->CallStaticIntMethod(w.B, m, (jint)k), 0, "an undeclared method");
                break;
            }
            case DEFAULT: {
                auto o = env->CallStaticObjectMethod(w.B, w.dflt);
                SCHED_CHECK(o, "default", "no default object");
                auto c = env->GetObjectClass(o);
                SCHED_CHECK(c && unwrap<Class>(env, c)->nativeprefix == "y/Default", "default", "wrong class of a default object");
                SCHED_CHECK(env->IsSameObject(c, env->FindClass("y/Default")), "default", "two classes of the same name");
                break;
            }
            case CLASSES: {
                auto jd = local(env, std::make_shared<Derived>());
                SCHED_CHECK(env->IsInstanceOf(jd, w.B) && env->IsInstanceOf(jd, w.D) && !env->IsInstanceOf(jd, w.O), "subtype", "wrong IsInstanceOf");
                SCHED_CHECK(env->IsAssignableFrom(w.D, w.B) && !env->IsAssignableFrom(w.B, w.D), "subtype", "wrong IsAssignableFrom");
                SCHED_CHECK(env->IsSameObject(env->GetSuperclass(w.D), w.B), "subtype", "wrong GetSuperclass");
                break;
            }
            case FIRST: {
                auto o = env->CallStaticObjectMethod(w.B, w.give);
                SCHED_CHECK(o && unwrap<Object>(env, o) == std::shared_ptr<Object>(shared, shared.get()), "object", "another object");
                auto c = env->GetObjectClass(o);
                SCHED_CHECK(env->IsSameObject(c, env->FindClass("x/Lazy")), "class", "wrong class of an object handed out by several threads");
                break;
            }
            case REFLECT: {
                auto o = env->ToReflectedMethod(w.B, w.v, false);
                SCHED_CHECK(o && env->FromReflectedMethod(o) == w.v, "reflection", "another method comes back");
                auto f = env->ToReflectedField(w.B, w.value, false);
                SCHED_CHECK(f && env->FromReflectedField(f) == w.value, "reflection", "another field comes back");
                SCHED_CHECK(env->IsSameObject(env->GetObjectClass(o), env->FindClass("java/lang/reflect/Method")), "reflection", "wrong class of a method");
                break;
            }
            case BUFFER: {
                char bytes[4] = { (char)k, 1, 2, 3 };
                auto o = env->NewDirectByteBuffer(bytes, 4);
                SCHED_CHECK(o && env->GetDirectBufferAddress(o) == bytes && env->GetDirectBufferCapacity(o) == 4, "buffer", "wrong direct buffer");
                break;
            }
            case OBJARG: {
                auto jb = local(env, b);
                auto s = env->NewStringUTF(std::to_string(k).data());
                want(env->CallStaticIntMethod(w.B, w.take, jb, s, (jint)k), b->value + k, "a call with objects");
                a[0].l = jb; a[1].l = s; a[2].i = k;
                want(env->CallStaticIntMethodA(w.B, w.take, a), b->value + k, "a call with objects");
                break;
            }
            // Registration against lookups
            case UNREGISTER: want(env->UnregisterNatives(w.B), 0, "UnregisterNatives"); break;
            case REGISTER: {
                JNINativeMethod n[2] = { { (char*)"r1", (char*)"(I)I", natives[no] }, { (char*)"r2", (char*)"(I)I", natives[no] } };
                want(env->RegisterNatives(w.B, n, 2), 0, "RegisterNatives");
                break;
            }
            case FINDNATIVE: {
                auto m = w.base->getMethod("(I)I", "r1");
                auto m2 = w.base->getMethod("(I)I", "r2");
                (void)m; (void)m2;
                SCHED_CHECK(w.base->getMethod("(I)I", "v") , "method", "a method is not found while natives change");
                break;
            }
            case RLOOKUP:
                SCHED_CHECK(env->GetMethodID(w.B, "v", "(I)I") == w.v, "id", "another id of a method");
                SCHED_CHECK(env->GetMethodID(w.B, "fresh", "(I)I"), "id", "no id");
                SCHED_CHECK(env->GetMethodID(w.D, "v", "(I)I") == w.vd, "id", "another id of a method");
                break;
            }
            SCHED_CHECK(!env->ExceptionCheck(), "exception", "an exception of another thread is pending");
        }
    };
    typedef std::vector<int> Prog;
    void check(const std::vector<Prog>& progs) {
        {
            World w;
            std::vector<std::function<void()>> bodies;
            bool unreg = false;
            for(size_t i = 0; i < progs.size(); ++i) {
                for(auto op : progs[i]) unreg |= op == UNREGISTER;
                bodies.push_back([&, i] {
                    Attached a(w.jvm);
                    Thread t(w, a.env, (int)i + 1);
                    for(auto op : progs[i]) { log("%s", opname[op]); t.run(op); }
                });
            }
            sched::parallel(bodies);
            // The class is consistent: one entry for each member, the natives that were registered last
            std::map<std::string, int> count;
            for(auto& c : {w.base, w.derived}) for(auto& m : c->methods) {
                auto key = c->nativeprefix + (m->_static ? " static " : m->native ? " native " : " ") + m->name + m->signature;
                SCHED_CHECK(++count[key] == 1, "duplicate", "%s is there more than once", key.data());
            }
            JNIEnv* env;
            w.jvm->GetEnv((void**)&env, JNI_VERSION_1_6);
            for(size_t i = 0; i < progs.size(); ++i) {
                for(auto op : progs[i]) {
                    if(op == NATIVE && !unreg) {
                        auto m = w.base->getMethod("(I)I", nativename[i + 1]);
                        SCHED_CHECK(m, "native", "a registered native is lost");
                        SCHED_CHECK(m->invoke(*env, w.base.get(), (jint)5).i == 105 + (int)i * 100, "native", "a native has another function");
                    }
                    if(op == SAMENATIVE) {
                        auto m = w.derived->getMethod("(I)I", "same");
                        SCHED_CHECK(m, "native", "a registered native is lost");
                        auto r = m->invoke(*env, w.derived.get(), (jint)5).i;
                        bool ok = false;
                        for(size_t j = 0; j < progs.size(); ++j) if(std::count(progs[j].begin(), progs[j].end(), SAMENATIVE)) ok |= r == 105 + (int)j * 100;
                        SCHED_CHECK(ok, "native", "a native has a function nobody registered");
                    }
                }
            }
            auto r1 = w.base->getMethod("(I)I", "r1"), r2 = w.base->getMethod("(I)I", "r2");
            SCHED_CHECK((bool)r1 == (bool)r2, "native", "one of two natives registered together is left");
            if(r1) SCHED_CHECK(r1->invoke(*env, w.base.get(), (jint)5).i == r2->invoke(*env, w.base.get(), (jint)5).i, "native", "natives of two registrations are mixed");
            for(auto& p : progs) for(auto op : p) if(op == REGISTER && !unreg) SCHED_CHECK(r1, "native", "registered natives are lost");
            SCHED_CHECK(!env->ExceptionCheck(), "exception", "an exception of another thread is pending");
        }
        SCHED_CHECK(Base::alive().get() == 0, "leak", "%d objects are left", Base::alive().get());
    }
    int init = [] {
        sched::scenario("pairs", [] {
            int a = choose(OPS), b = a + choose(OPS - a);
            check({{a}, {b}});
        }, 2, 3);
        sched::scenario("sequences", [] {
            int a = choose(OPS), b = choose(OPS);
            check({{a, b}, {b, a}});
        }, 1, 2);
        sched::scenario("three", [] {
            int a = choose(OPS), b = a + choose(OPS - a);
            int c = sched::thorough() ? choose(OPS) : (a + b) % OPS;
            if(!sched::thorough() && (a + 2 * b) % 3) return;
            check({{a}, {b}, {c}});
        }, 1, 2);
        sched::scenario("registration", [] {
            int a = UNREGISTER + choose(ROPS - UNREGISTER), b = UNREGISTER + choose(ROPS - UNREGISTER);
            check({{a}, {b}});
        }, 2, 4);
        sched::scenario("registrations", [] {
            Prog p[2];
            for(auto& q : p) for(int i = 0; i < 2; ++i) q.push_back(UNREGISTER + choose(ROPS - UNREGISTER));
            check({p[0], p[1]});
        }, 1, 2);
        return 0;
    }();
}
