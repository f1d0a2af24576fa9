// P37: code that the VM runs for its caller uses the VM itself
#include "../mc/jh.hpp"
using namespace jh;

namespace {
    struct Jvm : FakeJni::Jvm { using FakeJni::Jvm::Jvm; };
    void inside();
    struct Tr : Tracked<> {
        jint value = 0;
        std::shared_ptr<Object> ref;
        jint member();
        jint getter();
        void setter(jint v);
    };
    struct Q : Extends<Tr> {
        static std::vector<std::shared_ptr<Class>> GetBaseClasses(ENV* env) { inside(); return jnivm::Extends<Tr>::GetBaseClasses(env); }
    };
    struct Def : Tracked<> { Def() { inside(); } };
    struct Dying : Tracked<> { ~Dying() { inside(); } };
    struct DyingEx : Tracked<Extends<Throwable>> { ~DyingEx() { inside(); } };
    struct Desc : FakeJni::JObject {
        DEFINE_CLASS_NAME("p/Desc")
        jint number = 5;
        jint twice() { return number * 2; }
    };
    struct Canary {
        static int& alive() { static int n; return n; }
        volatile uint64_t magic = 0xca0a27ca0a27ull;
        Canary() { alive()++; }
        ~Canary() { magic = 0; alive()--; }
        bool ok() const { return magic == 0xca0a27ca0a27ull; }
    };

}
BEGIN_NATIVE_DESCRIPTOR(Desc)
{FakeJni::Constructor<Desc>{}},
{FakeJni::Field<&Desc::number>{}, "number"},
{FakeJni::Function<&Desc::twice>{}, "twice"},
END_NATIVE_DESCRIPTOR
namespace {
    enum Site { STATIC, VIRTUAL, MEMBERFN, NONVIRTUAL, CONSTRUCTOR, GETTER, SETTER, SGETTER, SSETTER, NATIVE_STATIC, NATIVE_OBJECT, INVOKE, DEFAULT, BASES, BASES_CALL, LOAD, UNLOAD, MAIN,
        D_LOCAL, D_POP, D_SCOPE, D_GLOBAL, D_ELEMENT, D_FIELD, D_ARRAY, D_EXCEPTION, D_REPLACED, SITES };
    const char* const siteName[] = {"static function", "instance function", "member function", "function called non-virtually", "constructor", "getter", "setter", "static getter", "static setter", "native called with a class", "native called with an object",
        "function invoked from C++", "default constructor of a default result", "base classes of a subtype query", "base classes of a call", "load function", "unload function", "main", "destructor in DeleteLocalRef", "destructor in PopLocalFrame", "destructor in the end of a LocalFrame", "destructor in DeleteGlobalRef",
        "destructor in SetObjectArrayElement", "destructor in SetObjectField", "destructor in the release of an array", "destructor in ExceptionClear", "destructor in hooking again"};
    enum Op { FIND, MEMBERS, STRING, LOCALS, KEEP, DROP, FRAME, RAISE, CALL_RAISING, REGISTER, UNREGISTER, REHOOK, HOOK_NEW, GLOBAL, WEAK, ARRAY, MONITOR, ATTACH, SCOPE, SUBTYPE, WRITE, LIBRARY, DEFAULTS, FIELDS, OTHER_VM, DESCRIBED, NESTED, OPS };
    const char* const opName[] = {"looks up classes", "looks up members", "makes a string", "makes and deletes local references", "makes local references", "deletes the reference of the caller", "pushes and pops a frame", "raises and clears", "calls a raising function",
        "registers natives", "unregisters natives", "hooks what is running again", "hooks new functions", "uses a global reference", "uses a weak reference", "uses arrays", "uses monitors", "attaches again", "uses a scope", "asks for subtypes", "writes to what is being written to", "attaches a library",
        "asks for default results", "accesses fields", "uses another VM", "registers a described class", "does something that runs more code"};

    struct Plan { int site; std::vector<int> ops; std::unique_ptr<Plan> nested; };
    Plan choosePlan(int len, int depth) {
        Plan p;
        p.site = choose(SITES);
        int n = len > 1 ? 1 + choose(len) : len;
        for(int i = 0; i < n; ++i) {
            // At most one of them runs more code
            int op = choose(depth && !p.nested ? OPS : OPS - 1);
            p.ops.push_back(op);
            if(op == NESTED) p.nested = std::make_unique<Plan>(choosePlan(1, depth - 1));
        }
        return p;
    }
    void show(const Plan& p) {
        for(int o : p.ops) {
            log("%s %s", siteName[p.site], opName[o]);
            if(o == NESTED) show(*p.nested);
        }
    }

    int libLoads, libUnloads, libCloses;
    bool libCalls;
    struct World;
    World* W;
    struct World {
        std::unique_ptr<Jvm> vm;
        JavaVM* j;
        JNIEnv* env;
        ENV* e;
        std::shared_ptr<Class> cls, qcls, defcls, dcls, xcls;
        jclass jc, jq;
        std::shared_ptr<Tr> obj, kept;
        jobject jo, base;
        jmethodID s, v, m, c, un, raising, defid;
        jfieldID g, f, sg, fv, fr;
        int generation = 0, nativeGeneration = 0, count = 0;
        jint stat = 0, sval = 0;
        long keptRefs = 0;
        int releasing = 0;
        std::vector<std::function<void()>> later;
        // What is running now
        Plan* armed = nullptr;
        int ran = 0;
        jobject recv = nullptr;                     // the local reference the running code was called with
        std::function<void()> writeSame;
        jobject element = nullptr;

        World() {
            W = this;
            vm = std::make_unique<Jvm>(false, false);
            j = static_cast<JavaVM*>(vm.get());
            j->GetEnv((void**)&env, JNI_VERSION_1_6);
            e = E(env);
            cls = e->GetClass<Tr>("p/Tr");
            qcls = e->GetClass<Q>("p/Q");
            defcls = e->GetClass<Def>("p/Def");
            dcls = e->GetClass<Dying>("p/Dying");
            xcls = e->GetClass<DyingEx>("p/DyingEx");
            jc = (jclass)(Object*)cls.get();
            jq = (jclass)(Object*)qcls.get();
            obj = std::make_shared<Tr>();
            kept = std::make_shared<Tr>();
            base = local(env, std::make_shared<Tr>());
            jo = local(env, obj);
            hookAll();
            cls->HookInstance(e, "value", &Tr::value);
            cls->HookInstance(e, "ref", &Tr::ref);
            cls->Hook(e, "raising", []() -> jint { throw std::runtime_error("raised"); });
            s = env->GetStaticMethodID(jc, "s", "()I");
            v = env->GetMethodID(jc, "v", "()I");
            m = env->GetMethodID(jc, "m", "()I");
            c = env->GetMethodID(jc, "<init>", "()V");
            raising = env->GetStaticMethodID(jc, "raising", "()I");
            g = env->GetFieldID(jc, "g", "I");
            f = env->GetFieldID(jc, "f", "I");
            sg = env->GetStaticFieldID(jc, "sg", "I");
            fv = env->GetFieldID(jc, "value", "I");
            fr = env->GetFieldID(jc, "ref", "Ljava/lang/Object;");
            defid = env->GetStaticMethodID(jc, "unimplemented", "()Lp/Def;");
            un = env->GetStaticMethodID(jc, "unimplemented", "()Ljava/lang/Object;");
        }
        // Hooks everything, possibly again: what runs at this moment stays what it is
        void hookAll() {
            int n = ++generation;
            auto can = [] { return std::make_shared<Canary>(); };
            auto C = cls.get();
            C->Hook(e, "s", [n, c = can()]() -> jint { inside(); MC_FLAG(c->ok(), "released", "a running static function"); return 100 + n; });
            C->HookInstanceFunction(e, "v", [n, c = can()](Tr* t) -> jint { inside(); MC_FLAG(c->ok(), "released", "a running instance function"); MC_FLAG(t->magic == Tr::ALIVE, "receiver", "gone"); return 200 + n; });
            C->HookInstanceFunction(e, "m", &Tr::member);
            C->Hook(e, "<init>", [n, c = can()]() { inside(); MC_FLAG(c->ok(), "released", "a running constructor"); auto o = std::make_shared<Tr>(); o->id = n; return o; });
            C->HookInstanceGetterFunction(e, "g", [n, c = can()](Tr* t) -> jint { inside(); MC_FLAG(c->ok(), "released", "a running getter"); MC_FLAG(t->magic == Tr::ALIVE, "receiver", "gone"); return 400 + n; });
            C->HookInstanceSetterFunction(e, "f", [n, c = can()](Tr* t, jint v) { inside(); MC_FLAG(c->ok(), "released", "a running setter"); MC_FLAG(t->magic == Tr::ALIVE, "receiver", "gone"); t->value = v + n; });
            C->HookGetterFunction(e, "sg", [n, c = can()]() -> jint { inside(); MC_FLAG(c->ok(), "released", "a running static getter"); return 500 + n; });
            C->HookSetterFunction(e, "sg", [n, this, c = can()](jint v) { inside(); MC_FLAG(c->ok(), "released", "a running static setter"); sval = v + n; });
            FakeJni::createMainMethod(*vm, [n, this, c = can()](std::shared_ptr<FakeJni::JArray<FakeJni::JString>> a) { inside(); MC_FLAG(c->ok(), "released", "the running main"); MC_FLAG(a && a->getSize() == 1, "main", "arguments"); stat = n; });
        }
        template<int G> static jint nativeS(JNIEnv*, jclass c) { inside(); MC_FLAG(W->cls == unwrap<Class>(W->env, c), "native", "class"); return 600 + G; }
        template<int G> static jint nativeO(JNIEnv*, jobject) { inside(); return 700 + G; }
        void registerNatives() {
            static void* const ns[] = {(void*)&nativeS<0>, (void*)&nativeS<1>, (void*)&nativeS<2>, (void*)&nativeS<3>}, * const no[] = {(void*)&nativeO<0>, (void*)&nativeO<1>, (void*)&nativeO<2>, (void*)&nativeO<3>};
            int n = nativeGeneration = (nativeGeneration + 1) % 4;
            JNINativeMethod nm[] = {{(char*)"ns", (char*)"()I", ns[n]}, {(char*)"no", (char*)"()I", no[n]}, {(char*)"other", (char*)"()V", (void*)&nativeS<0>}};
            MC_FLAG(env->RegisterNatives(jc, nm, 3) == 0, "register", "failed");
        }
        ~World() { W = nullptr; }
    };
    jint Tr::member() { inside(); MC_FLAG(magic == ALIVE, "receiver", "gone"); return 300; }

    void* libOpen(const char* name, int) { return (void*)(name && !strcmp(name, "calls.so") ? &libCalls : nullptr); }
    void* libOpenOther(const char*, int) { return (void*)&libLoads; }
    jint onLoad(JavaVM*, void*) { inside(); return JNI_VERSION_1_6; }
    void onUnload(JavaVM*, void*) { inside(); }
    jint onLoadOther(JavaVM* vm, void*) { libLoads++; MC_FLAG(vm == W->j, "library", "another VM"); return JNI_VERSION_1_6; }
    void onUnloadOther(JavaVM*, void*) { libUnloads++; }
    bool duringLoad;
    void* libSym(void*, const char* name) {
        if(!strcmp(name, "JNI_OnLoad") && duringLoad) return (void*)&onLoad;
        if(!strcmp(name, "JNI_OnUnload") && !duringLoad) return (void*)&onUnload;
        return nullptr;
    }
    void* libSymOther(void*, const char* name) { return !strcmp(name, "JNI_OnLoad") ? (void*)&onLoadOther : !strcmp(name, "JNI_OnUnload") ? (void*)&onUnloadOther : nullptr; }
    int libClose(void*) { libCloses++; return 0; }

    void doSite(Plan& p);
    // References made by code that runs in a frame of the VM, or while a frame is released, may end with it
    bool releases(int site) { return site == D_POP || site == D_SCOPE || site == MAIN; }
    void doOp(Plan& p, int op) {
        auto& w = *W;
        auto env = w.env;
        int k = w.count++;
        std::string tag = std::to_string(k);
        switch(op) {
        case FIND: {
            auto c = unwrap<Class>(env, env->FindClass(("n/New" + tag).data()));
            MC_FLAG(c && c->getName() == "n/New" + tag, "class", "looking up a class");
            auto n = unwrap<Class>(env, env->FindClass(("n/New" + tag + "$In").data()));
            MC_FLAG(unwrap<Class>(env, env->FindClass("p/Tr")) == w.cls, "class", "looking up a known class");
            w.later.push_back([=, &w] { MC_FLAG(unwrap<Class>(env, env->FindClass(("n/New" + tag).data())) == c && unwrap<Class>(env, env->FindClass(("n/New" + tag + "$In").data())) == n && n != c, "class", "another class afterwards"); });
            break;
        }
        case MEMBERS: {
            auto a = env->GetStaticMethodID(w.jc, ("a" + tag).data(), "()V");
            auto b = env->GetMethodID(w.jc, ("a" + tag).data(), "()V");
            auto c = env->GetFieldID(w.jc, ("a" + tag).data(), "Ln/Mentioned;");
            MC_FLAG(a && b && c && a != b, "member", "looking up members");
            MC_FLAG(env->GetStaticMethodID(w.jc, "s", "()I") == w.s && env->GetFieldID(w.jc, "value", "I") == w.fv, "member", "looking up known members");
            w.later.push_back([=, &w] { MC_FLAG(env->GetStaticMethodID(w.jc, ("a" + tag).data(), "()V") == a && env->GetMethodID(w.jc, ("a" + tag).data(), "()V") == b && env->GetFieldID(w.jc, ("a" + tag).data(), "Ln/Mentioned;") == c, "member", "another member afterwards"); });
            break;
        }
        case STRING: {
            auto s = env->NewStringUTF(("inner" + tag).data());
            auto read = [=] { auto c = env->GetStringUTFChars(s, nullptr); bool ok = "inner" + tag == c; env->ReleaseStringUTFChars(s, c); return ok; };
            MC_FLAG(read(), "string", "made inside");
            if(!w.releasing) w.later.push_back([=] { MC_FLAG(read(), "string", "changed afterwards"); });
            break;
        }
        case LOCALS: {
            jobject r[40];
            for(auto& x : r) x = env->NewLocalRef(w.jo);
            for(auto& x : r) { MC_FLAG(env->IsSameObject(x, w.jo), "local", "another object"); env->DeleteLocalRef(x); }
            break;
        }
        case KEEP:
            for(int i = 0; i < 40; ++i) {
                auto r = local(env, w.kept);
                MC_FLAG(unwrap<Tr>(env, r) == w.kept, "local", "another object");
            }
            if(!w.releasing) w.keptRefs += 40;
            break;
        case DROP:
            if(w.recv) { env->DeleteLocalRef(w.recv); w.recv = nullptr; }
            break;
        case FRAME: {
            MC_FLAG(env->PushLocalFrame(4) == 0, "frame", "push");
            for(int i = 0; i < 20; ++i) env->NewStringUTF("temporary");
            auto r = env->PopLocalFrame(env->NewLocalRef(w.jo));
            MC_FLAG(env->IsSameObject(r, w.jo), "frame", "result");
            env->DeleteLocalRef(r);
            break;
        }
        case RAISE:
            MC_FLAG(!env->ExceptionCheck(), "exception", "pending before");
            env->ThrowNew(env->FindClass("java/lang/Throwable"), "inner");
            MC_FLAG(env->ExceptionCheck(), "exception", "not pending");
            env->ExceptionClear();
            MC_FLAG(!env->ExceptionCheck(), "exception", "pending after clearing");
            break;
        case CALL_RAISING:
            MC_FLAG(env->CallStaticIntMethod(w.jc, w.raising) == 0, "exception", "result of a raising call");
            MC_FLAG(env->ExceptionCheck(), "exception", "not pending");
            env->ExceptionClear();
            break;
        case REGISTER: w.registerNatives(); break;
        case UNREGISTER: MC_FLAG(env->UnregisterNatives(w.jc) == 0, "register", "unregister"); break;
        case REHOOK: w.hookAll(); break;
        case HOOK_NEW:
            for(int i = 0; i < 20; ++i) w.cls->Hook(w.e, "h" + tag + "_" + std::to_string(i), [i, k]() -> jint { return i + k; });
            w.later.push_back([=, &w] { for(int i = 0; i < 20; i += 19) MC_FLAG(env->CallStaticIntMethod(w.jc, env->GetStaticMethodID(w.jc, ("h" + tag + "_" + std::to_string(i)).data(), "()I")) == i + k, "hook", "new function"); });
            break;
        case GLOBAL: {
            auto g = env->NewGlobalRef(w.jo), h = env->NewGlobalRef(g);
            MC_FLAG(g && g != h && env->IsSameObject(g, w.jo), "global", "another object");
            env->DeleteGlobalRef(g);
            MC_FLAG(env->IsSameObject(h, w.jo), "global", "another one deleted");
            w.later.push_back([=, &w] { MC_FLAG(env->IsSameObject(h, w.jo) && env->GetObjectRefType(h) == JNIGlobalRefType, "global", "changed afterwards"); env->DeleteGlobalRef(h); });
            break;
        }
        case WEAK: {
            auto g = env->NewWeakGlobalRef(w.jo);
            auto r = env->NewLocalRef(g);
            MC_FLAG(env->IsSameObject(r, w.jo), "weak", "another object");
            env->DeleteLocalRef(r);
            w.later.push_back([=, &w] { MC_FLAG(env->IsSameObject(g, w.jo), "weak", "changed afterwards"); env->DeleteWeakGlobalRef(g); });
            break;
        }
        case ARRAY: {
            auto a = env->NewObjectArray(3, w.jc, w.jo);
            auto r = env->GetObjectArrayElement(a, 2);
            MC_FLAG(env->IsSameObject(r, w.jo), "array", "element");
            env->SetObjectArrayElement(a, 1, nullptr);
            MC_FLAG(!env->GetObjectArrayElement(a, 1) && env->GetArrayLength(a) == 3, "array", "cleared element");
            env->DeleteLocalRef(r);
            env->DeleteLocalRef(a);
            auto i = env->NewIntArray(5);
            jint x[5] = {1, 2, 3, 4, k}, y[5];
            env->SetIntArrayRegion(i, 0, 5, x);
            env->GetIntArrayRegion(i, 0, 5, y);
            MC_FLAG(!memcmp(x, y, sizeof x), "array", "region");
            env->DeleteLocalRef(i);
            break;
        }
        case MONITOR:
            for(auto o : {w.jo, (jobject)w.jc, w.recv}) if(o) {
                MC_FLAG(env->MonitorEnter(o) == 0 && env->MonitorEnter(o) == 0 && env->MonitorExit(o) == 0 && env->MonitorExit(o) == 0, "monitor", "failed");
            }
            break;
        case ATTACH: {
            JNIEnv* a = nullptr, * b = nullptr;
            MC_FLAG(w.j->AttachCurrentThread(&a, nullptr) == 0 && w.j->GetEnv((void**)&b, JNI_VERSION_1_6) == 0 && E(a) == w.e && E(b) == w.e, "attach", "another environment");
            JavaVM* v = nullptr;
            MC_FLAG(env->GetJavaVM(&v) == 0 && v && jnivm::VM::FromJavaVM(v) == w.e->GetVM(), "attach", "another VM");
            break;
        }
        case SCOPE: {
            FakeJni::LocalFrame f(*w.vm);
            MC_FLAG(E(&f.getJniEnv()) == w.e, "scope", "another environment");
            FakeJni::LocalFrame h;
            for(int i = 0; i < 20; ++i) local(&h.getJniEnv(), w.kept);
            break;
        }
        case SUBTYPE:
            MC_FLAG(env->IsInstanceOf(w.jo, w.jc) && !env->IsInstanceOf(w.jo, w.jq) && env->IsAssignableFrom(w.jq, w.jc) && !env->IsAssignableFrom(w.jc, w.jq), "subtype", "wrong answer");
            MC_FLAG(unwrap<Class>(env, env->GetSuperclass(w.jq)) == w.cls, "subtype", "superclass");
            break;
        case WRITE: if(w.writeSame) w.writeSame(); break;
        case LIBRARY: {
            int l = libLoads, u = libUnloads;
            w.vm->attachLibrary("other" + tag + ".so", "", FakeJni::LibraryOptions(libOpenOther, libSymOther, libClose));
            MC_FLAG(libLoads == l + 1, "library", "not loaded");
            w.later.push_back([=, &w] { w.vm->removeLibrary("other" + tag + ".so"); MC_FLAG(libUnloads > u, "library", "not unloaded"); });
            break;
        }
        case DEFAULTS: {
            auto r = env->CallStaticObjectMethod(w.jc, w.un);
#ifdef JNI_RETURN_NON_ZERO
            MC_FLAG(r && env->GetObjectRefType(r) == JNILocalRefType, "default", "no object");
            env->DeleteLocalRef(r);
            r = env->CallStaticObjectMethod(w.jc, w.defid);
            MC_FLAG(r && unwrap<Def>(env, r), "default", "no native object");
            env->DeleteLocalRef(r);
#else
            MC_FLAG(!r, "default", "not null");
#endif
            break;
        }
        case FIELDS:
            env->SetIntField(w.jo, w.fv, k + 5);
            MC_FLAG(env->GetIntField(w.jo, w.fv) == k + 5 && w.obj->value == k + 5, "field", "value");
            env->SetObjectField(w.jo, w.fr, w.base);
            { auto r = env->GetObjectField(w.jo, w.fr); MC_FLAG(env->IsSameObject(r, w.base), "field", "object"); env->DeleteLocalRef(r); }
            env->SetObjectField(w.jo, w.fr, nullptr);
            break;
        case OTHER_VM: {
            jnivm::VM other;
            auto oe = other.GetJNIEnv();
            auto c = E(oe)->GetClass<Tr>("q/Tr");
            MC_FLAG(c != w.cls && c->getName() == "q/Tr" && E(oe) != w.e, "vm", "another VM is the same");
            MC_FLAG(w.cls->getName() == "p/Tr", "vm", "name of the class");
            break;
        }
        case DESCRIBED: {
            w.vm->registerClass<Desc>();
            auto c = (jclass)(Object*)Desc::getDescriptor().get();
            auto o = env->NewObject(c, env->GetMethodID(c, "<init>", "()V"));
            env->SetIntField(o, env->GetFieldID(c, "number", "I"), k);
            MC_FLAG(env->CallIntMethod(o, env->GetMethodID(c, "twice", "()I")) == 2 * k, "described", "member");
            env->DeleteLocalRef(o);
            break;
        }
        case NESTED: {
            // What the outer code was called with stays aside
            auto recv = w.recv; w.recv = nullptr;
            auto write = std::move(w.writeSame); w.writeSame = nullptr;
            int ran = w.ran;
            doSite(*p.nested);
            w.recv = recv;
            w.writeSame = std::move(write);
            w.ran = ran;
            break;
        }
        }
        MC_FLAG(!env->ExceptionCheck(), "exception", "pending after: %s", opName[op]);
    }
    void inside() {
        auto& w = *W;
        if(!W || !w.armed) return;
        auto p = w.armed;
        w.armed = nullptr;
        w.ran++;
        for(int op : p->ops) doOp(*p, op);
    }
    // Runs code of this kind once, with the plan inside, and checks the result of the operation which ran it
    void doSite(Plan& p) {
        auto& w = *W;
        auto env = w.env;
        w.ran = 0;
        if(releases(p.site)) w.releasing++;
        bool must = true;
        auto arm = [&] { w.armed = &p; };
        auto receiver = [&](auto o) { w.recv = local(env, o); return w.recv; };
        auto drop = [&] { if(w.recv) env->DeleteLocalRef(w.recv); w.recv = nullptr; };
        int gen = w.generation;
        switch(p.site) {
        case STATIC: arm(); MC_FLAG(env->CallStaticIntMethod(w.jc, w.s) == 100 + gen, "result", "%s", siteName[p.site]); break;
        case VIRTUAL: { auto r = receiver(std::make_shared<Tr>()); arm(); MC_FLAG(env->CallIntMethod(r, w.v) == 200 + gen, "result", "%s", siteName[p.site]); drop(); break; }
        case MEMBERFN: { auto r = receiver(std::make_shared<Tr>()); arm(); MC_FLAG(env->CallIntMethod(r, w.m) == 300, "result", "%s", siteName[p.site]); drop(); break; }
        case NONVIRTUAL: { auto r = receiver(std::make_shared<Tr>()); arm(); MC_FLAG(env->CallNonvirtualIntMethod(r, w.jc, w.v) == 200 + gen, "result", "%s", siteName[p.site]); drop(); break; }
        case CONSTRUCTOR: {
            arm();
            auto o = env->NewObject(w.jc, w.c);
            auto t = unwrap<Tr>(env, o);
            MC_FLAG(t && t->id == gen, "result", "%s", siteName[p.site]);
            env->DeleteLocalRef(o);
            break;
        }
        case GETTER: { auto r = receiver(std::make_shared<Tr>()); arm(); MC_FLAG(env->GetIntField(r, w.g) == 400 + gen, "result", "%s", siteName[p.site]); drop(); break; }
        case SETTER: {
            auto o = std::make_shared<Tr>();
            auto r = receiver(o);
            w.writeSame = [=, &w] { env->SetIntField(r, w.fv, 1); };
            if(std::count(p.ops.begin(), p.ops.end(), DROP)) w.writeSame = nullptr;
            arm();
            env->SetIntField(r, w.f, 30);
            MC_FLAG(o->value == 30 + gen, "result", "%s", siteName[p.site]);
            drop();
            break;
        }
        case SGETTER: arm(); MC_FLAG(env->GetStaticIntField(w.jc, w.sg) == 500 + gen, "result", "%s", siteName[p.site]); break;
        case SSETTER: arm(); w.writeSame = [=, &w] { env->SetStaticIntField(w.jc, w.sg, 1); }; env->SetStaticIntField(w.jc, w.sg, 40); MC_FLAG(w.sval == 40 + gen, "result", "%s", siteName[p.site]); break;
        case NATIVE_STATIC: case NATIVE_OBJECT: {
            w.registerNatives();
            int n = w.nativeGeneration;
            auto o = std::make_shared<Tr>();
            arm();
            if(p.site == NATIVE_STATIC) { auto m = w.cls->getMethod("()I", "ns"); MC_FLAG(m.invoke(*env, w.cls.get()).i == 600 + n, "result", "%s", siteName[p.site]); }
            else { auto m = w.cls->getMethod("()I", "no"); MC_FLAG(m.invoke(*env, static_cast<Object*>(o.get())).i == 700 + n, "result", "%s", siteName[p.site]); }
            break;
        }
        case INVOKE: {
            auto m = w.cls->getMethod("()I", "s");
            arm();
            MC_FLAG(m.invoke(*env, w.cls.get()).i == 100 + gen, "result", "%s", siteName[p.site]);
            break;
        }
        case DEFAULT: {
            arm();
            auto r = env->CallStaticObjectMethod(w.jc, w.defid);
#ifdef JNI_RETURN_NON_ZERO
            MC_FLAG(r && unwrap<Def>(env, r) && unwrap<Class>(env, env->GetObjectClass(r)) == w.defcls, "result", "%s", siteName[p.site]);
            env->DeleteLocalRef(r);
#else
            must = false;
            MC_FLAG(!r, "result", "%s", siteName[p.site]);
#endif
            break;
        }
        case BASES: arm(); MC_FLAG(env->IsAssignableFrom(w.jq, w.jc), "result", "%s", siteName[p.site]); break;
        case BASES_CALL: {
            auto q = std::make_shared<Q>();
            auto r = receiver(q);
            // While the receiver is looked at, it is the caller's
            if(std::count(p.ops.begin(), p.ops.end(), DROP)) w.recv = nullptr;
            arm();
            jint x = env->CallIntMethod(r, w.v);
            MC_FLAG(x > 200 && x <= 200 + w.generation, "result", "%s", siteName[p.site]);
            env->DeleteLocalRef(r);
            w.recv = nullptr;
            break;
        }
        case LOAD: case UNLOAD: {
            FakeJni::LibraryOptions lo(libOpen, libSym, libClose);
            std::string name = "calls.so";
            // Several at a time have different names
            static int nested;
            if(nested++) name = "calls" + std::to_string(nested) + ".so", lo = FakeJni::LibraryOptions(libOpenOther, libSym, libClose);
            int closes = libCloses;
            if(p.site == LOAD) { duringLoad = true; arm(); }
            bool saved = duringLoad;
            w.vm->attachLibrary(name, "", lo);
            if(p.site == UNLOAD) { duringLoad = false; arm(); w.vm->removeLibrary(name); }
            else { auto a = w.armed; w.armed = nullptr; w.vm->removeLibrary(name); w.armed = a; }
            (void)saved;
            MC_FLAG(libCloses > closes, "library", "not closed");
            nested--;
            break;
        }
        case MAIN: w.stat = 0; arm(); w.vm->start(); MC_FLAG(w.stat == gen, "result", "%s", siteName[p.site]); break;
        case D_LOCAL: {
            // Among other references
            std::vector<std::shared_ptr<Tr>> o;
            std::vector<jobject> rs;
            jobject r = nullptr;
            for(int i = 0; i < 7; ++i) {
                if(i == 3) r = local(env, std::make_shared<Dying>());
                o.push_back(std::make_shared<Tr>());
                rs.push_back(local(env, o.back()));
            }
            arm();
            env->DeleteLocalRef(r);
            for(size_t i = 0; i < o.size(); ++i) {
                MC_FLAG(o[i].use_count() == 2, "local", "reference %zu next to the deleted one: %ld", i, o[i].use_count());
                MC_FLAG(unwrap<Tr>(env, rs[i]) == o[i], "local", "reference %zu next to the deleted one is another object", i);
            }
            for(auto x : rs) env->DeleteLocalRef(x);
            for(size_t i = 0; i < o.size(); ++i) MC_FLAG(o[i].use_count() == 1, "local", "reference %zu next to the deleted one is not released: %ld", i, o[i].use_count());
            break;
        }
        case D_POP: {
            env->PushLocalFrame(0);
            auto a = std::make_shared<Tr>();
            auto r = local(env, a);
            for(int i = 0; i < 3; ++i) local(env, std::make_shared<Tr>());
            local(env, std::make_shared<Dying>());
            for(int i = 0; i < 3; ++i) local(env, std::make_shared<Tr>());
            arm();
            auto x = env->PopLocalFrame(r);
            MC_FLAG(unwrap<Tr>(env, x) == a, "result", "%s", siteName[p.site]);
            env->DeleteLocalRef(x);
            MC_FLAG(a.use_count() == 1, "released", "result of PopLocalFrame has %ld references", a.use_count());
            break;
        }
        case D_SCOPE: {
            std::weak_ptr<Tr> other;
            {
                FakeJni::LocalFrame f(*w.vm);
                auto o = std::make_shared<Tr>();
                other = o;
                local(env, std::make_shared<Dying>());
                local(env, o);
                arm();
            }
            MC_FLAG(other.expired(), "released", "an object in the frame is kept");
            break;
        }
        case D_GLOBAL: {
            auto r = local(env, std::make_shared<Dying>());
            auto g = env->NewGlobalRef(r);
            env->DeleteLocalRef(r);
            arm();
            env->DeleteGlobalRef(g);
            break;
        }
        case D_ELEMENT: case D_ARRAY: {
            auto r = local(env, std::make_shared<Dying>());
            auto a = env->NewObjectArray(2, env->FindClass("java/lang/Object"), nullptr);
            env->SetObjectArrayElement(a, 1, r);
            env->DeleteLocalRef(r);
            if(p.site == D_ARRAY) { arm(); env->DeleteLocalRef(a); break; }
            // Another element: the slot itself belongs to the assignment under way
            w.writeSame = [=, &w] { env->SetObjectArrayElement(a, 0, w.base); };
            arm();
            env->SetObjectArrayElement(a, 1, w.jo);
            auto x = env->GetObjectArrayElement(a, 1);
            auto y = env->GetObjectArrayElement(a, 0);
            MC_FLAG(env->IsSameObject(x, w.jo), "result", "%s", siteName[p.site]);
            MC_FLAG(env->IsSameObject(y, std::count(p.ops.begin(), p.ops.end(), WRITE) ? w.base : nullptr), "result", "another element");
            env->DeleteLocalRef(x);
            env->DeleteLocalRef(y);
            env->DeleteLocalRef(a);
            break;
        }
        case D_FIELD: {
            auto o = std::make_shared<Tr>();
            auto r = local(env, o), d = local(env, std::make_shared<Dying>());
            env->SetObjectField(r, w.fr, d);
            env->DeleteLocalRef(d);
            w.writeSame = [=, &w] { env->SetIntField(r, w.fv, 71); };
            arm();
            env->SetObjectField(r, w.fr, w.jo);
            auto x = env->GetObjectField(r, w.fr);
            MC_FLAG(env->IsSameObject(x, w.jo), "result", "%s", siteName[p.site]);
            MC_FLAG(o->value == (std::count(p.ops.begin(), p.ops.end(), WRITE) ? 71 : 0), "result", "another field");
            env->DeleteLocalRef(x);
            env->DeleteLocalRef(r);
            break;
        }
        case D_EXCEPTION: {
            auto r = local(env, std::make_shared<DyingEx>());
            env->Throw((jthrowable)r);
            env->DeleteLocalRef(r);
            arm();
            env->ExceptionClear();
            break;
        }
        case D_REPLACED: {
            std::string n = "d" + std::to_string(w.count++);
            auto d = std::make_shared<Dying>();
            w.cls->Hook(w.e, n, [d]() -> jint { return 1; });
            auto id = env->GetStaticMethodID(w.jc, n.data(), "()I");
            MC_FLAG(env->CallStaticIntMethod(w.jc, id) == 1, "result", "first function");
            d = nullptr;
            arm();
            w.cls->Hook(w.e, n, []() -> jint { return 2; });
            MC_FLAG(env->CallStaticIntMethod(w.jc, id) == 2, "result", "second function");
            break;
        }
        }
        MC_FLAG(w.ran == (must ? 1 : 0), "ran", "%s ran %d times", siteName[p.site], w.ran);
        MC_FLAG(!w.armed || !must, "ran", "%s did not run", siteName[p.site]);
        MC_FLAG(!env->ExceptionCheck(), "exception", "pending after %s", siteName[p.site]);
        w.armed = nullptr;
        w.writeSame = nullptr;
        if(releases(p.site)) w.releasing--;
        mc::transition();
    }
    void run(int len, int depth) {
        Plan p = choosePlan(len, depth);
        show(p);
        {
            World w;
            auto env = w.env;
            int trs = Tr::alive(), outer = Dying::alive() + DyingEx::alive() + Def::alive();
            long uses = w.kept.use_count();
            env->PushLocalFrame(0);
            auto here = local(env, w.kept);
            doSite(p);
            MC_CHECK(w.kept.use_count() >= uses + 1 + w.keptRefs, "lost", "%ld references instead of %ld", w.kept.use_count() - uses, 1 + w.keptRefs);
            MC_CHECK(unwrap<Tr>(env, here) == w.kept && env->IsSameObject(w.jo, local(env, w.obj)), "lost", "a reference made before");
            auto later = std::move(w.later);
            for(auto& f : later) f();
            // Everything works as before, with what is hooked now
            MC_CHECK(env->CallStaticIntMethod(w.jc, w.s) == 100 + w.generation && env->CallIntMethod(w.jo, w.v) == 200 + w.generation && env->GetIntField(w.jo, w.g) == 400 + w.generation, "afterwards", "calls");
            env->PopLocalFrame(nullptr);
            w.obj->ref = nullptr;
            MC_CHECK(w.kept.use_count() == uses, "kept", "%ld references are left over", w.kept.use_count() - uses);
            MC_CHECK(Tr::alive() == trs && Dying::alive() + DyingEx::alive() + Def::alive() == outer, "kept", "%d objects are left over", Tr::alive() - trs);
            MC_CHECK(unwrap<Tr>(env, w.base) && unwrap<Tr>(env, w.base)->magic == Tr::ALIVE, "lost", "a reference of the outer frame");
            // One frame is left as before
            auto t = std::make_shared<Tr>();
            local(env, t);
            env->PushLocalFrame(0); env->PopLocalFrame(nullptr);
            MC_CHECK(t.use_count() == 2, "frames", "the outer frame was popped");
            mc::state(std::to_string(p.site) + "/" + std::to_string(p.ops[0]) + "/" + std::to_string(p.ops.size() > 1 ? p.ops[1] : -1) + "/" + (p.nested ? std::to_string(p.nested->site) + "." + std::to_string(p.nested->ops[0]) : ""));
        }
        MC_CHECK(Tr::alive() == 0 && Dying::alive() == 0 && DyingEx::alive() == 0 && Def::alive() == 0, "leak", "objects left after the end of the VM");
        MC_CHECK(Canary::alive() == 0, "leak", "%d functions left after the end of the VM", Canary::alive());
    }
}

static int init = [] {
    mc::scenario("sequences", [] { run(mc::bound(3, 2, 4, 3), 0); }, 2);
    mc::scenario("nested", [] { run(1, mc::bound(2, 1, 3, 2)); }, 3);
    mc::scenario("nested sequences", [] { run(mc::bound(2, 1, 2, 2), 1); }, 3);
    return 0;
}();
