// P25: concurrent use of described native classes
#include "../mc/sched/conc.hpp"
using namespace ch;
using namespace FakeJni;

namespace zoo {
    struct Pet : JObject {
        DEFINE_CLASS_NAME("zoo/Pet")
        JInt owner = 5;
        JInt getOwner() { return owner; }
    };
    struct Animal : Pet {
        DEFINE_CLASS_NAME("zoo/Animal", Pet)
        JInt legs = 4;
        std::shared_ptr<JString> name;
        static JInt count;
        Animal() = default;
        Animal(JInt n) : legs(n) {}
        JInt walk(JInt x) { return legs * 100 + x; }
        static JInt twice(JInt x) { return 2 * x; }
        void rename(std::shared_ptr<JString> s) { name = s; }
    };
    JInt Animal::count = 11;
    struct Cat : Animal {
        DEFINE_CLASS_NAME("zoo/Cat", Animal)
        JLong lives = 9;
        Cat() = default;
        Cat(JInt legs) { this->legs = legs; }
        JLong left(JInt x) { return lives - x; }
        JInt walk2(JInt x) { return -legs * 100 - x; }
    };
}
using namespace zoo;
BEGIN_NATIVE_DESCRIPTOR(Animal)
{Constructor<Animal>{}},
{Constructor<Animal, JInt>{}},
{FakeJni::Field<&Animal::legs>{}, "legs"},
{FakeJni::Field<&Animal::name>{}, "name"},
{FakeJni::Field<&Animal::count>{}, "count", JFieldID::STATIC},
{FakeJni::Function<&Animal::walk>{}, "walk"},
{FakeJni::Function<&Animal::rename>{}, "rename"},
{FakeJni::Function<&Animal::twice>{}, "twice", JMethodID::STATIC},
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(Pet)
{FakeJni::Function<&Pet::getOwner>{}, "getOwner"},
{FakeJni::Field<&Pet::owner>{}, "owner"},
END_NATIVE_DESCRIPTOR
BEGIN_NATIVE_DESCRIPTOR(Cat)
{Constructor<Cat>{}},
{Constructor<Cat, JInt>{}},
{FakeJni::Field<&Cat::lives>{}, "lives"},
{FakeJni::Function<&Cat::left>{}, "left"},
{FakeJni::Function<&Cat::walk2>{}, "walk"},
END_NATIVE_DESCRIPTOR

namespace {
    enum { DESCRIPTOR, BASEDESCRIPTOR, NEW, NEWBASE, HANDOUT, FIND, MEMBERS, SUBTYPES, STATICS, INVOKE, ARRAY, CLASSES, SHARED, GETCLASS, STRINGS, INHERITED, OPS };
    const char* opname[] = { "Cat::getDescriptor", "Animal::getDescriptor and Pet::getDescriptor", "creates and uses a Cat", "creates and uses an Animal", "hands out a Cat made in C++", "FindClass", "looks up members",
        "subtype queries", "static members", "invokes methods from C++", "arrays of described classes", "Jvm::getClasses and findClass", "uses a shared Cat", "getClass of a Cat", "fields of described and built-in classes", "inherited members" };
    struct World {
        std::unique_ptr<Jvm> vm;
        JavaVM* jvm;
        std::shared_ptr<jnivm::Class> cat, animal, pet;
        std::shared_ptr<Cat> shared;
        size_t members[3];
        World(int order) : vm(new Jvm()), jvm(static_cast<JavaVM*>(vm.get())) {
            if(order) { vm->registerClass<Pet>(); vm->registerClass<Animal>(); vm->registerClass<Cat>(); }
            else { vm->registerClass<Cat>(); vm->registerClass<Animal>(); vm->registerClass<Pet>(); }
            cat = vm->findClass("zoo/Cat");
            animal = vm->findClass("zoo/Animal");
            pet = vm->findClass("zoo/Pet");
            SCHED_CHECK(cat && animal && pet, "register", "a registered class is not found");
            shared = std::make_shared<Cat>();
            count(members);
        }
        ~World() { shared.reset(); }
        void count(size_t* n) { int i = 0; for(auto& c : {cat, animal, pet}) n[i++] = c->methods.size() * 100 + c->fields.size(); }
    };
    struct Thread {
        World& w;
        JNIEnv* env;
        int no, seq = 0;
        Thread(World& w, JNIEnv* env, int no) : w(w), env(env), no(no) {}
        void want(jlong got, jlong want, const char* what) { SCHED_CHECK(got == want, "result", "%s gave %lld instead of %lld", what, (long long)got, (long long)want); }
        jclass find(const char* n, const std::shared_ptr<jnivm::Class>& c) {
            auto r = env->FindClass(n);
            SCHED_CHECK(r && unwrap<Class>(env, r) == c, "class", "FindClass(%s) gave %s", n, r ? "another class" : "nothing");
            return r;
        }
        template<class M> M member(M m, const char* n) { SCHED_CHECK(m, "member", "%s is not found", n); return m; }
        void object(jobject o, jint legs) {
            auto c = find("zoo/Cat", w.cat);
            want(env->GetIntField(o, member(env->GetFieldID(c, "legs", "I"), "legs")), legs, "a field of the base class");
            want(env->GetLongField(o, member(env->GetFieldID(c, "lives", "J"), "lives")), 9, "a field");
            want(env->CallLongMethod(o, member(env->GetMethodID(c, "left", "(I)J"), "left"), 4), 5, "a method");
            want(env->CallIntMethod(o, member(env->GetMethodID(c, "walk", "(I)I"), "walk"), (jint)no), -legs * 100 - no, "an overridden method");
            want(env->CallIntMethod(o, member(env->GetMethodID(c, "getOwner", "()I"), "getOwner")), 5, "a method of the first base class");
        }
        void run(int op) {
            int k = no * 100 + ++seq;
            switch(op) {
            case DESCRIPTOR: SCHED_CHECK(Cat::getDescriptor() == w.cat, "descriptor", "another class"); break;
            case BASEDESCRIPTOR:
                SCHED_CHECK(Animal::getDescriptor() == w.animal && Pet::getDescriptor() == w.pet, "descriptor", "another class");
                break;
            case NEW: {
                auto c = find("zoo/Cat", w.cat);
                auto o = env->NewObject(c, member(env->GetMethodID(c, "<init>", "(I)V"), "<init>"), (jint)k);
                SCHED_CHECK(o, "new", "no object");
                object(o, k);
                break;
            }
            case NEWBASE: {
                auto c = find("zoo/Animal", w.animal);
                auto o = env->NewObject(c, member(env->GetMethodID(c, "<init>", "()V"), "<init>"));
                SCHED_CHECK(o, "new", "no object");
                env->SetIntField(o, member(env->GetFieldID(c, "legs", "I"), "legs"), k);
                want(env->CallIntMethod(o, member(env->GetMethodID(c, "walk", "(I)I"), "walk"), 7), k * 100 + 7, "a method");
                SCHED_CHECK(!env->IsInstanceOf(o, find("zoo/Cat", w.cat)), "subtype", "an animal is a cat");
                break;
            }
            case HANDOUT: {
                auto o = std::make_shared<Cat>(k);
                auto j = local(env, o);
                SCHED_CHECK(env->IsSameObject(env->GetObjectClass(j), find("zoo/Cat", w.cat)), "class", "wrong class of an object made in C++");
                object(j, k);
                break;
            }
            case FIND: find("zoo/Pet", w.pet); find("zoo/Cat", w.cat); find("zoo/Animal", w.animal); break;
            case MEMBERS: {
                auto a = find("zoo/Animal", w.animal), c = find("zoo/Cat", w.cat);
                auto m = member(env->GetMethodID(a, "rename", "(Ljava/lang/String;)V"), "rename");
                SCHED_CHECK(env->GetMethodID(c, "rename", "(Ljava/lang/String;)V") == m, "member", "another inherited method");
                SCHED_CHECK(env->GetMethodID(a, "walk", "(I)I") != env->GetMethodID(c, "walk", "(I)I"), "member", "not the overriding method");
                SCHED_CHECK(!env->GetMethodID(a, "left", "(I)J"), "member", "a method of a derived class");
                member(env->GetStaticFieldID(c, "count", "I"), "count");
                break;
            }
            case SUBTYPES: {
                auto a = find("zoo/Animal", w.animal), c = find("zoo/Cat", w.cat), p = find("zoo/Pet", w.pet), o = env->FindClass("java/lang/Object");
                SCHED_CHECK(env->IsAssignableFrom(c, a) && env->IsAssignableFrom(c, p) && env->IsAssignableFrom(c, o) && env->IsAssignableFrom(a, o) && !env->IsAssignableFrom(a, c) && env->IsAssignableFrom(a, p) && !env->IsAssignableFrom(p, a), "subtype", "wrong subtype relation");
                SCHED_CHECK(env->IsSameObject(env->GetSuperclass(c), a), "subtype", "wrong superclass");
                break;
            }
            case STATICS: {
                auto c = find("zoo/Animal", w.animal);
                want(env->GetStaticIntField(c, member(env->GetStaticFieldID(c, "count", "I"), "count")), 11, "a static field");
                want(env->CallStaticIntMethod(c, member(env->GetStaticMethodID(c, "twice", "(I)I"), "twice"), (jint)k), 2 * k, "a static method");
                break;
            }
            case INVOKE: {
                auto o = std::make_shared<Cat>(k);
                local(env, o);
                auto m = Cat::getDescriptor()->getMethod("(I)I", "walk");
                SCHED_CHECK(m, "member", "getMethod found nothing");
                want(m->invoke(*env, (jnivm::Object*)o.get(), (jint)3).i, -k * 100 - 3, "a call from C++");
                auto s = Cat::getDescriptor()->getMethod("(I)I", "twice");
                SCHED_CHECK(s, "member", "getMethod found nothing");
                want(s->invoke(*env, w.animal.get(), (jint)k).i, 2 * k, "a static call from C++");
                break;
            }
            case ARRAY: {
                auto c = find("zoo/Cat", w.cat);
                auto o = local(env, std::make_shared<Cat>(k));
                auto a = env->NewObjectArray(2, c, o);
                SCHED_CHECK(a && env->GetArrayLength(a) == 2, "array", "no array");
                SCHED_CHECK(env->IsSameObject(env->GetObjectArrayElement(a, 1), o), "array", "another element");
                auto t = std::make_shared<JArray<Cat>>(1);
                auto j = local(env, t);
                env->SetObjectArrayElement((jobjectArray)j, 0, o);
                std::shared_ptr<Cat> x = (*t)[0];
                SCHED_CHECK(x && x->legs == k, "array", "another element");
                SCHED_CHECK(env->IsSameObject(env->GetObjectClass(env->GetObjectArrayElement((jobjectArray)j, 0)), c), "class", "wrong class of an element");
                break;
            }
            case CLASSES: {
                int n = 0;
                for(auto& c : w.vm->getClasses()) n += c == w.cat || c == w.animal || c == w.pet;
                want(n, 3, "getClasses");
                SCHED_CHECK(w.vm->findClass("zoo/Cat") == w.cat, "class", "another class");
                break;
            }
            case SHARED: object(local(env, w.shared), 4); break;
            case GETCLASS: {
                auto o = std::make_shared<Cat>(k);
                SCHED_CHECK(&o->getClass() == w.cat.get(), "class", "wrong getClass");
                std::shared_ptr<Animal> a = o;
                SCHED_CHECK(&a->getClass() == w.cat.get(), "class", "wrong getClass of a base");
                break;
            }
            case STRINGS: {
                auto o = std::make_shared<Animal>(k);
                auto j = local(env, o);
                auto c = find("zoo/Animal", w.animal);
                env->CallVoidMethod(j, member(env->GetMethodID(c, "rename", "(Ljava/lang/String;)V"), "rename"), env->NewStringUTF("tom"));
                auto s = (jstring)env->GetObjectField(j, member(env->GetFieldID(c, "name", "Ljava/lang/String;"), "name"));
                SCHED_CHECK(s && env->GetStringUTFLength(s) == 3 && o->name && *o->name == "tom", "result", "wrong string");
                break;
            }
            case INHERITED: {
                auto c = find("zoo/Cat", w.cat);
                auto o = env->NewObject(c, member(env->GetMethodID(c, "<init>", "()V"), "<init>"));
                env->SetIntField(o, member(env->GetFieldID(c, "owner", "I"), "owner"), k);
                want(env->CallIntMethod(o, member(env->GetMethodID(find("zoo/Pet", w.pet), "getOwner", "()I"), "getOwner")), k, "a method of the first base class");
                break;
            }
            }
        }
    };
    typedef std::vector<int> Prog;
    void check(int order, const std::vector<Prog>& progs) {
        World w(order);
        std::vector<std::function<void()>> bodies;
        for(size_t i = 0; i < progs.size(); ++i) bodies.push_back([&, i] {
            Attached a(w.jvm);
            Thread t(w, a.env, (int)i + 1);
            for(auto op : progs[i]) { log("%s", opname[op]); t.run(op); SCHED_CHECK(!a.env->ExceptionCheck(), "exception", "an exception is pending"); }
        });
        sched::parallel(bodies);
        size_t now[3];
        w.count(now);
        for(int i = 0; i < 3; ++i) SCHED_CHECK(now[i] == w.members[i], "members", "class %d has %d methods and %d fields instead of %d and %d", i, (int)now[i] / 100, (int)now[i] % 100, (int)w.members[i] / 100, (int)w.members[i] % 100);
        JNIEnv* env = nullptr;
        w.jvm->GetEnv((void**)&env, JNI_VERSION_1_6);
        Thread t(w, env, 9);
        t.run(FIND); t.run(SUBTYPES); t.run(MEMBERS); t.run(NEW); t.run(DESCRIPTOR); t.run(BASEDESCRIPTOR);
        w.jvm->DetachCurrentThread();
    }
    int init = [] {
        sched::scenario("pairs", [] {
            int order = choose(2);
            int a = choose(OPS), b = a + choose(OPS - a);
            check(order, {{a}, {b}});
        }, 1, 2);
        sched::scenario("deep", [] {
            // every other operation against itself (every one with another in thorough)
            int a = sched::thorough() ? choose(OPS) : choose(OPS / 2) * 2, b = sched::thorough() && choose(2) ? (a * 7 + 3) % OPS : a;
            check(a / 2 & 1, {{a}, {b}});
        }, 2, 3);
        sched::scenario("sequences", [] {
            int a = choose(OPS), b = sched::thorough() ? choose(OPS) : choose(OPS / 2) * 2 + (a & 1);
            check(1, {{a, b}, {b, a}});
        }, 1, 2);
        sched::scenario("three", [] {
            int a = choose(OPS), b = a + choose(OPS - a), c = sched::thorough() ? choose(OPS) : (a + b) % OPS;
            if(!sched::thorough() && (a * 3 + b) % 3) return;
            check(1, {{a}, {b}, {c}});
        }, 1, 2);
        return 0;
    }();
}
