// Reads declarations ("case N [baron]" followed by lookups), performs each case in a permissive VM of its own
// and writes the code generated for it to DIR/N.inc
#include <jnivm.h>
#include <fake-jni/fake-jni.h>
#include <baron/baron.h>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace jnivm;

static void perform(JNIEnv* env, const std::string& line) {
    std::istringstream in(line);
    std::string op, cls, name, sig;
    in >> op >> cls >> name >> sig;
    auto c = env->FindClass(cls.data());
    if(op == "class") return;
    if(op == "static") env->GetStaticMethodID(c, name.data(), sig.data());
    else if(op == "method") env->GetMethodID(c, name.data(), sig.data());
    else if(op == "sfield") env->GetStaticFieldID(c, name.data(), sig.data());
    else if(op == "field") env->GetFieldID(c, name.data(), sig.data());
    else if(op == "native") {
        JNINativeMethod m = {(char*)name.data(), (char*)sig.data(), (void*)&perform};
        env->RegisterNatives(c, &m, 1);
    } else { std::cerr << "unknown " << line << "\n"; exit(2); }
}

int main(int argc, char** argv) {
    std::ifstream in(argv[1]);
    std::string dir = argv[2], line, id;
    std::unique_ptr<VM> vm;
    std::unique_ptr<Baron::Jvm> jvm;
    std::unique_ptr<FakeJni::LocalFrame> frame;
    auto finish = [&] {
        if(vm) vm->GenerateClassDump((dir + "/" + id + ".inc").data());
        if(jvm) {
            std::ofstream of(dir + "/" + id + ".inc");
            auto old = std::cout.rdbuf(of.rdbuf());
            jvm->printStatistics();
            std::cout.rdbuf(old);
        }
        frame.reset();
        vm.reset();
        jvm.reset();
    };
    JNIEnv* env = nullptr;
    while(std::getline(in, line)) {
        if(line.compare(0, 5, "case ") == 0) {
            finish();
            std::istringstream l(line.substr(5));
            std::string kind;
            l >> id >> kind;
            if(kind == "baron") {
                jvm.reset(new Baron::Jvm);
                frame.reset(new FakeJni::LocalFrame(*jvm));
                env = &frame->getJniEnv();
            } else {
                vm.reset(new VM);
                env = vm->GetJNIEnv();
            }
        } else perform(env, line);
    }
    finish();
    return 0;
}
