"""One entry for each check: its bounds (as text for the evidence), assumptions and variants."""
import p26
SEQ_ASSUME = [
    "one thread at a time (schedules are explored by P20 to P25)",
    "x86-64 Linux, g++ 13, libstdc++, EnableJNIVMGC and JNI_DEBUG on (the only configuration the repository builds)",
    "exhaustive within the stated alphabet and bounds only",
]
CHECKS = {
    "P01": dict(
        title="local reference histories",
        bounds={"quick": "histories of 8 operations over 3 objects and 5 frames (6 under sanitizers and in the other configurations); 5 (4) with all producers; frames of up to 129 (33) references, up to 257 (65) nested frames; every source of a reference through local, global and weak handles",
                "thorough": "histories of 10 (7) operations, 6 (5) with all producers, frames of up to 513 references, 1025 nested frames"},
        assumptions=SEQ_ASSUME + ["a deletion names the innermost reference to the object (JNI gives equal handles to equal objects here)", "frames are popped at most as often as pushed"]),
    "P02": dict(
        title="global, weak and local handles",
        bounds={"quick": "histories of 6 operations over 2 objects and 5 handles, 7 over one object (5 and 6 under AddressSanitizer); up to 129 handles of a kind in 4 orders of deletion; 8 kinds of objects held by a cleared weak reference through every null-accepting operation; 18 kinds of objects through every kind of handle",
                "thorough": "histories of 7 and 8 (6 and 7) operations, up to 513 handles"},
        assumptions=SEQ_ASSUME),
    "P03": dict(
        title="reference kinds of operands",
        bounds={"quick": "every JNI operation taking references x {local, global, weak, weak made from a global} for every operand, all primitive types and call forms, 9 places an object can be stored in",
                "thorough": "the same (complete)"},
        assumptions=SEQ_ASSUME),
    "P04": dict(
        title="UTF-16 and modified UTF-8",
        bounds={"quick": "all 65536 units in 4 contexts; all sequences of up to 4 of 22 representative units with all regions (3 under AddressSanitizer); lengths around buffer boundaries up to 4097; 6 outstanding character buffers",
                "thorough": "sequences of up to 5 (4) representatives"},
        assumptions=SEQ_ASSUME),
    "P05": dict(
        title="malformed modified UTF-8",
        bounds={"quick": "all byte strings of up to 5 bytes over 14 representative bytes with all regions (4 under AddressSanitizer), all byte pairs in 4 contexts, 10 breaks at 4 places in strings of up to 1025 characters",
                "thorough": "6 (5) bytes, all byte triples, 4097 characters"},
        assumptions=SEQ_ASSUME + ["an error is a C++ exception out of the call or a pending exception"]),
    "P06": dict(
        title="primitive arrays",
        bounds={"quick": "all 8 types; histories of 3 operations (2 under AddressSanitizer) on two arrays of up to 2 elements with outstanding element and critical pointers; lengths around boundaries up to 4097 with 30 regions each",
                "thorough": "histories of 4 (3) operations"},
        assumptions=SEQ_ASSUME + ["regions inside the array"]),
    "P07": dict(
        title="object arrays",
        bounds={"quick": "arrays of 6 element types (a chain of 5 classes and an unrelated one) made in 3 ways, 1 to 2 elements, 2 stores of any type through any view in any form, all elements read back through all views; lengths up to 1025; arrays of arrays; conversions between array types",
                "thorough": "3 stores, lengths up to 4097"},
        assumptions=SEQ_ASSUME + ["single inheritance chains", "the element type is the C++ element type of the array"]),
    "P08": dict(
        title="class lookup",
        bounds={"quick": "4 kinds of VM; histories of 4 operations (3 under AddressSanitizer) out of about 40: lookups, declarations, registrations (of a native type under a second name, too), member signatures and array creations over 13 names sharing packages, prefixes and nesting; all pairs of names of up to 4 (3) of the characters A b / $; up to 1025 (257) classes next to or within each other",
                "thorough": "histories of 5 (4) operations, names of 5 (4) characters, 4097 classes"},
        assumptions=SEQ_ASSUME),
    "P09": dict(
        title="member ids",
        bounds={"quick": "permissive, strict and auto-declaring VM; histories of 3 operations (2 in the other builds) out of 42 lookups and hooks of methods, static methods and constructors and out of 30 of fields over a base, a derived and an unrelated class, every id called and reflected after each; all pairs out of 9 names, 10 signatures and static-ness; up to 1025 (257) members; 5 hierarchies with several bases x all subsets of declaring classes x kinds of members",
                "thorough": "histories of 4 (3) operations, 4097 members"},
        assumptions=SEQ_ASSUME, variants="SEQ3"),
}
CHECKS["P10"] = dict(
        title="calls", variants="SEQ3", sources=[("p10/pairs%d.cpp" % i, "nonzero") for i in range(7)] + ["p10/lists.cpp"],
        bounds={"quick": "every signature of up to 5 parameters (4 in the other builds; 9 kinds of types, 13 up to 3 parameters) through static, virtual, non-virtual and constructor calls in the 3 forms and with every result type; parameter lists of up to 513 (65) parameters in 125 patterns; all values of 8 and 16 bit types and powers of two +-1 of the others and every exponent with NaN payloads as argument and result; hooked functions of all 169 pairs of parameter types in 4 shapes and 16 long lists in 6 shapes",
                "thorough": "signatures of up to 6 (5) parameters"},
        assumptions=SEQ_ASSUME + ["System V x86-64 calling convention"])
CHECKS["P11"] = dict(
        title="virtual dispatch",
        bounds={"quick": "6 hierarchies of 5 classes with java/lang/Object and an unrelated class: all subsets of implementing classes with all receivers, lookup classes and named classes in two orders of installation and lookup; histories of 3 operations (2 under AddressSanitizer) of implementing, re-implementing, static, other-signature and native members with every call after each, next to fields, constructors and overloads; all result types; chains of up to 12 classes and classes with up to 65 bases",
                "thorough": "histories of 4 (3) operations, up to 257 (65) bases"},
        assumptions=SEQ_ASSUME + ["the class an id was looked up in is the receiver's (virtual) or named (non-virtual) class or a base of it"])
CHECKS["P12"] = dict(
        title="pending exception", variants="SEQ3",
        bounds={"quick": "histories of 3 operations (2 in the other builds) out of all ways to throw, clear, query and call (all call kinds and result types, hooks throwing throwables and other C++ exceptions), of 4 (3) over two threads; calls nested up to 5 (4) deep through JNI and C++ with throwing, catching and clearing at every level; messages of up to 1025 (257) characters in 3 patterns",
                "thorough": "histories of 4 (3) and 5 (4) operations, nesting 7 (5), 4097 characters"},
        assumptions=SEQ_ASSUME)
CHECKS["P13"] = dict(
        title="fields", variants="SEQ3",
        bounds={"quick": "all types, static and instance, variables and getter/setter functions: histories of 3 operations (2 in the other builds) of JNI writes, C++ writes and reads over two objects and two ids; all boundary values of every type; 4 (3) operations on object fields over lifetimes of the stored objects; inheritance histories; fields lacking a getter or a setter; up to 513 (129) fields",
                "thorough": "3 values per type, histories of 5 (4) operations on object fields, up to 2049 (257) fields"},
        assumptions=SEQ_ASSUME + ["field access on null objects is outside the contract"])
CHECKS["P14"] = dict(
        title="registered natives",
        bounds={"quick": "histories of 4 operations (3 under AddressSanitizer) of registering, re-registering, unregistering, hooking and looking up over a base, a derived and an unrelated class, static and instance, two signatures, every native invoked from C++ after each; all result and parameter types; lists of up to 257 (65) natives in 3 orders; registration from within a native; all pairs of 54 names and signatures that differ in a part only in 3 orders",
                "thorough": "histories of 5 (4) operations, lists of up to 1025 (257)"},
        assumptions=SEQ_ASSUME + ["no hook with the name and signature of a registered native of the same class"])
CHECKS["P15"] = dict(
        title="subtype queries",
        bounds={"quick": "6 hierarchies of 5 classes with java/lang/Object and an unrelated class: all orders of registration with all subsets mentioned before, all pairs queried after each; 2 objects (1 under AddressSanitizer) of all classes handed out first as all base types in 7 ways; chains of 40 classes and classes with up to 20 bases, all pairs; all 100 hierarchies of 4 classes with up to two ordered bases each x 24 orders of registration x 4 schemes of names x 2 kinds of VMs; the classes of built-in objects",
                "thorough": "the same with 2 objects in all builds"},
        assumptions=SEQ_ASSUME + ["bases are declared by Extends and registered before the hierarchy is queried", "the class of an object is registered when it is handed out"])
CHECKS["P16"] = dict(
        title="deny rules",
        bounds={"quick": "all sequences of up to 3 rules (2 under AddressSanitizer) out of 27 method and 27 field rules against 48 queries of members and the query functions; up to 3 (2) of 6 class rules against all orders of lookups; histories of 4 (3) rules, lookups and declarations over a base, a derived and another class on two threads; constructors; up to 1025 (257) rules",
                "thorough": "class rules up to 4 (3), histories of 5 (4), up to 4097 rules"},
        assumptions=SEQ_ASSUME)
CHECKS["P17"] = dict(
        title="attached libraries",
        bounds={"quick": "all histories of 5 attachments, removals and changes of availability (4 under AddressSanitizer) over two of four kinds of paths with all 5 answers of the loader each, and of 4 (3) over loaders of their own per library and over entry points that use the VM, attach and remove libraries; up to 257 (65) libraries in 3 orders; the real loader on the program itself; strict and auto-declaring VM",
                "thorough": "histories of 7 (5) and 5 (4)"},
        assumptions=SEQ_ASSUME + ["the loader is simulated by the functions of LibraryOptions (except in the last part)", "an entry point does not attach or remove its own library"])
CHECKS["P18"] = dict(
        title="scoped environments",
        bounds={"quick": "histories of 6 scopes, references, attachments and detachments on one of two threads, of 5 on both (5 and 4 under AddressSanitizer), with all kinds of scopes and with references whose destructor uses a scope, thread end included; up to 257 (65) nested scopes and references; one VM for each of two threads",
                "thorough": "histories of 7 and 6, depth 1025 (257)"},
        assumptions=SEQ_ASSUME + ["explicit detaching only outside of scopes", "one VM of fake-jni for each thread at a time"])
CHECKS["P19"] = dict(
        title="environments of threads",
        bounds={"quick": "4 kinds of VMs: histories of 5 operations (4 for all but the plain VM and under AddressSanitizer) on two threads, of 4 (3) on three threads and on two threads attached to two VMs, out of all ways to attach, detaching, references, frames and exceptions, everything verified on every thread after each; up to 129 (33) threads in 3 orders",
                "thorough": "histories of 6 (5) and 5 (4), 257 (65) threads"},
        assumptions=SEQ_ASSUME + ["asking for the environment of an unattached thread attaches it", "threads detach before they end"])
CHECKS["P30"] = dict(
        title="default results", variants="SEQ3",
        bounds={"quick": "3 kinds of VMs with and without registered native types: 21 base types with up to 8 dimensions (5 in the other builds) as results of static, virtual and non-virtual calls in 3 forms, both kinds of fields and constructors, each repeated; 18 C++ result types of raising functions in 5 kinds of VMs; orders of 6 (5) registrations, lookups and calls of 5 types",
                "thorough": "up to 16 (8) dimensions, orders of 7 (6)"},
        assumptions=SEQ_ASSUME)
CHECKS["P31"] = dict(
        title="direct byte buffers",
        bounds={"quick": "19 addresses x 378 capacities x 12 ways of travelling x 4 kinds of VMs; 14 other objects through 4 kinds of references; all histories of 5 (trace build: 4) operations over buffers of overlapping memory",
                "thorough": "histories of 7 (6) operations"},
        assumptions=SEQ_ASSUME)
CHECKS["P34"] = dict(
        title="main functions",
        bounds={"quick": "3 kinds of VMs x 6 declarations x 13 argument arrays x 8 sets of decoys x 3 kinds of threads x 4 outcomes; all histories of 5 (trace build: 4) operations; up to 3 nested starts; up to 65 classes with 65 members, main at 9 places among them",
                "thorough": "histories of 7 (5) operations"},
        assumptions=SEQ_ASSUME + ["one class (or several through inheritance) declares main, as a static function or native"])
CHECKS["P35"] = dict(
        title="invocation from C++",
        bounds={"quick": "78 signatures of up to 22 arguments x 4 kinds of functions x 8 rotations of values x 2 results x 3 kinds of VMs; 64 sets of declarations x 2 orders x 3 VMs x 2 lookups x 3 receivers; histories of 3 (trace build: 2) raising invocations; lifetimes in 108 combinations",
                "thorough": "histories of 4 (3) raising invocations"},
        assumptions=SEQ_ASSUME)
CHECKS["P36"] = dict(
        title="hooked functions",
        bounds={"quick": "over 250 types of functions hooked once and twice in 3 classes against all signatures of up to two added, removed, exchanged or replaced parameters; every function called with all combinations of 5 kinds of objects x 3 kinds of references for parameters and receivers in 3 kinds of VMs (trace build: one); references deleted during the call; every function called 2 times (1) in all 30 kinds and result types, then correctly",
                "thorough": "calls of all kinds 3 times (2)"},
        assumptions=SEQ_ASSUME + ["receivers are not null"])
CHECKS["P37"] = dict(
        title="re-entrance",
        bounds={"quick": "27 kinds of code the VM runs for a caller x all sequences of up to 3 (AddressSanitizer: 2) of 26 inner operations; up to 2 (1) further levels of code run by inner operations, with sequences of 2 (1) operations in the innermost; every inner operation checked against its result outside, the outer one against its normal result",
                "thorough": "sequences of up to 4 (3), 3 (2) levels"},
        assumptions=SEQ_ASSUME + ["the VM is not being destroyed", "a destructor does not assign the very slot being assigned", "references made while their frame is released may end with it"])
CHECKS["P32"] = dict(
        title="described classes", variants=[("nonzero", "plain", True), ("trace", "asan", False), ("mcpelinux", "plain", False)],
        bounds={"quick": "3 kinds of VMs: all histories of 4 (other builds: 2) out of 28 operations over 6 described classes, then every member is used; 8 rotations of values x up to 3 VMs; refused descriptors; a class with 241 members",
                "thorough": "histories of 5 (3) operations"},
        assumptions=SEQ_ASSUME + ["base classes are known before a derived class is used", "described classes are registered with registerClass before members are expected"])
CHECKS["P33"] = dict(
        title="several VMs",
        bounds={"quick": "all histories of 5 (trace build: 4) out of 11 kinds of operations interleaved over 2 VMs of both kinds, everything observed in both after each; histories of 3 (2) over two VMs of 3 kinds with a thread each",
                "thorough": "histories of 6 (5) and 4 (3)"},
        assumptions=SEQ_ASSUME + ["objects are used in one VM only"])
CHECKS["P26"] = dict(
        title="generated stubs", run=p26.run, replay=p26.replay,
        technique="bounded exhaustive enumeration of declaration programs, each run on the implementation: its generated code is compiled against the library, bound in a strict VM and compared with the model of what was declared",
        bounds={"quick": "both syntaxes: each of 51 types in every place (fields, results, parameters, static and instance, constructors); all pairs of 8 types of parameters; parameter lists up to 33; all subsets of 6 kinds of members in 2 positions of a class and small and full subsets in 6 positions; all histories of up to 2 lookups out of 10 over nested, referring and array classes; up to 33 classes, packages, nested classes, members and levels",
                "thorough": "all subsets in all positions, both orders of every referred class, histories of 3, sizes up to 129"},
        assumptions=["a nested class is only used by members of its outer and its own class (C++ can't declare it elsewhere)", "names do not clash with members of the base class", "x86-64 Linux, g++ 13, C++17"])
CHECKS["P27"] = dict(
        title="signatures",
        bounds={"quick": "all strings of up to 6 characters (5 under AddressSanitizer) over ()[L;IJV/ and of up to 8 (6) over ()[L;DZ beginning with a bracket, parsed at both ends of guarded memory; all signatures of up to 4 (3) parameters out of 19 types; all changes of one character and truncations of all signatures of up to 3 (2) parameters of 6 types; up to 4097 (513) parameters, dimensions and characters; all strings of up to 4 (3) characters behind 3 prefixes as signatures of members looked up, called and generated; functions of 23 types in 10 shapes",
                "thorough": "strings of 8 (6) and 10 (7) characters, signatures of 5 (4) parameters, changes of 4 (3)"},
        assumptions=SEQ_ASSUME + ["only an argument type without terminator is required to be an error, other malformed strings just have to be read within their bounds"])
CHECKS["P28"] = dict(
        title="memory",
        bounds={"quick": "histories of up to 4 operations (3 under AddressSanitizer) of 34 on a plain VM and of up to 3 (2) on a strict VM, a fake-jni and a Baron one, each followed by the end of the VM; every pair of operations 20 (4) times in turns on all four; balanced sequences of one of up to 46 operations (two of them on the plain and the Baron VM in the plain build) over many rounds; objects, blocks and bytes counted",
                "thorough": "histories of up to 5 (3) and 4 (3), 100 (20) times, balanced sequences of 3 (2)"},
        assumptions=SEQ_ASSUME + ["no reference cycles of objects are made (objects are reference counted)", "what the first use keeps for good (static caches, the thread's own record) is not counted: a history has to leave nothing in one of 6 repetitions"])
CHECKS["P29"] = dict(
        title="function tables",
        bounds={"quick": "5 kinds of VMs (permissive, strict, with environments of its own, fake-jni, Baron): histories of 4 operations (3 under AddressSanitizer) out of adding hooks, attaching and detaching three threads, overriding tables with and without a changed identity, alone and with a second VM of 3 kinds, all functions of all environments compared after each; every single function set by a hook, by a hook with others and by an override; up to 513 (129) hooks",
                "thorough": "histories of 5 (4) operations, up to 4097 (513) hooks"},
        assumptions=SEQ_ASSUME + ["hooks are added while no other thread uses the VM", "a VM with its own CreateEnv runs the hooks"])
# ---- schedules
CONC_ASSUME = [
    "sequentially consistent memory: data races are reported as violations, and executions without races have sequentially consistent results",
    "preemption bound as stated; threads also switch wherever they block, end or yield",
    "decisions at every lock, once, guard and atomic operation of the library's code and of the standard containers instantiated in it",
    "x86-64 Linux, g++ 13, libstdc++, EnableJNIVMGC and JNI_DEBUG on",
]
CONC_TECH = "stateless model checking of the implementation: every schedule up to a preemption bound is executed under a controlled scheduler (one process per execution, happens-before state pruning), with race, lifetime, deadlock and termination monitors and a model of the allowed results"
def conc(title, quick, thorough, extra=[]):
    return dict(title=title, technique=CONC_TECH, variants=[("nonzero", "tsan", True)], bounds={"quick": quick, "thorough": thorough}, assumptions=CONC_ASSUME + extra)
CHECKS["P20"] = conc("concurrent lookups",
    "permissive and strict VM, 18 lookups, declarations, array creations and calls with default results over colliding names: all pairs of operations of two threads with 2 preemptions, all a;b against b;a with 1, three threads (18 x 4) with 1; later lookups compared with what every thread got",
    "3 preemptions for two threads, 18 x 18 x 3 threads with 2",
    ["a strict VM knows the class of arrays of a class once such an array exists"])
CHECKS["P21"] = conc("concurrent references",
    "one object named by a global reference that is deleted while others use it, 12 operations (promote, compare, weak of weak, delete own, frames...): deletion against all pairs of operations with 2 preemptions; operations around the deletion, sequences of up to 4 operations and three threads with 1; references passed between threads in 4 ways with 2; results compared with every order of the operations",
    "3 preemptions (4 for passing) and 2",
    ["an operation on a weak reference may hold its object while it runs"])
CHECKS["P22"] = conc("concurrent attach and detach",
    "plain VM and fake-jni VM, 12 operations out of all ways to attach, query, use and detach an environment: all pairs of sequences of up to 3 with 2 preemptions; objects with 4 kinds of destructors calling the VM released by a detaching thread against 6 uses with 2; attaching again against all others and three threads with 1",
    "a Baron VM too, 3 and 2 preemptions",
    ["destructors do not call a VM that is being destroyed"])
CHECKS["P23"] = conc("monitors",
    "programs of up to 4 operations entering, re-entering and leaving monitors of one or two objects through 4 kinds of references: all pairs with 1 preemption, with 2 for one choice of references, triples with 1; monitors of classes, strings, arrays and throwables; independent monitors; waiting threads proceeding (handing over a baton)",
    "4 preemptions for two threads, 3 for the baton, 2 for three threads",
    ["a monitor is left by its owner"])
CHECKS["P24"] = conc("concurrent calls",
    "25 operations (all kinds of calls, exceptions, fields, arrays, strings, natives, hooks called from C++, reflection, classes of new objects) on shared classes and objects: all pairs with 2 preemptions, all a;b against b;a with 1, a third of the triples a,b,a+b with 1; registering, unregistering and looking up natives: all pairs with 2, all pairs of sequences of two with 1",
    "3 preemptions for two threads, 4 for registrations, 2 for sequences and all triples",
    ["a native is not called while another thread unregisters or replaces it"])
CHECKS["P25"] = conc("concurrent described classes",
    "three described classes in a chain registered in 2 orders, 16 operations (descriptors, objects made by JNI and C++, members, subtype queries, arrays, calls from C++): all pairs with 1 preemption, 8 against themselves with 2, half of a;b against b;a and a third of the triples with 1; the set of members unchanged and every operation working afterwards",
    "all pairs with 2, every operation against itself and one other with 3, all sequences and triples with 2",
    ["classes are registered before the threads start"])
