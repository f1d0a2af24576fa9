#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one dict per property)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Local references live exactly as long as their frame",
  "A local reference denotes its object and keeps it alive from the call that returned it until that reference is deleted, its frame is popped, or its thread detaches, whatever reference and frame operations happen in between. Popping a frame releases exactly the references made in it since its push, keeps every outer frame intact, and re-homes the given result as a usable reference in the enclosing frame. Several local references to one object count separately: deleting one releases one.",
  ["histories"], "Every history, to the explored length, of push/pop frame (all capacities and all possible results), create, duplicate, delete and ensure-capacity calls, over several objects and nesting depths.",
  "Tests pop at most one or two frames in one fixed order; frame recycling and duplicate counting only matter over arbitrary interleaved histories.",
  ["src/jnivm/vm.cpp", "include/jnivm/env.h", "include/jnivm/jnitypes.h"],
  [("PushLocalFrame/PopLocalFrame frame list and free list", "src/jnivm/vm.cpp"), ("ToJNIType registers every returned object", "include/jnivm/jnitypes.h")],
  ["object destruction", "return values of the reference functions"],
  [("localframe/freeframes", "stack of live frames and pool of cleared frames", "include/jnivm/env.h")])

p("P02", "Global and weak references: lifetime, promotion, kind, identity",
  "A global reference keeps its object alive and usable until that very handle is deleted; a weak global reference never keeps it alive, denotes it while it lives and acts as null once it is gone, and a reference created from it is strong. Deleting a handle releases it, also once its object is gone, and never affects another handle to the same object. Object identity comparison depends only on the denoted objects - also for classes, equal strings and other built-in objects - and the reported reference kind only on the kind of handle.",
  ["histories"], "Every history, to the explored length, of creating, promoting, deleting and comparing local, global and weak handles over several objects, including handles created from handles and handles observed after their object died.",
  "Tests exercise single promotions; lost-handle and wrong-handle-deleted errors need particular orders of creation and deletion.",
  ["src/jnivm/vm.cpp", "include/jnivm/weak.h", "include/jnivm/jnitypes.h", "include/jnivm/vm.h"],
  [("Global/Weak wrapper objects owned by the VM's global list", "src/jnivm/vm.cpp"), ("UnpackJObject strips wrappers", "include/jnivm/jnitypes.h")],
  ["object destruction", "IsSameObject", "GetObjectRefType", "resolved objects"],
  [("globals", "all global and weak handles", "include/jnivm/vm.h")])

p("P03", "Every reference kind is accepted wherever a reference is",
  "Every JNI operation that takes an object, class, string, array, throwable or buffer gives the same result and effect whether it is handed a local, a global or a live weak global reference to it, in any combination over its operands. An object stored through any kind of reference (into an array, a field, as the pending exception, as an initial array element or as a call argument) is the object itself, kept alive by the place it is stored in.",
  ["programs", "inputs"], "Every reference-taking function of the JNI table times every combination of reference kinds for its operands.",
  "Tests use local references almost everywhere; the product of functions and reference kinds is never enumerated.",
  ["src/jnivm/vm.cpp", "src/jnivm/internal/array.cpp", "src/jnivm/internal/field.cpp", "src/jnivm/internal/method.cpp", "src/jnivm/internal/string.cpp", "src/jnivm/internal/bytebuffer.cpp", "include/jnivm/jnitypes.h"],
  [("JNICast / UnpackJObject at every entry point", "include/jnivm/jnitypes.h")], ["results and effects of every reference-taking JNI function"])

p("P04", "UTF-16 and modified UTF-8 views of a string agree",
  "A string made from UTF-16 units reads back, whole or by any region, as exactly those units; its modified UTF-8 form is the standard encoding of them (embedded U+0000 and surrogates included) and its reported lengths match. A string made from modified UTF-8 reads back as the same bytes and as the units they encode, and UTF-8 regions are addressed in UTF-16 units and null-terminated. Characters handed out as a private copy are reported as one (isCopy).",
  ["inputs"], "All 65536 UTF-16 units, all short unit strings over a boundary alphabet, all (start, length) regions of them, and long strings around size boundaries.",
  "Tests check a few literals; encoding-length boundaries and region offsets inside mixed-width strings are not enumerated.",
  ["src/jnivm/internal/string.cpp", "src/jnivm/internal/stringUtil.cpp"],
  [("JCharToUTF/UTFToJChar codec", "src/jnivm/internal/stringUtil.cpp"), ("region walkers", "src/jnivm/internal/string.cpp")],
  ["GetStringLength", "GetStringChars", "GetStringRegion", "GetStringUTFLength", "GetStringUTFChars", "GetStringUTFRegion"])

p("P05", "Malformed modified UTF-8 is rejected, never misread",
  "Asking for the UTF-16 length, characters or a region of a string whose bytes are not structurally well-formed modified UTF-8 (every lead byte of one to three byte sequences followed by its continuation bytes) up to the point needed raises an error instead of returning characters, and never reads outside the string's bytes or writes outside the destination. Well-formed strings are never rejected.",
  ["inputs"], "All byte strings up to the explored length over an alphabet that contains every class of lead and continuation byte, including truncated sequences at the very end.",
  "Tests feed a handful of malformed byte sequences.",
  ["src/jnivm/internal/stringUtil.cpp", "src/jnivm/internal/string.cpp"],
  [("UTFToJCharLength validation", "src/jnivm/internal/stringUtil.cpp")], ["exceptions thrown", "returned units", "memory accesses (address sanitizer)"])

p("P06", "Primitive arrays are fixed-length, zeroed, and region-exact",
  "A new primitive array of any of the eight element types has exactly the requested length, all elements zero, and the array class of that type. Writing a region changes exactly the addressed elements, reading a region copies exactly them, and the element pointer, the critical pointer and the C++ view all see the same storage in whatever order they are used; release in any mode loses nothing. Element pointers are never null, also of empty arrays, and are reported as no copies.",
  ["inputs", "histories"], "All eight element types, all lengths in range plus size boundaries, all valid (start, length) regions, and all short histories of region, element-pointer, critical and release operations.",
  "Tests touch one boolean array; off-by-one and wrong-element-size errors need the product of type, offset and length.",
  ["src/jnivm/internal/array.cpp", "include/jnivm/array.h", "src/jnivm/vm.cpp"],
  [("typed Array storage", "include/jnivm/array.h"), ("Get/SetArrayRegion", "src/jnivm/internal/array.cpp")], ["array contents through each access path", "GetObjectClass of the array"])

p("P07", "Object arrays store references faithfully under every view",
  "Each element of an object array reads back as the identical object last stored at that index, and null when cleared or never stored, whatever kind of reference or pointer (also to a derived type) stored it and whichever view wrote and reads it: the JNI functions, the array's own C++ element type, or a view as an array of any direct or transitive base in a single-inheritance chain. Elements are kept alive exactly while stored; storing an object that is not an instance of the array's native element type raises an error and leaves the array unchanged; initial elements fill every slot.",
  ["histories", "inputs"], "All short histories of stores, clears and reads over single-inheritance hierarchies with up to three levels below the root, through every view, and all lengths in range.",
  "Tests read one array through one base view; the element conversion differs for every (element type, view) pair.",
  ["src/jnivm/internal/array.cpp", "include/jnivm/array.h", "include/jnivm/extends.h", "include/jnivm/jnitypes.h"],
  [("covariant Array template overrides", "include/jnivm/array.h"), ("Get/SetObjectArrayElement", "src/jnivm/internal/array.cpp")], ["array elements", "object destruction", "exceptions"])

p("P08", "Class lookup is a stable function of the class name",
  "Looking up the same name always yields the same class, different names always yield different classes, and a class reports the name it was looked up by, for packages, nested ($) classes and array names, in whatever order names are first mentioned (by lookup, by registering a native type, by appearing in a member's signature, or by creating an array). A native type registered under a name is bound to that very class whether it was looked up before or after. In strict mode looking up a name nobody declared or mentioned before yields null and declares nothing.",
  ["histories", "configurations"], "All short histories of lookups, registrations, signature mentions and array creations over a set of names sharing packages, prefixes and nesting, in permissive and strict mode.",
  "Tests look a few names up once each; aliasing between prefix-related names and order of first mention is not explored.",
  ["src/jnivm/internal/findclass.cpp", "src/jnivm/env.cpp", "include/jnivm/env.h", "src/jnivm/vm.cpp"],
  [("InternalFindClass walks the namespace tree / class map", "src/jnivm/internal/findclass.cpp")], ["FindClass", "class identity and name", "VM class list"],
  [("classes / np", "class registry by name and by namespace", "include/jnivm/vm.h")])

p("P09", "Method and field IDs identify exactly one member, for good",
  "For a class, a member name, a signature and static-or-instance, lookup always returns the same ID, from its first lookup or implementation on; different ones get different IDs; members declared in a base class are found through derived classes with the base's ID, unless the derived class declares or implements that member itself; of several bases the one declared first is searched first, with all of its own bases. An ID obtained before the member is implemented behaves, once it is, exactly like one obtained afterwards, and converting an ID to a reflected object and back returns the same ID. In strict mode an undeclared member yields a null ID and declares nothing.",
  ["histories", "configurations"], "All short histories of method and field lookups, hook installations and reflection conversions over a small hierarchy with colliding names, signatures and static-ness, in permissive and strict mode.",
  "Tests look up and call individual members; identity across collisions, hierarchies and hook order is not enumerated.",
  ["src/jnivm/internal/method.cpp", "src/jnivm/internal/field.cpp", "include/jnivm/hookManager.h", "src/jnivm/vm.cpp"],
  [("GetMethodID/GetFieldID search and creation", "src/jnivm/internal/method.cpp"), ("hook install reuses an existing member", "include/jnivm/hookManager.h")], ["member IDs", "behaviour of calls through them"],
  [("Class methods/fields", "members by name, signature and staticness", "include/jnivm/class.h")])

p("P10", "Arguments and results cross the call boundary unchanged",
  "Calling a hooked static, instance or constructor function through any of the three calling forms (variadic, va_list, value array) delivers every argument of every JNI type, in order and bit for bit, to the implementation with the right environment, class or receiver, and returns the implementation's result bit for bit. Objects arrive as the identical object, null arrives as null, and what applies to one argument count and type mix applies to all.",
  ["inputs", "programs"], "All parameter type pairs, long mixed parameter lists, boundary values of each type, every return type, every calling form, static/instance/non-virtual/constructor.",
  "Tests call a few signatures by one form; promotion and width errors show only for particular type, position and value combinations.",
  ["src/jnivm/internal/method.cpp", "src/jnivm/internal/jValuesfromValist.cpp", "include/jnivm/wrap.h", "include/jnivm/jnitypes.h", "src/jnivm/method.cpp"],
  [("va_list to jvalue conversion", "src/jnivm/internal/jValuesfromValist.cpp"), ("Wrap/Obj unpack jvalues", "include/jnivm/wrap.h")], ["arguments seen by hooked functions", "returned values"])

p("P11", "Virtual calls run the most derived implementation",
  "A virtual call through any ID of an instance method runs the implementation of the nearest class, starting at the receiver's own class and going up its base classes (first declared base first, depth first), that implements that name and signature; a non-virtual call does the same starting from the named class; in both cases the receiver is unchanged and sibling or unrelated classes are never consulted. This holds for every choice of which classes implement the method and of the class the ID was looked up in, as long as the receiver's (virtual) or named (non-virtual) class is or derives from that class.",
  ["programs", "configurations"], "All subsets of implementing classes over linear and multiple-inheritance hierarchies, times receiver class, class used for the lookup, class named in the non-virtual call, and order of hook installation.",
  "Tests cover one two-level override; intermediate overrides and missing overrides need the subset enumeration.",
  ["src/jnivm/internal/method.cpp", "include/jnivm/extends.h"],
  [("findVirtualOverload / findNonVirtualOverload", "src/jnivm/internal/method.cpp")], ["which implementation ran", "receiver identity"])

p("P12", "One pending exception, set and cleared exactly when specified",
  "An exception thrown through the throw functions or escaping a called method implementation becomes the thread's pending exception, reported by the check and occurred functions as that same exception with the same message or type until it is cleared or replaced, and only for the thread that raised it. Calls that complete normally, and describing the exception, never set or clear it; the call that raised returns the default value. Native code invoked from C++ rethrows the pending exception to the C++ caller.",
  ["histories"], "All short histories of throw, throw-new, check, occurred, describe, clear and calls that return or throw in every calling form.",
  "Tests throw once and check once.",
  ["src/jnivm/vm.cpp", "src/jnivm/internal/method.cpp", "include/jnivm/method.h", "include/jnivm/throwable.h"],
  [("current_exception per environment", "include/jnivm/env.h"), ("catch-all around every dispatch", "src/jnivm/internal/method.cpp")], ["ExceptionCheck", "ExceptionOccurred", "exceptions rethrown to C++"])

p("P13", "Fields read back what was last written",
  "Reading a hooked static or instance field of any JNI type through an ID returns bit for bit the value last written to that field of that very object (or class), whether written through JNI, through the C++ variable, or by a setter function; no other object's or type's field changes. Getter and setter functions are invoked exactly once per access with the right object and value, and accessing an unimplemented field has no effect and yields the default value.",
  ["histories", "inputs"], "All nine field types with boundary values, static and instance, member pointers, plain pointers and getter/setter functions, all short write/read histories over two objects with several fields.",
  "Tests cover boolean and string fields with single writes.",
  ["src/jnivm/internal/field.cpp", "include/jnivm/wrap.h", "include/jnivm/hookManager.h", "include/jnivm/field.h"],
  [("GetField/SetField dispatch to handles", "src/jnivm/internal/field.cpp"), ("property wrappers", "include/jnivm/wrap.h")], ["Get/Set<Type>Field results", "C++ variables"])

p("P14", "Registered natives run the function registered last",
  "After native functions are registered for a class, invoking such a method by name and signature from C++ on that class, a derived class or an object runs exactly the function most recently registered for that name and signature, with the given arguments and its result returned; after unregistering, none of that class's native methods can be found and all its other members still work. Natives of other classes and other signatures are unaffected.",
  ["histories"], "All short histories of register (one or several entries, repeated and overlapping) and unregister over several classes, names and signatures, invoking everything after each step.",
  "Tests register once and invoke once.",
  ["src/jnivm/vm.cpp", "src/fake-jni/method.cpp", "include/jnivm/method.h", "src/jnivm/internal/method.cpp"],
  [("RegisterNatives/UnregisterNatives edit the class's methods", "src/jnivm/vm.cpp"), ("Method::invoke calls the native pointer", "include/jnivm/method.h")], ["which native ran", "lookup results"])

p("P15", "Subtype queries follow the declared hierarchy",
  "A class is assignable to another exactly when they are the same class or the other is reachable through declared (Extends) base classes and interfaces, and an object is an instance of exactly the classes its own class is assignable to, in particular never of a derived or sibling class. The reported superclass is the first declared base, and an object's class is the class it was created or first handed out as.",
  ["inputs", "configurations"], "All ordered pairs of classes of several hierarchies (chains, diamonds, multiple interfaces, unrelated), all objects, all orders of registration and first use.",
  "Tests check a couple of positive pairs.",
  ["src/jnivm/vm.cpp", "include/jnivm/extends.h", "include/jnivm/env.h"],
  [("HasBaseClass recursion over declared bases", "src/jnivm/vm.cpp")], ["IsAssignableFrom", "IsInstanceOf", "GetSuperclass", "GetObjectClass"])

p("P16", "Deny rules are enforced exactly",
  "In the auto-declaring VM, looking up a class, method or field that nobody declared or mentioned before yields null exactly when some deny rule matches it, where an omitted name, signature or class in a method or field rule matches anything; otherwise it is declared and found from then on. Deny rules never hide what is already declared or inherited, and never match anything they do not name, regardless of the number and order of rules.",
  ["configurations", "histories"], "All sets of up to three rules over a small universe of names, signatures and classes (with wildcards) times all queries, before and after the member is declared.",
  "Tests use a couple of rules and queries.",
  ["src/baron/jvm.cpp", "include/baron/baron.h"],
  [("isClassDenied/isMethodDenied/isFieldDenied", "src/baron/jvm.cpp"), ("environment table overrides", "src/baron/jvm.cpp")], ["FindClass", "GetMethodID", "GetFieldID", "is*Denied"])

p("P17", "Attached libraries are loaded and unloaded exactly once",
  "Attaching a library opens it once and calls its load function once with the VM; attaching an already attached path changes nothing. Removing it, or destroying the VM, calls its unload function once and closes it once, after which it can be attached again; a library that cannot be opened, or lacks the entry points, is skipped without touching any other library.",
  ["histories", "fault_sequences"], "All short histories of attach, remove and VM destruction over several paths (including built-in library names), times every combination of open and symbol lookup failures.",
  "Tests attach one library once with fixed answers.",
  ["src/fake-jni/fake-jni.cpp", "include/fake-jni/fake-jni.h", "include/fake-jni/libraryoptions.h"],
  [("libinst constructor/destructor", "src/fake-jni/fake-jni.cpp"), ("libraries map", "include/fake-jni/fake-jni.h")], ["sequence of dlopen/dlsym/dlclose and load/unload calls"])

p("P18", "Scoped environments attach and detach exactly their own thread",
  "Creating a scoped environment or local frame on a thread without an environment attaches it and destroying that scope detaches it; on an attached thread, scopes nest freely and leave the thread attached and its outer references intact. Local references made inside a local frame scope are released when it ends and no sooner, and a scope created without a VM on an unattached thread reports an error on use.",
  ["histories"], "All short properly nested histories of opening and closing scopes of each kind, creating references at each level, on the creating thread and on a fresh thread, with explicit attach calls anywhere and explicit detach calls outside of any scope.",
  "Tests use one scope per thread.",
  ["src/fake-jni/fake-jni.cpp", "include/fake-jni/fake-jni.h", "src/fake-jni/jvm.cpp"],
  [("JniEnvContext/LocalFrame constructors and destructors", "src/fake-jni/fake-jni.cpp")], ["current environment of the thread", "object destruction"])

p("P19", "Each attached thread has exactly one environment of its own",
  "Attaching a thread, attaching it again, as daemon or not, and asking for the environment all yield that thread's one environment until it detaches; different threads get different environments; every environment leads back to its VM. Local references, frames and the pending exception belong to one thread's environment only, and detaching releases that thread's local references and nothing else.",
  ["histories"], "All short histories of attach, attach-as-daemon, get-environment, get-VM, create reference, raise and detach issued by two or three threads in every order, over one or two VMs.",
  "Tests attach from the main thread only.",
  ["src/jnivm/vm.cpp", "include/jnivm/vm.h", "src/jnivm/env.cpp"],
  [("invocation table lambdas and per-thread environment map", "src/jnivm/vm.cpp")], ["JNIEnv pointers", "object destruction", "ExceptionCheck"],
  [("jnienvs", "environment of each attached thread", "include/jnivm/vm.h")])

p("P20", "Concurrent lookups agree on one class and one member",
  "When several threads look up the same or different classes, methods and fields at the same time, in permissive or strict mode, every thread gets the same class or ID for the same name as any other and as later lookups, no declaration is lost or duplicated, and no lookup crashes, deadlocks or accesses shared data without synchronization. Signatures that mention new classes, arrays created concurrently and default return values are included.",
  ["schedules"], "All interleavings, to the preemption bound, of two or three threads each performing one to three lookups, declarations, array creations or calls with default results on colliding names.",
  "No test starts a second thread.",
  ["src/jnivm/internal/findclass.cpp", "src/jnivm/internal/method.cpp", "src/jnivm/internal/field.cpp", "src/jnivm/vm.cpp", "src/jnivm/env.cpp", "include/jnivm/env.h", "src/jnivm/internal/array.cpp"],
  [("VM mutex around the class registry", "src/jnivm/vm.cpp"), ("class mutex around member lists", "src/jnivm/internal/method.cpp")], ["returned handles", "data races", "deadlocks"])

p("P21", "Concurrent reference operations never lose or corrupt a handle",
  "Threads creating, promoting, comparing and deleting global and weak references and passing objects between each other at the same time observe each handle as valid from its creation to its deletion, delete exactly their own handles, and leave no handle behind; a weak reference being promoted while the last strong reference goes away yields either the live object or null. No such execution crashes, deadlocks or accesses shared data without synchronization.",
  ["schedules"], "All interleavings, to the preemption bound, of two or three threads each performing short sequences of global/weak reference creation, promotion, comparison, use and deletion on shared objects.",
  "No test starts a second thread.",
  ["src/jnivm/vm.cpp", "include/jnivm/jnitypes.h", "include/jnivm/weak.h"],
  [("VM mutex around the global list", "src/jnivm/vm.cpp")], ["handles", "object destruction", "data races"])

p("P22", "Concurrent attach and detach keep environments separate",
  "Threads attaching, using, querying and detaching environments at the same time, by invocation functions or scoped helpers, each get their own environment, keep it valid until their own detach, and never disturb another thread's; local references of a detaching thread are released even when releasing them calls back into the VM (looking up classes, querying or attaching and detaching the environment). No such execution crashes, deadlocks or accesses shared data without synchronization.",
  ["schedules"], "All interleavings, to the preemption bound, of two or three threads each performing attach, get-environment, reference creation and detach, including objects whose destruction calls the VM.",
  "No test starts a second thread.",
  ["src/jnivm/vm.cpp", "src/fake-jni/jvm.cpp", "src/fake-jni/fake-jni.cpp"],
  [("VM mutex around the environment map", "src/jnivm/vm.cpp")], ["JNIEnv pointers", "data races", "deadlocks"])

p("P23", "Monitors give mutual exclusion per object",
  "Between entering and leaving an object's monitor no other thread is inside the monitor of the same object, through whatever references the threads name it; the owner may re-enter and must leave as often as it entered; monitors of different objects are independent. A waiting thread proceeds once the monitor is free.",
  ["schedules"], "All interleavings, to the preemption bound, of two or three threads entering, re-entering and leaving monitors of one or two objects through local, global and weak references.",
  "The only monitor test has a single thread.",
  ["src/jnivm/vm.cpp", "include/jnivm/object.h"],
  [("recursive mutex in every object", "include/jnivm/object.h")], ["critical section overlap", "deadlocks"])

p("P24", "Concurrent calls do not interfere",
  "Threads calling methods, accessing fields and arrays, handling exceptions and registering natives at the same time on shared classes get exactly the results they would get alone: each call runs the right implementation with its own arguments, exceptions stay with the thread that raised them, and registering or unregistering natives concurrently with lookups leaves a consistent class. No such execution crashes, deadlocks or accesses shared data without synchronization.",
  ["schedules"], "All interleavings, to the preemption bound, of two or three threads each performing short sequences of calls, field and array accesses, exception operations, native registration and object class queries on shared classes and objects.",
  "No test starts a second thread.",
  ["src/jnivm/internal/method.cpp", "src/jnivm/internal/field.cpp", "src/jnivm/vm.cpp", "include/jnivm/jnitypes.h", "src/fake-jni/method.cpp"],
  [("class mutex around method lists", "src/jnivm/vm.cpp"), ("per-thread environment state", "include/jnivm/env.h")], ["call results", "data races", "deadlocks"])

p("P25", "Concurrent use of described native classes is safe",
  "Threads that concurrently create objects of registered native classes described by a native descriptor and use them, their descriptor, members and subtype relations for the first time agree on one class with one complete set of members, and every member works on every thread. No such execution crashes, deadlocks or accesses shared data without synchronization.",
  ["schedules"], "All interleavings, to the preemption bound, of two threads querying the descriptor, class, members and subtype relations of described classes that have been registered.",
  "No test starts a second thread.",
  ["include/fake-jni/fake-jni.h", "include/jnivm/env.h", "include/jnivm/extends.h"],
  [("getDescriptor on every class query", "include/fake-jni/fake-jni.h")], ["class and member lookups", "data races"])

p("P26", "Generated stubs compile and declare everything that was used",
  "For any set of classes, methods, constructors and fields looked up through a permissive VM (distinct valid C++ names, no overloads), the generated header and stubs in either syntax compile against the library, and after running the generated binding in a strict VM every recorded class, method and field is found under the same name, signature and static-ness. Native methods and built-in classes are not emitted.",
  ["programs"], "All programs of up to a few lookups over a small universe of classes (packaged, nested), member kinds and parameter and return types, in both generator syntaxes.",
  "One fixed program is generated and compiled.",
  ["src/jnivm/internal/codegen/class.cpp", "src/jnivm/internal/codegen/field.cpp", "src/jnivm/internal/codegen/method.cpp", "src/jnivm/internal/codegen/namespace.cpp", "src/jnivm/internal/codegen/parseJNIType.cpp", "src/jnivm/internal/codegen/vm.cpp"],
  [("Generate* functions over the namespace tree", "src/jnivm/internal/codegen/class.cpp")], ["generated source", "strict lookups after binding"])

p("P27", "Signatures are parsed exactly, malformed ones without overrun",
  "For every well-formed method signature the argument list is read as exactly its parameters, whatever their number, order, array depth and class names, and the signature derived from a native function's type is the standard JNI signature of that function. For every string, well-formed or not, parsing stays inside the string and terminates; an argument type without its terminator is reported as an error.",
  ["inputs"], "All strings up to the explored length over the signature alphabet, all well-formed signatures up to four parameters over all types, and all single-character corruptions and truncations of them.",
  "Tests parse a dozen signatures.",
  ["src/jnivm/internal/jValuesfromValist.cpp", "src/jnivm/internal/skipJNIType.cpp", "src/jnivm/internal/codegen/parseJNIType.cpp", "include/jnivm/wrap.h", "include/jnivm/jnitypes.h"],
  [("JValuesfromValist", "src/jnivm/internal/jValuesfromValist.cpp"), ("SkipJNIType", "src/jnivm/internal/skipJNIType.cpp")], ["argument values", "exceptions", "memory accesses (address sanitizer)"])

p("P28", "The VM owns nothing beyond its end",
  "After a VM is destroyed, every object that was reachable only through it (through local references of any attached thread, globals, arrays, fields, pending exceptions, classes) has been destroyed exactly once and all memory allocated on its behalf has been returned, for any history of use; objects still held by C++ code survive it. Repeating a balanced sequence of operations does not accumulate memory in the VM.",
  ["histories"], "All short histories over the whole JNI surface followed by VM destruction, and every single operation of the surface repeated in a balanced loop.",
  "Tests never look at what is left after a VM is gone.",
  ["src/jnivm/vm.cpp", "src/jnivm/internal/array.cpp", "src/jnivm/internal/string.cpp", "include/jnivm/array.h", "include/jnivm/env.h"],
  [("shared ownership of every object", "include/jnivm/object.h")], ["allocation balance", "object destruction"])

p("P29", "Function-table customisation reaches every environment",
  "A hook added to the VM, or an override of a function table, is in effect in every environment created afterwards on any thread, sees the changes of hooks added before it, and replaces exactly the functions it sets while all others keep their behaviour. Environments of other VMs are unaffected, and every environment and VM handle, customised or not, still leads back to its own VM and environment; an attempt to replace the identity slot of a table is refused.",
  ["configurations", "histories"], "All sequences of up to three hooks over a small set of table entries times environments created before and after on one or two threads and VMs.",
  "Tests install a hook once.",
  ["src/jnivm/vm.cpp", "src/jnivm/env.cpp", "src/baron/jvm.cpp", "src/fake-jni/jvm.cpp", "include/jnivm/vm.h"],
  [("CreateEnv applies hooks to a copy of the template", "src/jnivm/vm.cpp"), ("OverrideJNINativeInterface / OverrideJNIInvokeInterface", "src/jnivm/env.cpp")], ["table entries in effect", "FromJNIEnv/FromJavaVM results"])

p("P30", "Calls without implementation give the documented default result",
  "Calling a method or constructor, or reading a field, that is declared but not implemented, or whose implementation raised, returns zero for every primitive type and, for object types, null where the library is built without non-zero results. With non-zero results it returns a new local reference to a new object of exactly the declared type: an empty array for array types of any dimension and element type, a default-constructed native object where the class's native type has a default constructor, and a plain object where no native type is registered; only classes whose native type lacks a default constructor give null. It declares no member, raises nothing of its own and keeps nothing alive.",
  ["programs", "inputs", "configurations"], "All primitive types, built-in, registered and undeclared classes and arrays of them of several dimensions, as results of static, virtual, non-virtual and constructor calls in all three calling forms and of fields, in permissive, strict, fake-jni and Baron VMs, and all short orders of registering the native types, looking classes up and calling.",
  "Tests look at two or three default results; every type and dimension is its own path.",
  ["src/jnivm/internal/method.cpp", "src/jnivm/internal/field.cpp", "include/jnivm/env.h", "README.md"],
  [("defaultVal", "src/jnivm/internal/method.cpp"), ("Factory::CreateLambda", "include/jnivm/env.h")], ["returned values", "classes of returned objects", "object destruction"])

p("P31", "Direct byte buffers carry address and capacity unchanged",
  "A buffer made by NewDirectByteBuffer (or from a native ByteBuffer object) reports exactly the address and the capacity it was given - every pointer value and every jlong - through every kind of reference, as an element of an array, as a field, argument or result, and to native code; the library never reads, writes or frees the memory itself. Every buffer is a new object of class java/nio/ByteBuffer, also over the same memory, and lives as long as a strong reference to it does. Null, cleared weak references and objects that are no buffers have the address null and the capacity -1.",
  ["inputs", "histories"], "All boundary addresses x all powers of two and their neighbours of both signs as capacities x 12 ways a buffer travels x 4 kinds of VMs; all kinds of other objects; all histories of buffers over overlapping memory up to the stated depth.",
  "There is no test of direct buffers.",
  ["src/jnivm/internal/bytebuffer.cpp", "include/jnivm/bytebuffer.h", "include/jnivm/jnitypes.h"],
  [("jnivm::NewDirectByteBuffer", "src/jnivm/internal/bytebuffer.cpp"), ("jnivm::GetDirectBufferCapacity", "src/jnivm/internal/bytebuffer.cpp")], ["returned values", "native objects", "object destruction"])

p("P34", "Starting a fake-jni VM runs its main function exactly once",
  "Jvm::start calls the one static function main with the signature ([Ljava/lang/String;)V that a class of the VM declares - through createMainMethod with either kind of callback, a hook of a native class or a registered native - exactly once, on the calling thread with an environment attached, passing the very array given (also null) or, without arguments, an array holding the one string \"main\". Creating the main method again replaces the previous one. What main throws (or leaves pending) comes out of start as it was thrown. Afterwards the thread has the frames, references and attachment it had before and nothing keeps the arguments. Without such a function start throws and calls nothing: functions of another name or signature are never taken for main.",
  ["programs", "inputs", "histories", "faults"], "Three kinds of VMs x 6 ways of declaring x argument arrays x decoy functions x kinds of threads x ways of failing; all histories of creating, starting, failing, detaching and new VMs up to the stated depth; nested starts.",
  "No test starts a VM.",
  ["src/fake-jni/fake-jni.cpp", "src/fake-jni/method.cpp", "include/fake-jni/fake-jni.h", "include/jnivm/method.h"],
  [("Jvm::start", "src/fake-jni/fake-jni.cpp"), ("createMainMethod", "src/fake-jni/fake-jni.cpp")], ["calls and their arguments", "exceptions", "local frames"])

p("P35", "Invoking methods from C++ selects, passes and returns like JNI calls",
  "On a thread of a fake-jni VM, Class::getMethod(signature, name) finds what is declared in the class or its bases and declares nothing. Invoking the result with a class runs the static function, with an object the implementation of the nearest class of the receiver; the registered native function (which gets the class or the object) is run only if no function is declared. Every argument and the result arrive bit by bit for all types, numbers and orders of arguments; objects keep their identity and are not kept alive. If nothing of the needed kind exists invoke throws std::runtime_error and runs nothing; a method that is static in one place and not in another can't be converted to one Method. An exception raised by the function comes out of invoke with its own type and value, and after ExceptionClear the next invocation is unaffected.",
  ["inputs", "programs", "histories", "faults"], "78 signatures x static, instance and both kinds of native invocations x values; all 64 combinations of static, instance and native declarations in two classes x both lookups x three receivers; histories of raising invocations; lifetimes.",
  "Tests invoke one method; which of several declarations is run and how arguments are passed to natives is never tested.",
  ["include/jnivm/method.h", "src/jnivm/method.cpp", "src/fake-jni/method.cpp", "src/jnivm/internal/method.cpp"],
  [("Class::getMethod", "src/fake-jni/method.cpp"), ("Method::jinvoke", "src/jnivm/method.cpp"), ("MethodProxy", "include/jnivm/method.h")], ["called functions, arguments and results", "exceptions", "object destruction"])

p("P36", "A hooked function is declared as its type says and only runs on calls that fit it",
  "Hooking a C++ function declares it under exactly the signature its type denotes: a leading ENV* or JNIEnv* is no parameter; a static hook beginning with Class* or jclass, and an instance hook beginning with Object* or a pointer to the native type of that very class, is declared both with and without that parameter (then it is the class called or the receiver); a member function of a native type is an instance member. Nothing else is declared, also by hooking twice, and nothing at all if a type has no name. Each object parameter arrives in the form asked for - shared_ptr, pointer, reference, copy, jobject, jclass, jthrowable - denoting the very object passed through any kind of reference, of the class or a derived one; null and cleared weak references give null pointers; a pointer stays valid until the call returned even if the references passed are deleted during it, and nothing keeps the objects afterwards. A call that does not fit - null for a reference or copy, an object or receiver of another native type, another result type, static instead of instance or the reverse, a member function called non-virtually - never runs the function: an exception is pending, a number result is zero, and calls that fit still work.",
  ["programs", "inputs", "histories"], "More than 250 function types (3 environments x 17 parameter forms x receivers x results, alone and in pairs) x all similar signatures; all kinds of arguments x reference kinds x receivers for every one of them; histories of calls of all kinds and result types.",
  "Tests hook a dozen functions and call them correctly.",
  ["include/jnivm/class.h", "include/jnivm/wrap.h", "include/jnivm/hookManager.h", "include/jnivm/jnitypes.h", "include/jnivm/function.h", "include/jnivm/methodhandlebase.h"],
  [("HookManagerHelper", "include/jnivm/class.h"), ("OrgTypeConverter", "include/jnivm/jnitypes.h"), ("MethodHandleBase", "include/jnivm/methodhandlebase.h")], ["declared members", "calls and their arguments", "exceptions", "object destruction"])

p("P37", "Code run by the VM may use the VM",
  "Any function the VM runs for a caller - a hooked function, constructor, getter or setter, a registered native invoked from C++, the constructor run for a default result, a base-class query, a library's load or unload function, main, the destructor of an object whose last reference an operation removed - may itself perform any VM operation on the same thread: calls, lookups, references, frames in balance, exceptions raised and cleared, registering and unregistering natives, hooking functions, even the very member that is running. The inner operations work exactly as outside, the outer operation completes with its normal result, no reference made or deleted goes missing, nothing deadlocks and no freed memory is touched: the function that runs stays alive until it returned.",
  ["histories", "programs"], "27 kinds of code run by the VM x all sequences of inner operations up to the stated depth, nested, in three kinds of VMs.",
  "Tests have hooks that do nothing but return values; re-entrance combinations are not covered.",
  ["src/jnivm/internal/method.cpp", "src/jnivm/internal/field.cpp", "src/jnivm/vm.cpp", "src/jnivm/env.cpp", "include/jnivm/class.h", "include/jnivm/extends.h", "src/fake-jni/jvm.cpp"],
  [("MDispatchBase2", "src/jnivm/internal/method.cpp"), ("GetField", "src/jnivm/internal/field.cpp"), ("PopLocalFrame", "src/jnivm/vm.cpp")], ["results", "references", "exceptions", "object destruction"])

p("P32", "A described class has exactly the members of its descriptor",
  "After registerClass, a class written with DEFINE_CLASS_NAME and BEGIN_NATIVE_DESCRIPTOR has under its name exactly the listed members, each once: constructors as <init>, fields and functions with the signature of their C++ type and bound to exactly that C++ member, so that reads, writes and calls from JNI act on it bit by bit. A static C++ member listed with the STATIC flag is static; one listed without flags is an instance member (with the Minecraft-Linux compatibility option it stays static), a function taking the object first is called with it; other flags change nothing, several names for one member and several functions of one name work. Derived classes see the members of their base and override them. An instance member listed as static is refused with std::runtime_error, leaving other classes usable. This holds however often and in whatever order classes are registered, mentioned, asked for by getDescriptor or getClass, on re-attached threads, and for every further VM in the process; the class stays the same object throughout.",
  ["histories", "programs", "configurations"], "Descriptors with 53 entries of all kinds and types and five small ones; all histories of registering, mentioning, handing out, re-attaching and new VMs up to the stated depth in three kinds of VMs, each followed by a use of every member; up to three VMs; three builds.",
  "Tests describe three small classes; the binding of every kind of entry and the order of first uses over several VMs is not covered.",
  ["include/fake-jni/fake-jni.h", "include/jnivm/class.h", "include/jnivm/hookManager.h", "include/jnivm/env.h"],
  [("FakeJni::Descriptor", "include/fake-jni/fake-jni.h"), ("BEGIN_NATIVE_DESCRIPTOR", "include/fake-jni/fake-jni.h")], ["declared members", "C++ variables", "results of calls"])

p("P33", "Virtual machines in one process do not influence each other",
  "Any number of VMs may exist in a process at once or one after the other, and each behaves as if it were the only one: names, classes, the names of native types (one native type may have different names in different VMs), signatures derived from them, hooks, natives, looked up members, subtype relations, pending exceptions, local frames, global references and main functions of one VM are never seen, changed or destroyed by anything done in another, including the end of another VM in any order. Environments lead back to their own VM; a thread may be attached to several plain VMs at once.",
  ["histories"], "All histories of the stated depth of 11 kinds of operations interleaved over two VMs (permissive and strict), including ending and remaking either, with a full observation of both VMs after every step; the same with two fake-jni or Baron VMs on a thread each.",
  "No test has two VMs; state shared by accident (function-local statics, type tables) only shows with a second one.",
  ["src/jnivm/vm.cpp", "include/jnivm/vm.h", "include/jnivm/env.h", "include/jnivm/jnitypes.h", "include/jnivm/hookManager.h", "src/fake-jni/fake-jni.cpp"],
  [("ENV::GetClass<T>", "include/jnivm/env.h"), ("VM::GetEnv", "src/jnivm/vm.cpp")], ["classes and names", "members and calls", "exceptions", "references"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
