// P04: UTF-16 and modified UTF-8 views, for all units and all sequences of representatives to the bound
#include "../mc/jh.hpp"
using namespace jh;

namespace {
    using Units = std::vector<jchar>;
    // The standard encoding
    std::string encode(const jchar* u, size_t n) {
        std::string r;
        for(size_t i = 0; i < n; ++i) {
            unsigned c = u[i];
            if(c >= 1 && c <= 0x7f) {
                r += (char)c;
            } else if(c <= 0x7ff) {
                r += (char)(0xc0 + (c >> 6));
                r += (char)(0x80 + (c & 63));
            } else {
                r += (char)(0xe0 + (c >> 12));
                r += (char)(0x80 + ((c >> 6) & 63));
                r += (char)(0x80 + (c & 63));
            }
        }
        return r;
    }
    std::string encode(const Units& u) { return encode(u.data(), u.size()); }
    struct World {
        VM vm;
        JNIEnv* env = vm.GetJNIEnv();
        World() { env->PushLocalFrame(8); }

        void region(jstring s, const Units& u, int start, int len) {
            // Exactly sized destinations: a sanitizer or the guard units notice every write beyond
            std::vector<jchar> buf(len + 2, 0xabcd);
            env->GetStringRegion(s, start, len, buf.data() + 1);
            MC_CHECK(buf[0] == 0xabcd && buf[len + 1] == 0xabcd, "region-overrun", "region %d,%d wrote outside", start, len);
            MC_CHECK(!memcmp(buf.data() + 1, u.data() + start, len * 2), "region", "region %d,%d of %zu units differs", start, len, u.size());
            auto want = encode(u.data() + start, len);
            std::vector<char> ub(want.size() + 3, 0x5c);
            env->GetStringUTFRegion(s, start, len, ub.data() + 1);
            MC_CHECK(ub[0] == 0x5c && ub[want.size() + 2] == 0x5c, "utf-region-overrun", "UTF region %d,%d wrote outside", start, len);
            MC_CHECK(ub[want.size() + 1] == 0, "utf-region-terminator", "UTF region %d,%d is not terminated", start, len);
            MC_CHECK(!memcmp(ub.data() + 1, want.data(), want.size()), "utf-region", "UTF region %d,%d differs", start, len);
            mc::transition();
        }
        void whole(jstring s, const Units& u, bool again = true) {
            MC_CHECK(s, "null-reference", "no string");
            auto want = encode(u);
            MC_CHECK(env->GetStringLength(s) == (jsize)u.size(), "length", "length %d instead of %zu", env->GetStringLength(s), u.size());
            MC_CHECK(env->GetStringUTFLength(s) == (jsize)want.size(), "utf-length", "UTF length %d instead of %zu", env->GetStringUTFLength(s), want.size());
            jboolean copy = 7;
            auto c = env->GetStringChars(s, &copy);
            jboolean ccopy = 7;
            auto k = env->GetStringCritical(s, &ccopy);
            MC_CHECK(ccopy == copy, "copy", "isCopy of the critical units differs");
            MC_CHECK(c && k && !memcmp(c, u.data(), u.size() * 2) && !memcmp(k, u.data(), u.size() * 2), "chars", "units differ");
            MC_CHECK(copy == JNI_TRUE || copy == JNI_FALSE, "copy", "isCopy is not set");
            // Each caller has units of its own: these are copies
            if(c != k) MC_CHECK(copy == JNI_TRUE, "copy", "a copy is said to be none");
            env->ReleaseStringChars(s, c);
            env->ReleaseStringCritical(s, k);
            auto t = env->GetStringUTFChars(s, &copy);
            MC_CHECK(t && !memcmp(t, want.data(), want.size()) && !t[want.size()], "utf-chars", "UTF bytes differ");
            MC_CHECK(copy == JNI_TRUE || copy == JNI_FALSE, "copy", "isCopy is not set");
            auto t2 = env->GetStringUTFChars(s, nullptr);
            if(t2 != t) MC_CHECK(copy == JNI_TRUE, "copy", "a copy is said to be none");
            env->ReleaseStringUTFChars(s, t2);
            env->ReleaseStringUTFChars(s, t);
            auto o = unwrap<String>(env, s);
            MC_CHECK(o && o->asStdString() == want && *o == want, "std-string", "the C++ string differs");
            MC_CHECK(!env->ExceptionCheck(), "exception", "exception");
            mc::transition();
        }
        jstring make(const Units& u, int how) {
            auto e = encode(u);
            switch(how) {
            case 0: {
                // Exactly sized source
                std::unique_ptr<jchar[]> src(new jchar[u.size()]);
                std::copy(u.begin(), u.end(), src.get());
                return env->NewString(src.get(), (jsize)u.size());
            }
            case 1: return env->NewStringUTF(e.data());
            default: return (jstring)local(env, std::make_shared<String>(e));
            }
        }
        void reset() { env->PopLocalFrame(nullptr); env->PushLocalFrame(8); }
    };
    const std::vector<jchar> reps = {'A', 0, 1, 0x7f, 0x80, 0xbf, 0xc0, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0x20ac, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfffd, 0xffff};

    // Every sequence of representatives, all regions
    void sequences(int maxlen, int nreps, int how) {
        World w;
        int n = choose(maxlen + 1);
        Units u;
        for(int i = 0; i < n - 1; ++i) u.push_back(reps[choose(nreps)]);
        // The last position is enumerated within the execution
        for(int l = 0; l < (n ? nreps : 1); ++l) {
            auto v = u;
            if(n) v.push_back(reps[l]);
            if(mc::verbose()) {
                std::string t;
                for(auto c : v) { char b[8]; snprintf(b, 8, "%04x ", c); t += b; }
                log("%s", t.data());
            }
            auto s = w.make(v, how);
            w.whole(s, v);
            for(int a = 0; a <= n; ++a) for(int b = 0; a + b <= n; ++b) w.region(s, v, a, b);
            w.whole(s, v, false);
            w.reset();
        }
    }
    // Every unit, alone and between representatives
    void units() {
        World w;
        int hi = choose(256);
        int how = choose(3);
        for(int lo = 0; lo < 256; ++lo) {
            jchar c = (jchar)(hi << 8 | lo);
            for(int ctx = 0; ctx < 4; ++ctx) {
                Units u{c};
                if(ctx & 1) u.insert(u.begin(), 0x20ac);
                if(ctx & 2) u.push_back(0xe4);
                if(ctx == 3) u.push_back(c);
                log("unit %04x context %d", c, ctx);
                auto s = w.make(u, how);
                w.whole(s, u);
                w.region(s, u, 0, (int)u.size());
                w.region(s, u, ctx & 1, 1);
                w.reset();
            }
        }
    }
    // Long strings of every length around the buffer boundaries
    void lengths(int max) {
        World w;
        int n = chooseSize(max), how = choose(3), pat = choose(4);
        log("%d units, pattern %d, made by %d", n, pat, how);
        Units u;
        for(int i = 0; i < n; ++i) u.push_back(pat == 0 ? 'a' + i % 26 : pat == 1 ? 0x80 + i % 0x700 : pat == 2 ? 0x800 + (i * 37) % 0xf000 : reps[(i * 7 + i / 5) % reps.size()]);
        auto s = w.make(u, how);
        w.whole(s, u);
        for(int a : {0, 1, n / 2, n - 1, n}) for(int b : {0, 1, n / 3, n - a - 1, n - a}) if(a >= 0 && b >= 0 && a + b <= n) w.region(s, u, a, b);
        // Independent of each other
        auto s2 = w.make(u, (how + 1) % 3);
        w.whole(s2, u);
        w.whole(s, u);
    }
    // Several strings and outstanding characters at the same time, released in any order
    void outstanding() {
        World w;
        std::vector<Units> us = {{'a', 'b', 'c'}, {0x20ac, 0, 0xd800}, {}};
        std::vector<jstring> ss;
        for(auto& u : us) ss.push_back(w.make(u, choose(2)));
        struct Out { int s; const jchar* c; };
        std::vector<Out> out;
        for(int d = 0; d < 6; ++d) {
            int c = choose(3 + (int)out.size());
            if(c < 3) {
                log("get %d", c);
                out.push_back({c, d % 2 ? w.env->GetStringCritical(ss[c], nullptr) : w.env->GetStringChars(ss[c], nullptr)});
            } else {
                log("release %d", c - 3);
                auto o = out[c - 3];
                out.erase(out.begin() + (c - 3));
                w.env->ReleaseStringChars(ss[o.s], o.c);
            }
            mc::transition();
            for(auto& o : out) MC_CHECK(!memcmp(o.c, us[o.s].data(), us[o.s].size() * 2), "chars", "outstanding characters changed");
        }
        for(auto& o : out) w.env->ReleaseStringChars(ss[o.s], o.c);
        for(int i = 0; i < 3; ++i) w.whole(ss[i], us[i]);
    }
    // Null and empty inputs which the interface accepts
    void empty() {
        World w;
        auto s = choose(2) ? w.env->NewString(nullptr, 0) : w.env->NewStringUTF("");
        w.whole(s, {});
        w.region(s, {}, 0, 0);
    }
}

static int init = [] {
    mc::scenario("sequences", [] { sequences(mc::bound(4, 3, 5, 4), (int)reps.size(), 0); }, 2);
    mc::scenario("sequences-utf", [] { sequences(mc::bound(3, 3, 4, 3), (int)reps.size(), 1); }, 2);
    mc::scenario("sequences-cpp", [] { sequences(mc::bound(3, 2, 4, 3), (int)reps.size(), 2); }, 2);
    mc::scenario("units", units, 1);
    mc::scenario("lengths", [] { lengths(mc::bound(4097, 1025, 4097, 4097)); }, 1);
    mc::scenario("outstanding", outstanding, 3);
    mc::scenario("empty", empty, 1);
    return 0;
}();
