// P05: every byte string to the bound, against an independent decoder
#include "../mc/jh.hpp"
using namespace jh;

namespace {
    // Decodes as far as structurally well-formed: the units, and whether everything is
    std::vector<jchar> decode(const std::string& s, std::vector<size_t>& starts, bool& ok) {
        std::vector<jchar> r;
        size_t i = 0, n = s.size();
        ok = true;
        auto cont = [&](size_t k) { return k < n && ((unsigned char)s[k] >> 6) == 2; };
        while(i < n) {
            unsigned c = (unsigned char)s[i];
            starts.push_back(i);
            if(c < 0x80) { r.push_back((jchar)c); i += 1; }
            else if((c >> 5) == 6 && cont(i + 1)) { r.push_back((jchar)((c & 31) << 6 | (s[i + 1] & 63))); i += 2; }
            else if((c >> 4) == 14 && cont(i + 1) && cont(i + 2)) { r.push_back((jchar)((c & 15) << 12 | (s[i + 1] & 63) << 6 | (s[i + 2] & 63))); i += 3; }
            else { ok = false; starts.pop_back(); break; }
        }
        starts.push_back(i);
        return r;
    }
    struct World {
        VM vm;
        JNIEnv* env = vm.GetJNIEnv();
        World() { env->PushLocalFrame(8); }

        // An operation either succeeds or raises an error, in one way or the other
        template<class F> bool attempt(F f) {
            bool ok = true;
            try { f(); } catch(const std::exception&) { ok = false; }
            if(env->ExceptionCheck()) { ok = false; env->ExceptionClear(); }
            mc::transition();
            return ok;
        }
        void one(const std::string& bytes, bool regions) {
            std::vector<size_t> starts;
            bool good;
            auto u = decode(bytes, starts, good);
            if(mc::verbose()) {
                std::string t;
                for(unsigned char c : bytes) { char b[8]; snprintf(b, 8, "%02x ", c); t += b; }
                log("%s: %zu units%s", t.data(), u.size(), good ? "" : ", then malformed");
            }
            // What lies behind the terminator must not matter
            for(int behind = 0; behind < 2; ++behind) {
                auto obj = std::make_shared<String>(std::string());
                size_t n = bytes.size();
                std::string& str = *obj;
                if(n > 15) {
                    // Exactly as large as needed, so that a sanitizer notices
                    if(behind) break;
                    std::string exact(bytes.data(), n);
                    str.swap(exact);
                } else {
                    str.resize(15);
                    memset(&str[0], behind ? 0x80 : 0x41, 15);
                    memcpy(&str[0], bytes.data(), n);
                    str.resize(n);
                    if(n < 14) memset(&str[0] + n + 1, behind ? 0x80 : 0x41, 14 - n);
                }
                auto s = (jstring)local(env, obj);
                jsize len = -1;
                bool r = attempt([&] { len = env->GetStringLength(s); });
                MC_CHECK(r == good, r ? "length-accepted" : "length-rejected", "GetStringLength");
                if(r) MC_CHECK(len == (jsize)u.size(), "length", "length %d instead of %zu", len, u.size());
                const jchar* c = nullptr;
                r = attempt([&] { c = env->GetStringChars(s, nullptr); });
                MC_CHECK(r == good, r ? "chars-accepted" : "chars-rejected", "GetStringChars");
                if(r) {
                    MC_CHECK(c && !memcmp(c, u.data(), u.size() * 2), "chars", "units differ");
                    env->ReleaseStringChars(s, c);
                }
                if(regions) {
                    // All regions inside a well-formed string, and all those reaching the malformed place
                    int total = (int)u.size() + (good ? 0 : 2);
                    for(int a = 0; a <= total; ++a) for(int b = 0; a + b <= total; ++b) {
                        bool inside = a + b <= (int)u.size();
                        std::unique_ptr<jchar[]> buf(new jchar[b + 1]);
                        buf[b] = 0xabcd;
                        r = attempt([&] { env->GetStringRegion(s, a, b, buf.get()); });
                        MC_CHECK(buf[b] == 0xabcd, "region-overrun", "region %d,%d", a, b);
                        if(r) MC_CHECK(inside && !memcmp(buf.get(), u.data() + a, b * 2), "region-accepted", "region %d,%d", a, b);
                        if(!r) MC_CHECK(!good || !inside, "region-rejected", "region %d,%d", a, b);
                        size_t want = inside ? starts[a + b] - starts[a] : 3 * b;
                        std::unique_ptr<char[]> ub(new char[want + 2]);
                        ub[want + 1] = 0x5c;
                        r = attempt([&] { env->GetStringUTFRegion(s, a, b, ub.get()); });
                        MC_CHECK(ub[want + 1] == 0x5c, "utf-region-overrun", "UTF region %d,%d", a, b);
                        if(r) MC_CHECK(inside && !memcmp(ub.get(), bytes.data() + starts[a], want) && !ub[want], "utf-region-accepted", "UTF region %d,%d", a, b);
                        if(!r) MC_CHECK(!good || !inside, "utf-region-rejected", "UTF region %d,%d", a, b);
                    }
                }
                env->DeleteLocalRef(s);
            }
        }
    };
    const std::vector<unsigned char> reps = {0x41, 0xc3, 0xe2, 0x80, 0xbf, 0xf0, 0x00, 0x7f, 0xc0, 0xdf, 0xe0, 0xef, 0xf7, 0xff};

    void strings(int maxlen) {
        World w;
        int n = choose(maxlen + 1), split = std::min(n, 3);
        std::string s(n, 'x');
        int i = 0;
        for(; i < split; ++i) s[i] = (char)reps[choose((int)reps.size())];
        long rest = 1;
        for(int k = split; k < n; ++k) rest *= (long)reps.size();
        for(long r = 0; r < rest; ++r) {
            long x = r;
            for(int k = split; k < n; ++k) { s[k] = (char)reps[x % reps.size()]; x /= reps.size(); }
            w.one(s, true);
        }
    }
    // All byte values: every pair, every triple in the thorough tier
    void bytes(bool triples) {
        World w;
        int a = choose(256);
        if(!triples) {
            for(int b = 0; b < 256; ++b) {
                w.one(std::string{(char)a, (char)b}, true);
                w.one(std::string{(char)a, (char)b, (char)0xa0}, true);
                w.one(std::string{'z', (char)a, (char)b}, false);
                w.one(std::string{(char)0xe1, (char)a, (char)b}, false);
            }
            w.one(std::string{(char)a}, true);
        } else {
            int b = choose(256);
            for(int c = 0; c < 256; ++c) w.one(std::string{(char)a, (char)b, (char)c}, false);
        }
    }
    // A broken sequence at every position of long strings
    void positions(int max) {
        World w;
        int n = chooseSize(max);
        static const std::vector<std::string> breaks = {"", "\x80", "\xc3", "\xe2", "\xe2\x82", "\xf0\x9f\x98\x80", "\xff", "\xc3" "A", "\xe2\x82" "A", "\xe2" "AA"};
        auto& br = breaks[choose((int)breaks.size())];
        int fill = choose(3), where = choose(4);
        static const std::vector<std::string> fills = {"a", "\xc3\xa4", "\xe2\x82\xac"};
        int at = where == 0 ? 0 : where == 1 ? n / 2 : where == 2 ? std::max(0, n - 1) : n;
        std::string s;
        for(int i = 0; i < n; ++i) {
            if(i == at) s += br;
            s += fills[fill];
        }
        if(at >= n) s += br;
        log("%d characters, broken at %d", n, at);
        w.one(s, n <= 20);
    }
}

static int init = [] {
    mc::scenario("strings", [] { strings(mc::bound(5, 4, 6, 5)); }, 3);
    mc::scenario("pairs", [] { bytes(false); }, 1);
    if(true) mc::scenario("triples", [] { if(mc::thorough()) bytes(true); }, 1);
    mc::scenario("positions", [] { positions(mc::bound(1025, 257, 4097, 1025)); }, 1);
    return 0;
}();
