// Shared pieces of all harnesses: PRNG, key/value generators, scratch dirs, verdict reporting.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <climits>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

#include "db.h"
#include "error.h"
#include "mabain_consts.h"
#include "mb_data.h"

namespace vh {
using mabain::CONSTS;
using mabain::DB;
using mabain::MBConfig;
using mabain::MBData;
using mabain::MBError;
using std::string;
using std::vector;

struct Rng {
    uint64_t s;
    // the state is hashed: states a multiple of the step apart would give the same numbers, shifted
    explicit Rng(uint64_t seed = 1) : s(seed + 0x1234567) { s = next(); s ^= next() << 1; s = next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
    bool chance(int pct) { return below(100) < (uint64_t)pct; }
    template <class T> const T& pick(const vector<T>& v) { return v[below(v.size())]; }
};

inline string hex(const string& s, size_t max = 48)
{
    static const char* d = "0123456789abcdef";
    string o;
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        if (c > 32 && c < 127 && c != '\\') o.push_back(c);
        else { o += "\\x"; o.push_back(d[c >> 4]); o.push_back(d[c & 15]); }
    }
    if (s.size() > max) o += "...(" + std::to_string(s.size()) + ")";
    return o;
}

// ---------------------------------------------------------------- options
struct Args {
    std::map<string, string> kv;
    Args(int argc, char** argv)
    {
        for (int i = 1; i < argc; i++) {
            string a = argv[i];
            if (a.rfind("--", 0) != 0) continue;
            a = a.substr(2);
            auto e = a.find('=');
            if (e == string::npos) kv[a] = "1";
            else kv[a.substr(0, e)] = a.substr(e + 1);
        }
    }
    string s(const string& k, const string& d = "") const { auto i = kv.find(k); return i == kv.end() ? d : i->second; }
    long long n(const string& k, long long d) const { auto i = kv.find(k); return i == kv.end() ? d : atoll(i->second.c_str()); }
    bool has(const string& k) const { return kv.count(k) != 0; }
};

// ---------------------------------------------------------------- verdicts
// Output protocol (one per line, appended to --out=FILE, else stdout):
//   STAT <name> <integer>         accumulated by the driver
//   SIG <hash>                    a distinct-case signature
//   SAMPLE <text>                 an example case
//   VIOL <key>\t<message>         a violation; key identifies the defect for known-findings matching
struct Report {
    FILE* f = stdout;
    std::map<string, long long> stats;
    std::set<uint64_t> sigs;
    vector<string> samples;
    std::set<string> judge; // categories judged in this run (empty = all)
    long long viols = 0;
    string ctx;
    vector<string> trace;
    size_t trace_max = 4000;
    bool stop_on_viol = true;
    string trace_file;
    void init(const Args& a)
    {
        if (a.has("out")) {
            f = fopen(a.s("out").c_str(), "a");
            if (!f) { perror("out"); _exit(2); }
        }
        trace_file = a.s("trace");
        string j = a.s("judge");
        while (!j.empty()) {
            auto c = j.find(',');
            judge.insert(j.substr(0, c));
            if (c == string::npos) break;
            j = j.substr(c + 1);
        }
    }
    bool judged(const string& cat) const { return judge.empty() || judge.count(cat); }
    void stat(const string& k, long long v = 1) { stats[k] += v; }
    void sig(uint64_t h) { if (sigs.size() < 200000) sigs.insert(h); }
    void sample(const string& s) { if (samples.size() < 6) samples.push_back(s); }
    void op(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char b[1024];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        if (trace.size() >= trace_max) trace.erase(trace.begin(), trace.begin() + trace_max / 2);
        trace.push_back(b);
        if (getenv("VH_ECHO")) { fprintf(stderr, "%s\n", b); }
    }
    void flush()
    {
        for (auto& s : stats) fprintf(f, "STAT %s %lld\n", s.first.c_str(), s.second);
        for (auto s : sigs) fprintf(f, "SIG %016" PRIx64 "\n", s);
        for (auto& s : samples) fprintf(f, "SAMPLE %s\n", s.c_str());
        fflush(f);
        stats.clear(); sigs.clear(); samples.clear();
    }
    // cat decides whether this run judges it; key is the stable identity of the defect
    bool viol(const string& cat, const string& key, const char* fmt, ...) __attribute__((format(printf, 4, 5)))
    {
        if (!judged(cat)) { stat("unjudged_" + cat); return false; }
        char b[2048];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        viols++;
        for (char* p = b; *p; p++) if (*p == '\n') *p = ' ';
        fprintf(f, "VIOL %s\t%s [%s]\n", key.c_str(), b, ctx.c_str());
        fflush(f);
        if (!trace_file.empty()) {
            FILE* t = fopen(trace_file.c_str(), "a");
            if (t) {
                fprintf(t, "# %s: %s [%s]\n", key.c_str(), b, ctx.c_str());
                for (auto& l : trace) fprintf(t, "%s\n", l.c_str());
                fclose(t);
            }
        }
        if (stop_on_viol) { flush(); _exit(3); }
        return true;
    }
};

// ---------------------------------------------------------------- scratch dirs
inline void rm_tree(const string& p)
{
    DB::ClearResources(p); // the library keeps files of closed databases mapped
    // only ever called on directories this process created below the scratch root
    if (p.find("/vh.") == string::npos) { fprintf(stderr, "refusing to remove %s\n", p.c_str()); _exit(2); }
    DIR* d = opendir(p.c_str());
    if (!d) return;
    while (dirent* e = readdir(d)) {
        string n = e->d_name;
        if (n == "." || n == "..") continue;
        string q = p + "/" + n;
        struct stat st;
        if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(q);
        else unlink(q.c_str());
    }
    closedir(d);
    rmdir(p.c_str());
}
inline string mk_scratch(const string& root, const string& tag)
{
    static std::atomic<int> n { 0 };
    string p = root + "/vh." + tag + "." + std::to_string(getpid()) + "." + std::to_string(n++);
    if (mkdir(p.c_str(), 0755) != 0 && errno != EEXIST) { perror(p.c_str()); _exit(2); }
    return p;
}
inline void mkdir_or_die(const string& p)
{
    if (mkdir(p.c_str(), 0755) != 0 && errno != EEXIST) { perror(p.c_str()); _exit(2); }
}
inline uint64_t fnv(const void* d, size_t n, uint64_t h = 1469598103934665603ull)
{
    auto* p = (const uint8_t*)d;
    for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t fnvs(const string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }

// ---------------------------------------------------------------- keys and values
struct KeyGen {
    int family;
    Rng* r;
    vector<string> pool; // keys seen so far
    string stem;
    int maxlen = 256;
    static const int NFAM = 9;
    KeyGen(int fam, Rng* rng, int maxl = 256) : family(fam), r(rng), maxlen(maxl)
    {
        int n = r->range(1, 200);
        for (int i = 0; i < n; i++) stem.push_back((char)('a' + r->below(2)));
    }
    string clip(string k) const
    {
        if (k.empty()) k = string(1, (char)r->below(256));
        if ((int)k.size() > maxlen) k.resize(maxlen);
        return k;
    }
    string fresh()
    {
        string k;
        switch (family) {
        case 0: { // tiny alphabet, short: dense tree with nested prefixes
            int n = r->range(1, 10);
            for (int i = 0; i < n; i++) k.push_back((char)('a' + r->below(2)));
            break;
        }
        case 1: { // binary bytes, 0x00 / 0xff / 0x80 heavy
            static const unsigned char c[] = { 0, 1, 0x7f, 0x80, 0xfe, 0xff };
            int n = r->range(1, 8);
            for (int i = 0; i < n; i++) k.push_back((char)c[r->below(6)]);
            break;
        }
        case 2: { // long shared stem cut at edge-length boundaries
            static const int cut[] = { 1, 2, 4, 5, 6, 7, 8, 9, 31, 63, 127, 128, 129, 199 };
            int n = std::min<int>(cut[r->below(14)], stem.size());
            k = stem.substr(0, n);
            int t = r->range(0, 12);
            for (int i = 0; i < t; i++) k.push_back((char)('a' + r->below(3)));
            break;
        }
        case 3: { // full fan-out under a stem
            k = stem.substr(0, std::min<size_t>(stem.size(), r->below(3)));
            k.push_back((char)r->below(256));
            if (r->chance(50)) k.push_back((char)r->below(256));
            if (r->chance(20)) k += "tailtailtail";
            break;
        }
        case 4: // decimal counters
            k = "key" + std::to_string(r->below(400));
            break;
        case 5: { // hash-like
            int n = r->pick(vector<int> { 4, 8, 16, 20, 32, 40 });
            for (int i = 0; i < n; i++) k.push_back((char)r->below(256));
            break;
        }
        case 6: { // longest keys
            int n = r->pick(vector<int> { 250, 251, 252, 253, 254, 255, 256, 128, 129, 240 });
            k = stem;
            while ((int)k.size() < n) k.push_back((char)('a' + r->below(r->chance(90) ? 1 : 3)));
            k.resize(n);
            if (r->chance(60)) k[r->below(k.size())] = 'z';
            break;
        }
        case 7: { // url-ish hierarchical
            static const char* seg[] = { "www", "example", "com", "a", "bb", "images", "index.html", "api/v1", "user" };
            int n = r->range(1, 5);
            for (int i = 0; i < n; i++) { if (i) k += "/"; k += seg[r->below(9)]; }
            if (r->chance(30)) k += std::to_string(r->below(50));
            break;
        }
        case 10: { // long random keys: index space
            int n = r->range(60, 256);
            for (int i = 0; i < n; i++) k.push_back((char)r->below(i < 3 ? 6 : 256));
            break;
        }
        case 9: { // short heads, few long tails of equal length: edge strings are split and their buffers reused
            static const char* tail[] = { "AAAAAAAAAAAA", "BBBBBBBBBBBB", "ABABABABABAB", "CAAAAAAAAAAB" };
            int n = r->range(1, 5);
            for (int i = 0; i < n; i++) k.push_back((char)('a' + r->below(2)));
            if (r->chance(85)) k.append(tail[r->below(4)], r->chance(70) ? 12 : r->range(6, 12));
            break;
        }
        default: { // mixture
            int f = family; family = (int)r->below(9); if (family == 8) family = 9; k = fresh(); family = f; return k;
        }
        }
        return clip(k);
    }
    // derive a neighbour of an existing key
    string mutate(const string& b)
    {
        string k = b;
        switch (r->below(9)) {
        case 0: if (k.size() > 1) k.resize(1 + r->below(k.size() - 1)); break;             // proper prefix
        case 1: k.push_back((char)r->below(256)); break;                                    // one longer
        case 2: { int n = r->range(1, 12); for (int i = 0; i < n; i++) k.push_back((char)('a' + r->below(3))); break; }
        case 3: k[r->below(k.size())] ^= (char)(1 << r->below(8)); break;                   // flip
        case 4: k[k.size() - 1]++; break;
        case 5: k[k.size() - 1]--; break;
        case 6: if (k.size() > 1) { size_t p = r->below(k.size()); k = k.substr(0, p) + (char)('a' + r->below(3)); } break;
        case 7: k[r->below(k.size())] = r->chance(50) ? (char)0xff : (char)0; break;
        default: k.push_back((char)(r->chance(50) ? 0 : 0xff)); break;
        }
        return clip(k);
    }
    string next()
    {
        string k;
        if (!pool.empty() && r->chance(45)) k = mutate(pool[r->below(pool.size())]);
        else k = fresh();
        if (pool.size() < 3000) pool.push_back(k);
        return k;
    }
    string probe(const std::map<string, string>& model)
    {
        int c = (int)r->below(100);
        if (!model.empty() && c < 75) {
            // an existing key or a neighbour of one
            string k = pick(model);
            if (c < 40) return k;
            return mutate(k);
        }
        if (!pool.empty() && c < 90) return pool[r->below(pool.size())];
        return fresh();
    }
    string pick(const std::map<string, string>& model)
    {
        // random neighbour via lower_bound on a pool key (O(log n))
        string s = pool.empty() ? fresh() : pool[r->below(pool.size())];
        auto it = model.lower_bound(s);
        if (it == model.end()) it = model.begin();
        return it->first;
    }
};

inline string make_value(Rng& r, uint64_t id, int profile)
{
    // profile 0: small; 1: mixed; 2: size boundaries up to the documented maximum
    static const int bnd[] = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 63, 64, 255, 256, 257, 1023, 1024, 4092, 4096, 8183,
        8184, 8185, 8187, 8188, 8189, 8192, 16384, 32764, 32766, 32767 };
    char b[40];
    int n = snprintf(b, sizeof b, "v%" PRIu64 ".", id);
    int want;
    if (profile == 0) want = n + (int)r.below(24);
    else if (profile == 1) want = r.chance(80) ? (int)r.range(1, 300) : (int)r.range(1, 6000);
    else if (profile == 3) want = r.chance(70) ? (int)r.range(8000, 32767) : (int)r.range(1, 8000);
    else want = bnd[r.below(sizeof bnd / sizeof bnd[0])];
    if (want < 1) want = 1;
    string v(b, n);
    if ((int)v.size() > want) v = v.substr(v.size() - want); // keep the low digits of the id
    uint64_t x = id * 0x9E3779B97F4A7C15ull;
    while ((int)v.size() < want) { v.push_back((char)(x >> 56)); x = x * 6364136223846793005ull + 1442695040888963407ull; }
    return v;
}

// Exact-size heap copy so that any over-read of the caller's buffer is visible to ASan,
// or (embed=true) a pointer into a larger buffer whose following bytes continue an existing key.
struct KeyBuf {
    vector<char> big;
    char* p = nullptr;
    bool own = false;
    KeyBuf(const string& k)
    {
        p = (char*)malloc(k.size() ? k.size() : 1);
        memcpy(p, k.data(), k.size());
        own = true;
    }
    KeyBuf(const string& k, const string& longer)
    {
        big.assign(k.begin(), k.end());
        if (longer.size() > k.size()) big.insert(big.end(), longer.begin() + k.size(), longer.end());
        big.insert(big.end(), 300, 'a');
        p = big.data();
    }
    KeyBuf(const KeyBuf&) = delete;
    ~KeyBuf() { if (own) free(p); }
};

inline string val_of(const MBData& d) { return d.buff && d.data_len > 0 ? string((const char*)d.buff, d.data_len) : string(); }
inline const char* es(int e) { return e >= 0 && e <= MBError::NO_DB ? MBError::get_error_str(e) : "?"; }

inline void quiet_lib() { DB::SetLogLevel(getenv("VH_LOG") ? atoi(getenv("VH_LOG")) : 0); }
} // namespace vh
