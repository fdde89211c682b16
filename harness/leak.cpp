// A history of opening, using and closing databases is run again and again in one process, on the same paths.
// When every handle is closed and the resources of the directory are cleared, nothing of it may be left: no descriptor,
// no mapping, no thread, no memory, no lock. What is left once is a warm-up; what grows with every repetition is a leak.
#include "common.h"
#include <dlfcn.h>
#include <jemalloc/jemalloc.h>
#include <malloc.h>
#include <sstream>
#include <sys/file.h>

using namespace vh;
static Report R;
static string g_root;

// live blocks of memory
static std::atomic<long long> g_live { 0 };
static std::atomic<long long> g_allocs { 0 };
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p) { g_live.fetch_add(1, std::memory_order_relaxed); g_allocs.fetch_add(1, std::memory_order_relaxed); } return p; }
void free(void* p) { if (p) g_live.fetch_sub(1, std::memory_order_relaxed); __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p) g_live.fetch_add(1, std::memory_order_relaxed); return p; }
void* realloc(void* p, size_t n)
{
    void* q = __libc_realloc(p, n);
    if (!p && q) g_live.fetch_add(1, std::memory_order_relaxed);
    if (p && !n && !q) g_live.fetch_sub(1, std::memory_order_relaxed);
    return q;
}
int posix_memalign(void** p, size_t al, size_t n) { *p = __libc_memalign(al, n); if (!*p) return ENOMEM; g_live.fetch_add(1, std::memory_order_relaxed); return 0; }
void* aligned_alloc(size_t al, size_t n) { void* p = __libc_memalign(al, n); if (p) g_live.fetch_add(1, std::memory_order_relaxed); return p; }
void* memalign(size_t al, size_t n) { return aligned_alloc(al, n); }
}

// the operators of jemalloc would go past these
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

struct Usage { long long fds = 0, maps = 0, bytes = 0, threads = 0, live = 0, arenas = 0, mine_fd = 0, mine_map = 0; string what; };
static long long count_dir(const char* p)
{
    long long n = 0;
    DIR* d = opendir(p);
    if (!d) return -1;
    while (readdir(d)) n++;
    closedir(d);
    return n - 2;
}
static Usage usage(const string& base, int kind)
{
    Usage u;
    u.live = g_live;
    u.threads = count_dir("/proc/self/task");
    DIR* d = opendir("/proc/self/fd");
    while (dirent* e = d ? readdir(d) : nullptr) {
        if (e->d_name[0] == '.') continue;
        char b[600];
        string p = string("/proc/self/fd/") + e->d_name;
        ssize_t n = readlink(p.c_str(), b, sizeof b - 1);
        if (n < 0) continue;
        b[n] = 0;
        u.fds++;
        if (strstr(b, base.c_str()) || strstr(b, "mabain")) { u.mine_fd++; if (u.what.size() < 300) u.what += string(" fd:") + b; }
    }
    if (d) closedir(d);
    FILE* f = fopen("/proc/self/maps", "r");
    char l[1024];
    while (f && fgets(l, sizeof l, f)) {
        // jemalloc keeps the address range of the bookkeeping of an arena which it has destroyed
        if (kind == 3 && !strchr(l, '/')) continue;
        u.maps++;
        unsigned long long b0 = 0, b1 = 0;
        if (sscanf(l, "%llx-%llx", &b0, &b1) == 2) u.bytes += (long long)(b1 - b0);
        if (strstr(l, base.c_str()) || strstr(l, "_mabain_")) { u.mine_map++; char* s = strchr(l, '/'); if (s && u.what.size() < 300) { s[strcspn(s, "\n")] = 0; u.what += string(" map:") + s; } }
    }
    if (f) fclose(f);
    unsigned na = 0;
    size_t sz = sizeof na;
    if (mallctl("arenas.narenas", &na, &sz, nullptr, 0) == 0) u.arenas = na;
    return u;
}

static const int WARM = 3, MORE = 6;
static const char* KIND[] = { "mapped", "files", "memory", "jemalloc", "cache" };
static void judge(const vector<Usage>& us, const char* when)
{
    for (auto& u : us) R.op("%s: fds %lld maps %lld bytes %lld threads %lld live %lld arenas %lld", when, u.fds, u.maps, u.bytes, u.threads, u.live, u.arenas);
    auto grows = [&](long long Usage::*m) { for (size_t i = WARM; i < us.size(); i++) if (us[i].*m <= us[i - 1].*m) return false; return true; };
    const Usage &x = us[WARM - 1], &y = us.back();
    auto say = [&](const char* cls, const char* what, long long Usage::*m) {
        if (grows(m)) R.viol("leak", cls, "%s: %lld %s after %d repetitions, %lld after %d", when, x.*m, what, WARM, y.*m, WARM + MORE);
    };
    say("leak_fd", "open descriptors", &Usage::fds);
    say("leak_thread", "threads", &Usage::threads);
    say("leak_memory", "blocks of memory in use", &Usage::live);
    say("leak_map", "mappings", &Usage::maps);
    say("leak_map", "bytes mapped", &Usage::bytes);
    say("leak_arena", "arenas", &Usage::arenas);
}

struct Cyc {
    Rng rng;
    const string base;
    int kind; // storage of the database
    string dir;
    vector<string> keys;
    std::map<string, long long> did;
    Cyc(uint64_t s, const string& b, int k) : rng(s), base(b), kind(k) { }
    int uopt = 0;
    bool keep = false;
    MBConfig conf(int opt)
    {
        MBConfig c {};
        c.mbdir = dir.c_str();
        c.options = opt | uopt;
        c.block_size_index = c.block_size_data = 4u << 20;
        c.max_num_index_block = c.max_num_data_block = 8;
        c.memcap_index = c.memcap_data = kind == 1 ? 1u << 20 : 32u << 20;
        c.num_entry_per_bucket = 32;
        c.queue_size = 8;
        c.queue_dir = base.c_str();
        c.jemalloc_keep_db = keep;
        return c;
    }
    DB* open(int opt) { MBConfig c = conf(opt); return new DB(c); }
    string key() { return keys[rng.below(keys.size())]; }
    void updates(DB& w, int n)
    {
        for (int i = 0; i < n; i++) {
            string k = key();
            if (rng.chance(70)) { MBData d; string v = make_value(rng, rng.next() % 1000, 0); w.Add(k, v, rng.chance(60)); }
            else w.Remove(k);
        }
        did["updates"] += n;
    }
    void lookups(DB& r, int n)
    {
        for (int i = 0; i < n; i++) {
            string k = rng.chance(70) ? key() : key() + "zz";
            MBData d;
            switch (rng.below(5)) {
            case 0: r.Find(k, d); break;
            case 1: r.FindLongestPrefix(k, d); break;
            case 2: { string bound; r.FindLowerBound(k, d, &bound); break; }
            case 3: { int e; r.InDB(k.data(), (int)k.size(), e); break; }
            case 4: r.Find(k, d); r.Find(key(), d); r.FindLongestPrefix(key(), d); break; // one value object again and again
            }
        }
        did["lookups"] += n;
    }
    void iterate(DB& r)
    {
        int stop = rng.chance(60) ? 1 << 30 : rng.range(0, 30);
        int n = 0;
        try {
            if (rng.chance(50)) { for (auto it = r.begin(); it != r.end(); ++it) if (n++ >= stop) break; }
            else { string p = key().substr(0, 2); for (auto it = r.begin(p); it != r.end(); ++it) if (n++ >= stop) break; }
        } catch (int) { }
        did["iterations"]++;
    }
    // a writer for another database which cannot be opened
    void failing()
    {
        string d = dir = base + "/none";
        int o = uopt;
        bool kp = keep;
        uopt = 0;
        keep = false;
        switch (rng.below(3)) {
        case 0: { DB* x = open(CONSTS::ACCESS_MODE_WRITER); if (x->is_open()) R.viol("leak", "leak_open", "a writer opens in a missing directory"); delete x; break; }
        default: {
            mkdir_or_die(dir);
            MBConfig c = conf(CONSTS::ACCESS_MODE_WRITER);
            if (rng.chance(50)) c.data_size = 1 << 20;
            else { c.options |= CONSTS::OPTION_JEMALLOC; c.memcap_index = c.memcap_data = 12345; }
            DB* x = new DB(c);
            if (x->is_open()) R.stat("failing_opened");
            if (rng.chance(50)) x->Close();
            delete x;
            DB::ClearResources(dir);
            rm_tree(dir);
        } }
        uopt = o;
        keep = kp;
        dir = base + "/db";
        did["failed_writers"]++;
    }
    // the same reading and the same opening and closing again and again, while a writer stays open
    void steady()
    {
        prepare();
        keep = false;
        bool async = rng.chance(30) && kind != 3;
        DB* w = open(CONSTS::ACCESS_MODE_WRITER | (async ? CONSTS::ASYNC_WRITER_MODE : 0));
        if (!w->is_open()) { R.viol("leak", "leak_open", "the writer does not open: %s", w->StatusStr()); delete w; return; }
        DB* r = open(CONSTS::ACCESS_MODE_READER);
        updates(*w, rng.range(1, 400));
        for (int i = 0; async && i < 200000 && w->AsyncWriterBusy(); i++) usleep(20);
        unsigned mask = (unsigned)(rng.next() & rng.next()) | 1u << rng.below(9);
        uint64_t s0 = rng.next();
        vector<Usage> us;
        us.reserve(WARM + MORE);
        for (int n = 0; n < WARM + MORE && !R.viols; n++) {
            rng = Rng(s0);
            if (mask & 1) lookups(*r, 40);
            if (mask & 2) iterate(*r);
            if (mask & 4) { DB* x = open(CONSTS::ACCESS_MODE_READER); lookups(*x, 5); if (rng.chance(50)) x->Close(); delete x; }
            if (mask & 8) { DB x(*r); lookups(x, 5); }
            if (mask & 16) { DB* x = open(CONSTS::ACCESS_MODE_READER); *x = *r; lookups(*x, 5); delete x; }
            if (mask & 32) { DB* x = open(CONSTS::ACCESS_MODE_WRITER); if (x->is_open()) R.viol("leak", "leak_open", "a second writer opens"); delete x; }
            if (mask & 64) { string d = dir; dir = base + "/none"; DB* x = open(CONSTS::ACCESS_MODE_READER); dir = d; delete x; failing(); }
            if (mask & 128) { if (async) { updates(*r, 0); } else { lookups(*w, 40); iterate(*w); } }
            if (mask & 256) { std::ostringstream o; r->PrintStats(o); w->Count(); w->GetPendingDataBufferSize(); w->Flush(); }
            { Usage u = usage(base, kind); u.what = string(); us.push_back(u); }
            R.stat("steady_repetitions");
        }
        R.op("steady mask %x", mask);
        if (!R.viols) { judge(us, "with a writer open"); R.stat("steady_measured"); R.sig(fnvs(KIND[kind], mask + 7)); }
        delete r;
        delete w;
        DB::ClearResources(dir);
        rm_tree(dir);
    }
    void prepare()
    {
        dir = base + "/db";
        mkdir_or_die(dir);
        for (int i = 0; i < 60; i++) { string k = "k"; for (int j = rng.range(1, 20); j--;) k.push_back((char)('a' + rng.below(3))); keys.push_back(k); }
        uopt = kind == 2 ? CONSTS::MEMORY_ONLY_MODE : kind == 3 ? CONSTS::OPTION_JEMALLOC : kind == 4 ? CONSTS::OPTION_PREFIX_CACHE : 0;
    }
    void run()
    {
        prepare();
        int rounds = rng.range(1, 3);
        for (int r = 0; r < rounds; r++) {
            bool async = rng.chance(30) && kind != 3;
            keep = kind == 3 && rng.chance(60);
            DB* w = open(CONSTS::ACCESS_MODE_WRITER | (async ? CONSTS::ASYNC_WRITER_MODE : 0));
            if (!w->is_open()) { R.viol("leak", "leak_open", "the writer does not open: %s", w->StatusStr()); delete w; return; }
            vector<DB*> rd;
            for (int i = rng.range(0, 3); i--;) rd.push_back(open(CONSTS::ACCESS_MODE_READER));
            int nst = rng.range(3, 14);
            for (int s = 0; s < nst; s++) {
                switch (rng.below(16)) {
                case 0: case 1: case 2: updates(*w, rng.range(1, 150)); break;
                case 3: case 4: if (!rd.empty()) lookups(*rd[rng.below(rd.size())], rng.range(1, 60)); break;
                case 5: if (!async) lookups(*w, rng.range(1, 60)); break;
                case 6: case 7: if (!rd.empty()) iterate(*rd[rng.below(rd.size())]); else if (!async) iterate(*w); break;
                case 8: { DB* c = new DB(*w); if (c->is_open()) { lookups(*c, 5); iterate(*c); } rd.push_back(c); did["copies"]++; break; }
                case 9: if (rd.size() > 1) { *rd[0] = *rd[1]; did["assigned"]++; } break;
                case 10: if (!async && kind != 3) { try { w->CollectResource(1, 1); } catch (int) { } did["collections"]++; } break;
                case 11: if (rng.chance(40)) { try { w->RemoveAll(); } catch (int) { } did["removeall"]++; } break;
                case 12: { DB* x = open(CONSTS::ACCESS_MODE_WRITER); if (x->is_open()) R.viol("leak", "leak_open", "a second writer opens"); if (rng.chance(50)) x->Close(); delete x; did["refused"]++; break; }
                case 13: {
                    string d = dir;
                    dir = base + "/none";
                    DB* x = open(CONSTS::ACCESS_MODE_READER);
                    dir = d;
                    if (x->is_open()) R.viol("leak", "leak_open", "a reader of nothing opens");
                    delete x;
                    failing();
                    did["failed"]++;
                    break;
                }
                case 14: if (!async && kind != 2 && kind != 3 && rng.chance(50)) {
                    string b = base + "/bk";
                    mkdir_or_die(b);
                    try { w->Backup(b.c_str()); } catch (int) { }
                    DB::ClearResources(b);
                    rm_tree(b);
                    did["backups"]++;
                    break;
                }
                // fall through
                case 15: if (!rd.empty()) { size_t i = rng.below(rd.size()); if (rng.chance(50)) rd[i]->Close(); if (rng.chance(30)) rd[i]->Close(); delete rd[i]; rd.erase(rd.begin() + i); did["closed"]++; } break;
                }
                if (async) for (int i = 0; i < 200000 && w->AsyncWriterBusy(); i++) usleep(20);
            }
            bool wfirst = rng.chance(50);
            if (wfirst) { if (rng.chance(50)) w->Close(); delete w; }
            for (auto x : rd) { if (rng.chance(50)) x->Close(); delete x; }
            if (!wfirst) { if (rng.chance(50)) w->Close(); delete w; }
            did["rounds"]++;
        }
        DB::ClearResources(dir);
        rm_tree(dir);
    }
};

static void one(uint64_t seed, const Args& a)
{
    Rng r(seed);
    int kind = (int)a.n("kind", (long long)r.below(5));
    string base = mk_scratch(g_root, "leak");
    R.ctx += string(" ") + KIND[kind];
    R.trace.clear();
    vector<Usage> us;
    us.reserve(WARM + MORE);
    for (int i = 0; i < WARM + MORE && !R.viols; i++) {
        Cyc* c = new Cyc(seed * 31 + 5, base, kind);
        c->run();
        if (i == 0) for (auto& e : c->did) { R.stat(e.first, e.second * (WARM + MORE)); R.op("%s %lld", e.first.c_str(), e.second); }
        delete c;
        // a thread which has been joined may be listed a moment longer
        Usage u = usage(base, kind);
        for (int k = 0; k < 200 && !us.empty() && u.threads > us[0].threads; k++) { usleep(1000); u = usage(base, kind); }
        us.push_back(u);
        R.stat("repetitions");
        if (u.mine_fd || u.mine_map) R.viol("leak", u.mine_fd ? "leak_fd" : "leak_map", "%lld descriptors and %lld mappings of the database are left when everything is closed and cleared:%s", u.mine_fd, u.mine_map, u.what.c_str());
    }
    if (!R.viols) {
        judge(us, "closed and cleared");
        R.sig(fnvs(KIND[kind], seed));
        R.stat("measured");
        R.stat(string("measured_") + KIND[kind]);
    }
    if (!R.viols) {
        Cyc c(seed * 37 + 11, base, kind);
        c.steady();
        Usage u = usage(base, kind);
        if (u.mine_fd || u.mine_map) R.viol("leak", u.mine_fd ? "leak_fd" : "leak_map", "%lld descriptors and %lld mappings of the database are left when everything is closed and cleared:%s", u.mine_fd, u.mine_map, u.what.c_str());
    }
    rm_tree(base);
}

int main(int argc, char** argv)
{
    Args a(argc, argv);
    R.init(a);
    quiet_lib();
    g_root = a.s("root", "/dev/shm");
    uint64_t seed = (uint64_t)a.n("seed", 1);
    long long cases = a.n("cases", 10), first = a.n("first", 0);
    for (long long i = first; i < first + cases; i++) {
        R.ctx = "case " + std::to_string(i);
        one(seed * 1000003ull + (uint64_t)i, a);
        R.stat("cases");
        if (i < first + 2) R.sample(R.ctx);
    }
    R.stat("allocations", g_allocs);
    R.flush();
    return R.viols ? 3 : 0;
}
