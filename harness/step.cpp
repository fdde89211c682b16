// The library as it is compiled, one machine instruction at a time. A process is stopped between two instructions
// of one call; the others look at, or change, the shared files while it stands there.
//   crash: a writer is stopped after every store; the files as they are then are given to the next writer
//   read:  a lookup is stopped anywhere, the writer makes updates, and the lookup goes on
//   write: an update is stopped after every store, and readers look
//   rebuild: a writer which opens a jemalloc database that is kept is stopped anywhere, readers look, stand still in
//          the middle of a lookup, or are killed there, with or without being waited for
//   queue: producers stand still anywhere in a call which queues an update for the async writer, while others queue
//          theirs and the writer is closed, killed and opened again; then they go on, or are killed
#include "common.h"
#include "fsck.h"
#include <sys/prctl.h>
#include <sys/ptrace.h>

using namespace vh;
static Report R;
static string g_root;

// A child which calls body(i) for i = 0, 1, ... and stops before each call.
struct Stepper {
    pid_t pid = -1;
    bool done = false;
    int sig = 0;
    Stepper(std::function<void()> setup, std::function<void(int)> body)
    {
        fflush(NULL);
        pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setup();
            ptrace(PTRACE_TRACEME, 0, 0, 0);
            for (int i = 0;; i++) { raise(SIGSTOP); body(i); }
        }
        waitstop();
    }
    ~Stepper() { end(); }
    void end() { if (!done) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); done = true; } }
    int waitstop()
    {
        int st = 0;
        if (waitpid(pid, &st, 0) != pid) { done = true; return -1; }
        if (!WIFSTOPPED(st)) { done = true; sig = WIFSIGNALED(st) ? -WTERMSIG(st) : WEXITSTATUS(st); return -1; }
        return WSTOPSIG(st);
    }
    // One instruction; false at the end of the call (or when the child has gone).
    bool step()
    {
        if (done) return false;
        if (ptrace(PTRACE_SINGLESTEP, pid, 0, 0) != 0) { end(); return false; }
        int s = waitstop();
        if (s != SIGTRAP && s != SIGSTOP && !done) { sig = s; end(); }
        return s == SIGTRAP;
    }
    void run()
    {
        int s = SIGTRAP;
        while (!done && s == SIGTRAP) { if (ptrace(PTRACE_CONT, pid, 0, 0) != 0) { end(); return; } s = waitstop(); }
        if (s != SIGSTOP && !done) { sig = s; end(); }
    }
};
static Stepper* g_nap = nullptr; // stepped while the library naps
static bool* g_nap_end;
static long long g_naps = 0;
static void nap_of_reader();
extern "C" int nanosleep(const struct timespec*, struct timespec*)
{
    nap_of_reader();
    if (g_nap && !g_nap->done && !*g_nap_end) {
        g_naps++;
        for (int i = 0; i < 8; i++) if (!g_nap->step()) { *g_nap_end = true; break; }
    }
    return 0;
}

struct Shm;
static void nap_counted();
extern "C" int usleep(useconds_t) { nap_counted(); return 0; } // waiting takes no time here

struct Shm {
    volatile int begun, acked, rc, n;
    volatile int kind, naps, nap_stop; // why the writer stands: 0 between two calls, 1 at a copy, 2 it waits
    volatile long long copies, copy_stop;
    volatile int len, mlen;
    char buf[1 << 20];
    void put(const string& s) { len = (int)s.size(); memcpy(buf, s.data(), s.size()); }
    string get() { return string(buf, len); }
};
static Shm* g;
static Shm* g_own; // the answers of a process whose lookups stand still
static void nap_counted()
{
    if (!g) return;
    g->naps++;
    if (g->nap_stop && g->naps >= g->nap_stop) { g->kind = 2; raise(SIGSTOP); g->kind = 0; }
}
static bool g_standing = false; // this process is a reader whose lookups stand still
static void nap_of_reader() { if (g_standing) { g->kind = 3; raise(SIGSTOP); g->kind = 0; } }
// A place where a writer can be stopped without stepping through all that comes before.
static bool g_copies = false;
extern "C" void* memcpy(void* __restrict d, const void* __restrict s, size_t n)
{
    if (g_copies && ++g->copies == g->copy_stop) { g->kind = 1; raise(SIGSTOP); g->kind = 0; }
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}

enum { OP_ADD, OP_REMOVE, OP_RC, OP_REMOVEALL, OP_NONE };
static const char* opname[] = { "add", "remove", "rc", "removeall", "nothing" };
struct Op { int kind = OP_NONE; string k, v; };
typedef std::map<string, string> Map;
static string str(const Map& m, const string& k) { auto i = m.find(k); return i == m.end() ? "nothing" : hex(i->second); }

// What is in the files.
struct File {
    int fd = -1;
    const char* p = nullptr;
    size_t n = 0;
    bool open(const string& path)
    {
        fd = ::open(path.c_str(), O_RDONLY);
        struct stat st;
        if (fd < 0 || fstat(fd, &st) || !st.st_size) return false;
        n = st.st_size;
        void* a = mmap(nullptr, n, PROT_READ, MAP_SHARED, fd, 0);
        if (a == MAP_FAILED) return false;
        p = (const char*)a;
        return true;
    }
    ~File() { if (p) munmap((void*)p, n); if (fd >= 0) close(fd); }
};
struct Image {
    File f[3];
    struct Part { size_t at; string s; };
    vector<Part> parts[3];
    int age = 0;
    static const char* name(int i) { static const char* n[] = { "/_mabain_h", "/_mabain_i0", "/_mabain_d0" }; return n[i]; }
    bool open(const string& dir)
    {
        for (int i = 0; i < 3; i++) if (!f[i].open(dir + name(i))) return false;
        return true;
    }
    // true if something has changed; new pages are noticed now and then only, unless all is true
    bool update(bool all = false)
    {
        bool c = false;
        if (all || age++ % 256 == 0)
            for (int i = 0; i < 3; i++) {
                vector<Part> v;
                for (off_t b = 0, e; (b = lseek(f[i].fd, b, SEEK_DATA)) >= 0; b = e) {
                    e = lseek(f[i].fd, b, SEEK_HOLE);
                    v.push_back({ (size_t)b, string((size_t)(e - b), 0) });
                }
                bool same = v.size() == parts[i].size();
                for (size_t j = 0; same && j < v.size(); j++) same = v[j].at == parts[i][j].at && v[j].s.size() == parts[i][j].s.size();
                if (!same) { parts[i].swap(v); c = true; }
            }
        for (int i = 0; i < 3; i++)
            for (auto& x : parts[i])
                if (memcmp(&x.s[0], f[i].p + x.at, x.s.size())) { memcpy(&x.s[0], f[i].p + x.at, x.s.size()); c = true; }
        return c;
    }
    uint64_t hash() const
    {
        uint64_t h = 1;
        for (auto& p : parts) for (auto& x : p) for (size_t i = 0; i + 8 <= x.s.size(); i += 8) { uint64_t w; memcpy(&w, &x.s[i], 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
        return h;
    }
    void write(const string& dir)
    {
        update(true);
        for (int i = 0; i < 3; i++) {
            string p = dir + name(i);
            int fd = ::open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            bool ok = fd >= 0;
            for (auto& x : parts[i]) ok = ok && pwrite(fd, x.s.data(), x.s.size(), x.at) == (ssize_t)x.s.size();
            if (!ok || ftruncate(fd, f[i].n)) { perror(p.c_str()); _exit(2); }
            ::close(fd);
        }
    }
};

struct Case {
    Rng rng;
    KeyGen kg;
    string dir, dir2;
    MBConfig cfg {};
    int valprof = 0;
    bool pfx = false;
    Map model;
    uint64_t vid = 1;
    const Args& a;
    Case(uint64_t seed, const Args& args) : rng(seed), kg((int)Rng(seed ^ 77).below(KeyGen::NFAM + 1), &rng), a(args) { }

    DB* open(const string& d, int opt)
    {
        MBConfig c = cfg;
        c.mbdir = d.c_str();
        c.queue_dir = d.c_str();
        c.options = opt | (pfx ? CONSTS::OPTION_PREFIX_CACHE : 0);
        return new DB(c);
    }
    DB* writer(const string& d) { return open(d, CONSTS::ACCESS_MODE_WRITER); }
    DB* reader(const string& d) { return open(d, CONSTS::ACCESS_MODE_READER); }
    static int apply(DB& d, const Op& o)
    {
        try {
            switch (o.kind) {
            case OP_ADD: return d.Add(o.k, o.v, true);
            case OP_REMOVE: return d.Remove(o.k);
            case OP_RC: return d.CollectResource(1, 1);
            case OP_REMOVEALL: return d.RemoveAll();
            }
        } catch (int e) { return e; }
        return 0;
    }
    static void note(Map& m, const Op& o)
    {
        if (o.kind == OP_ADD) m[o.k] = o.v;
        else if (o.kind == OP_REMOVE) m.erase(o.k);
        else if (o.kind == OP_REMOVEALL) m.clear();
    }
    string near(const Map& m)
    {
        if (m.empty()) return kg.next();
        string k = kg.pick(m);
        int y = (int)rng.below(100);
        if (y < 30 && k.size() > 1) k.resize(1 + rng.below(k.size() - 1));
        else if (y < 55) for (int j = rng.range(1, 12); j--;) k.push_back((char)('a' + rng.below(3)));
        else { size_t at = rng.below(k.size()); k[at] = (char)(k[at] + 1 + rng.below(200)); if (rng.chance(50)) k.resize(at + 1); }
        if (k.size() > 256) k.resize(256);
        return k;
    }
    Op mkop(const Map& m, int rare)
    {
        Op o;
        int x = (int)rng.below(100);
        o.kind = x < rare ? (rng.chance(60) ? OP_RC : OP_REMOVEALL) : x < 55 || m.size() < 4 ? OP_ADD : OP_REMOVE;
        if (o.kind == OP_ADD) {
            int y = (int)rng.below(100);
            o.k = y < 20 && !m.empty() ? kg.pick(m) : y < 60 ? near(m) : kg.next();
            o.v = make_value(rng, vid++, valprof);
        } else if (o.kind == OP_REMOVE) o.k = kg.pick(m);
        return o;
    }
    void setup(const char* name)
    {
        valprof = 0;
        cfg.block_size_index = cfg.block_size_data = 4u << 20;
        cfg.max_num_index_block = cfg.max_num_data_block = 8;
        cfg.memcap_index = cfg.memcap_data = 32u << 20;
        cfg.num_entry_per_bucket = 500;
        cfg.queue_size = 8;
        pfx = rng.chance(6);
        dir = mk_scratch(g_root, "step");
        dir2 = dir + "/x";
        mkdir_or_die(dir2);
        char c[160];
        snprintf(c, sizeof c, "%s fam=%d pfx=%d", name, kg.family, pfx);
        R.ctx += string(" ") + c;
        R.trace.clear();
        R.op("%s", c);
        // the first contents
        DB* w = writer(dir);
        if (!w->is_open()) { R.viol("open", "step_open", "the first writer: %s", w->StatusStr()); return; }
        int n = rng.range(0, rng.chance(80) ? 25 : 80);
        for (int i = 0; i < n; i++) update(*w, mkop(model, 0), model);
        if (!n) { Op o; o.kind = OP_ADD; o.k = kg.next(); o.v = "first"; if (update(*w, o, model)) { o.kind = OP_REMOVE; update(*w, o, model); } }
        w->Close();
        delete w;
        DB::ClearResources(dir);
    }
    bool update(DB& w, const Op& o, Map& m)
    {
        int rc = apply(w, o);
        R.op("  %s %s", opname[o.kind], hex(o.k).c_str());
        if (rc != MBError::SUCCESS) { R.viol("open", "step_update", "%s(%s): %s", opname[o.kind], hex(o.k).c_str(), es(rc)); return false; }
        note(m, o);
        return true;
    }
    // ------------------------------------------------------------------------------------------------ crash
    void examine(const Map& before, const Op& op, bool full, const char* who)
    {
        Map after = before;
        note(after, op);
        DB* w = writer(dir2);
        if (!w->is_open()) { R.viol("crash", "step_crash_open", "%s cannot open the database: %s", who, w->StatusStr()); delete w; return; }
        auto ok = [&](const string& k, bool present, const string& v) {
            for (const Map* m : { &before, (const Map*)&after }) {
                auto i = m->find(k);
                if (i == m->end() ? !present : present && i->second == v) return true;
            }
            return false;
        };
        Map now;
        std::set<string> ks;
        for (auto& e : before) ks.insert(e.first);
        if (!op.k.empty()) ks.insert(op.k);
        for (int i = 0; i < 4; i++) ks.insert(kg.probe(before));
        for (auto& k : ks) {
            MBData x;
            int rc = w->Find(k, x);
            string v = rc == MBError::SUCCESS ? val_of(x) : "";
            R.stat("finds");
            if (rc != MBError::SUCCESS && rc != MBError::NOT_EXIST) R.viol("crash", "step_crash_error", "%s: Find(%s) returns %s", who, hex(k).c_str(), es(rc));
            else if (!ok(k, rc == MBError::SUCCESS, v))
                R.viol("crash", rc == MBError::SUCCESS ? "step_crash_wrong" : "step_crash_lost", "%s: Find(%s) %s %s, expected %s", who, hex(k).c_str(), rc == MBError::SUCCESS ? "returns" : "finds nothing", hex(v).c_str(), str(before, k).c_str());
            if (rc == MBError::SUCCESS) now[k] = v;
        }
        if (op.kind == OP_RC && now != before) R.viol("crash", "step_crash_lost", "%s: the contents differ", who);
        walk(who, ok);
        long long cn = (long long)w->Count(), lo = (long long)std::min(before.size(), after.size()) - 1, hi = (long long)std::max(before.size(), after.size()) + 1;
        if (cn < lo || cn > hi) R.viol("crash", "step_crash_count", "%s: Count() is %lld with %zu entries", who, cn, now.size());
        std::set<string> seen;
        for (auto it = w->begin(); it != w->end(); ++it) {
            string v = val_of(it.value);
            if (!seen.insert(it.key).second || !now.count(it.key) || now[it.key] != v) { R.viol("crash", "step_crash_iter", "%s: iteration returns %s = %s", who, hex(it.key).c_str(), hex(v).c_str()); break; }
        }
        if (seen.size() != now.size()) R.viol("crash", "step_crash_iter", "%s: iteration returns %zu of %zu entries", who, seen.size(), now.size());
        if (full) {
            for (int i = 0; i < 4; i++) {
                Op o = i == 0 && (op.kind == OP_ADD || op.kind == OP_REMOVE) ? op : mkop(now, i == 3 ? 10 : 0);
                if (o.kind == OP_REMOVE && !now.count(o.k)) { o.kind = OP_ADD; o.v = "again"; }
                int rc = apply(*w, o);
                if (rc != MBError::SUCCESS) { R.viol("crash", "step_crash_update", "%s: %s(%s): %s", who, opname[o.kind], hex(o.k).c_str(), es(rc)); break; }
                note(now, o);
            }
            for (auto& e : now) {
                MBData x;
                int rc = w->Find(e.first, x);
                if (rc != MBError::SUCCESS || val_of(x) != e.second) R.viol("crash", "step_crash_later", "%s, and further updates: Find(%s) %s", who, hex(e.first).c_str(), es(rc));
            }
            walk(who, [&](const string& k, bool, const string& v) { return now.count(k) && now[k] == v; });
            R.stat("continued");
        }
        w->Close();
        delete w;
        DB::ClearResources(dir2);
    }
    template <class OK> void walk(const char* who, OK ok)
    {
        Fsck k;
        if (!k.load(dir2)) { R.viol("crash", "step_crash_header", "%s: header unreadable", who); return; }
        k.walk();
        if (k.errs.empty()) k.check_overlap();
        for (auto& e : k.errs) R.viol("crash", "step_crash_fsck_" + e.first, "%s: %s", who, e.second.c_str());
        for (auto& e : k.kv) if (!ok(e.first, true, e.second)) R.viol("crash", "step_crash_tree", "%s: the tree has %s = %s", who, hex(e.first).c_str(), hex(e.second).c_str());
        R.stat("fsck");
    }
    void run_crash(int nops)
    {
        setup("crash");
        for (int it = 0; it < nops && !R.viols; it++) {
            // some updates by the same writer (its free lists have something then), and the one which is stepped through
            vector<Op> pre;
            Map m = model;
            for (int i = rng.chance(25) ? 0 : rng.range(1, 12); i--;) { pre.push_back(mkop(m, 0)); note(m, pre.back()); }
            int nst = rng.range(1, 3);
            vector<Op> ops;
            { Map m2 = m; for (int i = 0; i < nst; i++) { ops.push_back(mkop(m2, (int)a.n("rare", 3))); note(m2, ops.back()); } }
            memset((void*)g, 0, 64);
            for (auto& o : pre) R.op("  %s %s", opname[o.kind], hex(o.k).c_str());
            DB* w = nullptr;
            Stepper s([&] {
                w = writer(dir);
                if (!w->is_open()) { g->rc = w->Status(); _exit(43); }
                for (auto& o : pre) if ((g->rc = apply(*w, o))) _exit(44);
            }, [&](int i) {
                if (i >= nst) { w->Close(); _exit(0); }
                if ((g->rc = apply(*w, ops[i]))) _exit(44);
                g->acked = i + 1;
            });
            if (s.done) { R.viol("crash", "step_update", "the writer ended with %d: %s", s.sig, es(g->rc)); break; }
            Image im;
            if (!im.open(dir)) { R.viol("crash", "step_open", "files of the database are missing"); break; }
            im.update();
            for (int i = 0; i < nst && !R.viols; i++) {
                const Op& o = ops[i];
                R.op("  step through %s %s with %zu entries", opname[o.kind], hex(o.k).c_str(), m.size());
                long long n = 0, changes = 0, most = o.kind == OP_RC || o.kind == OP_REMOVEALL ? 3000000 : 500000;
                int want = (int)a.n("points", 100), pct = 100;
                while (s.step() && ++n < most) {
                    if (!im.update()) continue;
                    changes++;
                    R.stat("states");
                    if (changes > want) pct = 1 + want * 20 / (int)changes; // long operations: fewer and fewer
                    if (!rng.chance(pct)) continue;
                    R.stat("examined"); R.stat(string("examined_") + opname[o.kind]);
                    R.sig(im.hash());
                    char who[120];
                    snprintf(who, sizeof who, "the next writer after a kill at instruction %lld of %s(%s)", n, opname[o.kind], hex(o.k, 12).c_str());
                    im.write(dir2);
                    examine(m, o, rng.chance(40), who);
                    if (R.viols) break;
                }
                R.stat("instructions", n);
                R.stat("stepped"); R.stat(string("stepped_") + opname[o.kind]);
                if (n >= most) s.run();
                if (s.done) { R.viol("crash", "step_child", "the writer ended with %d in %s(%s): %s", s.sig, opname[o.kind], hex(o.k).c_str(), es(g->rc)); break; }
                note(m, o);
            }
            if (!s.done) s.run(); // Close
            if (access((dir + "/_mabain_i1").c_str(), F_OK) == 0 || access((dir + "/_mabain_d1").c_str(), F_OK) == 0) { R.stat("grown"); break; }
            model = m;
        }
        rm_tree(dir);
    }
    // ------------------------------------------------------------------------------------------------ read
    struct Q { int kind; string k; }; // 0 Find, 1 FindLongestPrefix, 2 iteration
    static void ask(DB& d, const Q& q)
    {
        if (q.kind == 2) {
            string o;
            int n = 0;
            try {
                for (auto it = q.k.empty() ? d.begin() : d.begin(q.k); it != d.end(); ++it) {
                    string v = val_of(it.value);
                    uint32_t kl = (uint32_t)it.key.size(), vl = (uint32_t)v.size();
                    o.append((char*)&kl, 4); o += it.key; o.append((char*)&vl, 4); o += v;
                    if (o.size() > 900000) { n = -1; break; }
                    n++;
                }
                g->rc = 0;
            } catch (int e) { g->rc = e; }
            g->n = n;
            g->put(o);
            return;
        }
        MBData x;
        int rc = q.kind ? d.FindLongestPrefix(q.k, x) : d.Find(q.k, x);
        g->mlen = x.match_len;
        g->put(rc == MBError::SUCCESS ? val_of(x) : "");
        g->rc = rc;
    }
    // The answer, given the contents at the start, the contents between and the contents at the end.
    void judge(const Q& q, const vector<Map>& st, const char* who)
    {
        int rc = g->rc;
        string v = g->get();
        auto all = [&](const string& k) { for (auto& m : st) if (!m.count(k)) return false; return true; };
        auto any = [&](const string& k, const string& x) { for (auto& m : st) { auto i = m.find(k); if (i != m.end() && i->second == x) return true; } return false; };
        if (q.kind == 0) {
            R.stat("finds");
            if (rc == MBError::SUCCESS) {
                if (!any(q.k, v)) R.viol("lin", "step_find_wrong", "%s: Find(%s) returns %s, which was not its value (%s, later %s)", who, hex(q.k).c_str(), hex(v).c_str(), str(st[0], q.k).c_str(), str(st.back(), q.k).c_str());
            } else if (rc == MBError::NOT_EXIST) {
                if (all(q.k)) R.viol("lin", "step_find_lost", "%s: Find(%s) finds nothing, it was there all the time (%s)", who, hex(q.k).c_str(), str(st.back(), q.k).c_str());
            } else R.viol("lin", "step_find_error", "%s: Find(%s): %s", who, hex(q.k).c_str(), es(rc));
        } else if (q.kind == 1) {
            R.stat("prefixes");
            int ml = rc == MBError::SUCCESS ? (int)g->mlen : 0;
            if (rc == MBError::SUCCESS) {
                if (ml < 1 || ml > (int)q.k.size() || !any(q.k.substr(0, ml), v)) { R.viol("plin", "step_prefix_wrong", "%s: FindLongestPrefix(%s) returns %d bytes, %s", who, hex(q.k).c_str(), ml, hex(v).c_str()); return; }
            } else if (rc != MBError::NOT_EXIST) { R.viol("plin", "step_prefix_error", "%s: FindLongestPrefix(%s): %s", who, hex(q.k).c_str(), es(rc)); return; }
            for (int l = ml + 1; l <= (int)q.k.size(); l++)
                if (all(q.k.substr(0, l))) R.viol("plin", "step_prefix_missed", "%s: FindLongestPrefix(%s) returns %d bytes, %s was there all the time", who, hex(q.k).c_str(), ml, hex(q.k.substr(0, l)).c_str());
        } else {
            R.stat("iters");
            if (rc) { R.viol("ilin", "step_iter_error", "%s: iteration ends with %s", who, es(rc)); return; }
            std::set<string> seen;
            for (size_t p = 0; p + 8 <= v.size();) {
                uint32_t n;
                memcpy(&n, &v[p], 4); string k = v.substr(p + 4, n); p += 4 + n;
                memcpy(&n, &v[p], 4); string x = v.substr(p + 4, n); p += 4 + n;
                if (k.compare(0, q.k.size(), q.k)) { R.viol("ilin", "step_iter_prefix", "%s: iteration over %s returns %s", who, hex(q.k).c_str(), hex(k).c_str()); return; }
                if (!seen.insert(k).second) { R.viol("ilin", "step_iter_twice", "%s: iteration returns %s twice", who, hex(k).c_str()); return; }
                if (!any(k, x)) { R.viol("ilin", "step_iter_wrong", "%s: iteration returns %s = %s, which was not its value", who, hex(k).c_str(), hex(x).c_str()); return; }
            }
            if (g->n < 0) return; // too much for the buffer
            for (auto& e : st[0]) if (e.first.compare(0, q.k.size(), q.k) == 0 && !seen.count(e.first) && all(e.first))
                { R.viol("ilin", "step_iter_missed", "%s: iteration over '%s' misses %s, which was there all the time", who, hex(q.k).c_str(), hex(e.first).c_str()); return; }
        }
    }
    Q mkq(const Map& m)
    {
        Q q;
        int c = (int)rng.below(100), ip = (int)a.n("iter", 12), pp = (int)a.n("prefix", 30);
        q.kind = c < ip ? 2 : c < ip + pp ? 1 : 0;
        if (q.kind == 2) { q.k = m.empty() || rng.chance(60) ? "" : kg.pick(m).substr(0, rng.below(4)); return q; }
        q.k = m.empty() || rng.chance(8) ? kg.probe(m) : kg.pick(m);
        if (q.kind == 1 && rng.chance(70)) for (int j = rng.range(1, 10); j--;) q.k.push_back((char)('a' + rng.below(3)));
        if (q.k.empty()) q.k = "q";
        if (q.k.size() > 256) q.k.resize(256);
        return q;
    }
    // updates which move what the lookup of k is walking through
    Op close_op(const Map& m, const string& k)
    {
        Op o;
        int c = (int)rng.below(100);
        if (k.empty() || c < 25) return mkop(m, 0);
        auto lo = m.lower_bound(k.substr(0, rng.below(k.size() + 1)));
        string nb = lo == m.end() ? (m.empty() ? k : m.rbegin()->first) : lo->first;
        o.kind = c < 70 || m.empty() ? OP_ADD : OP_REMOVE;
        if (o.kind == OP_REMOVE) { o.k = m.count(k) && rng.chance(40) ? k : nb; if (!m.count(o.k)) o.kind = OP_ADD; }
        if (o.kind == OP_ADD) {
            o.k = rng.chance(30) ? k : rng.chance(30) ? nb : k.substr(0, 1 + rng.below(k.size()));
            if (rng.chance(50)) for (int j = rng.range(1, 10); j--;) o.k.push_back((char)('a' + rng.below(3)));
            if (o.k.size() > 256) o.k.resize(256);
            o.v = make_value(rng, vid++, valprof);
        }
        return o;
    }
    void run_read(int nops)
    {
        setup("read");
        DB* w = writer(dir);
        if (!w->is_open()) { R.viol("lin", "step_open", "the writer cannot open the database"); return; }
        for (int it = 0; it < nops && !R.viols;) {
            // one reader process; its calls are stopped, one after another, at every so many instructions
            struct Cmd { volatile int kind, klen; char k[300]; };
            static Cmd* cmd = (Cmd*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            DB* rd = nullptr;
            Stepper s([&] { w = nullptr; rd = reader(dir); if (!rd->is_open()) _exit(43); },
                [&](int) { ask(*rd, Q { cmd->kind, string(cmd->k, cmd->klen) }); });
            if (s.done) { R.viol("lin", "step_open", "a reader cannot open the database (%d)", s.sig); break; }
            long long est[3] = { 600, 600, 4000 };
            for (int i = 0; i < 60 && it < nops && !R.viols; i++, it++) {
                Q q = mkq(model);
                cmd->kind = q.kind; cmd->klen = (int)q.k.size(); memcpy(cmd->k, q.k.data(), q.k.size());
                vector<Map> st { model };
                R.op(" call %d %s", q.kind, hex(q.k).c_str());
                bool ended = false;
                int stops = rng.chance(70) ? 1 : rng.range(2, 4);
                long long at = 0;
                for (int b = 0; b < stops && !ended; b++) {
                    long long n = (long long)rng.below(est[q.kind] / stops + 40);
                    long long j = 0;
                    while (j < n && !(ended = !s.step())) j++;
                    at += j;
                    R.stat("instructions", j);
                    if (ended) { est[q.kind] = (est[q.kind] * 3 + at) / 4 + 1; break; }
                    R.op(" stopped after %lld instructions", at);
                    int nu = rng.range(1, rng.chance(60) ? 3 : 9);
                    if (rng.chance(3)) { Op o; o.kind = rng.chance(70) ? OP_RC : OP_REMOVEALL; if (!update(*w, o, model)) break; if (o.kind == OP_REMOVEALL) { /* key by key */ for (auto& e : Map(st.back())) { Map x = st.back(); x.erase(e.first); st.push_back(x); if (st.size() > 200) break; } } st.push_back(model); }
                    for (int u = 0; u < nu; u++) { if (!update(*w, close_op(model, q.k), model)) break; st.push_back(model); }
                }
                if (!ended) { est[q.kind] = est[q.kind] + est[q.kind] / 50 + 1; R.stat("overlapped"); }
                if (!ended && !s.done) s.run();
                if (s.done) { R.viol(q.kind == 0 ? "lin" : q.kind == 1 ? "plin" : "ilin", "step_reader_died", "the reader ended with %d in call %d (%s)", s.sig, q.kind, hex(q.k).c_str()); break; }
                R.sig(fnvs(q.k, (uint64_t)at * 7 + st.size() + it * 131));
                char who[80];
                snprintf(who, sizeof who, "stopped after %lld instructions, %zu updates", at, st.size() - 1);
                judge(q, st, who);
                if (rng.chance(30)) update(*w, mkop(model, 2), model);
                if (model.size() > 150) { Op o; o.kind = OP_REMOVEALL; update(*w, o, model); }
            }
        }
        w->Close();
        delete w;
        rm_tree(dir);
    }
    // ------------------------------------------------------------------------------------------------ write
    void run_write(int nops)
    {
        setup("write");
        DB* w = nullptr;
        static struct Cmd { volatile int kind, klen, vlen; char k[300]; char v[40000]; }* cmd = nullptr;
        if (!cmd) cmd = (Cmd*)mmap(nullptr, sizeof(Cmd), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        Stepper s([&] { w = writer(dir); if (!w->is_open()) _exit(43); },
            [&](int) { Op o; o.kind = cmd->kind; o.k.assign(cmd->k, cmd->klen); o.v.assign(cmd->v, cmd->vlen); g->acked = apply(*w, o); });
        if (s.done) { R.viol("lin", "step_open", "the writer cannot open the database (%d)", s.sig); return; }
        DB* rd = reader(dir);
        Image im;
        if (!rd->is_open() || !im.open(dir)) { R.viol("lin", "step_open", "the reader cannot open the database"); return; }
        im.update();
        for (int it = 0; it < nops && !R.viols; it++) {
            Op o = mkop(model, 1);
            if (o.kind == OP_RC && rng.chance(70)) o = mkop(model, 0);
            cmd->kind = o.kind; cmd->klen = (int)o.k.size(); cmd->vlen = (int)o.v.size();
            memcpy(cmd->k, o.k.data(), o.k.size()); memcpy(cmd->v, o.v.data(), o.v.size());
            Map after = model;
            note(after, o);
            vector<Map> st { model };
            if (o.kind == OP_REMOVEALL) for (auto& e : model) { Map x = st.back(); x.erase(e.first); st.push_back(x); }
            st.push_back(after);
            bool ended = false, seen = false;
            bool every = rng.chance(35); // every state, or only a few
            R.op("  step through %s %s with %zu entries", opname[o.kind], hex(o.k).c_str(), model.size());
            long long n = 0;
            while (!ended && !R.viols && n < (o.kind >= OP_RC ? 1500000 : 300000)) {
                if (!s.step()) { ended = true; break; }
                n++;
                if (!im.update()) continue;
                R.stat("states");
                if (!every && !rng.chance(15)) continue;
                if (o.kind >= OP_RC && !rng.chance(5)) continue;
                int nq = rng.range(1, 3);
                for (int j = 0; j < nq && !ended; j++) {
                    Q q = mkq(model);
                    if (!o.k.empty() && rng.chance(50)) { q.k = o.k; if (q.kind == 2) q.k = o.k.substr(0, rng.below(3)); }
                    g_nap = &s; g_nap_end = &ended;
                    long long nap0 = g_naps;
                    ask(*rd, q);
                    g_nap = nullptr;
                    if (g_naps > nap0) R.stat("retries");
                    char who[80];
                    snprintf(who, sizeof who, "%lld instructions into %s(%s)", n, opname[o.kind], hex(o.k, 12).c_str());
                    R.stat("examined");
                    if (seen && q.kind == 0 && q.k == o.k) judge(q, { after }, who);
                    else judge(q, st, who);
                    if (q.kind == 0 && q.k == o.k && g->rc == (o.kind == OP_ADD ? MBError::SUCCESS : MBError::NOT_EXIST) && (o.kind != OP_ADD || g->get() == o.v)) { seen = true; R.stat("seen_early"); }
                }
                R.sig(im.hash());
            }
            if (!ended && !s.done) s.run();
            R.stat("instructions", n);
            R.stat("stepped");
            if (s.done || g->acked) { R.viol("lin", "step_update", "%s(%s): %s, the writer ended with %d", opname[o.kind], hex(o.k).c_str(), es(g->acked), s.sig); break; }
            model = after;
            for (int j = 0; j < 2; j++) { Q q = mkq(model); if (!o.k.empty() && !j) q.k = q.kind == 2 ? "" : o.k; ask(*rd, q); judge(q, { model }, "after the update"); }
            if (model.size() > 150) break;
        }
        rd->Close();
        delete rd;
        s.end();
        rm_tree(dir);
    }
};

// A jemalloc database is kept over restarts of its writer while readers are at work.
struct Rebuild : Case {
    struct Cmd2 { volatile int kind, klen; char k[300]; };
    bool big = false, many = false;
    DB* jem(const string& d, bool w)
    {
        MBConfig c = cfg;
        c.mbdir = d.c_str();
        c.queue_dir = d.c_str();
        c.options = (w ? CONSTS::ACCESS_MODE_WRITER : CONSTS::ACCESS_MODE_READER) | CONSTS::OPTION_JEMALLOC;
        c.jemalloc_keep_db = w;
        return new DB(c);
    }
    Rebuild(uint64_t seed, const Args& args) : Case(seed, args)
    {
        many = rng.chance((int)a.n("many", 4));
        cfg.block_size_index = cfg.block_size_data = 4u << 20;
        cfg.max_num_index_block = 8;
        cfg.max_num_data_block = many ? 120 : 12;
        cfg.memcap_index = (size_t)cfg.block_size_index * cfg.max_num_index_block;
        cfg.memcap_data = (size_t)cfg.block_size_data * cfg.max_num_data_block;
        cfg.num_entry_per_bucket = 500;
        cfg.queue_size = 8;
        big = many || rng.chance(60);
        dir = mk_scratch(g_root, "step");
        char c[160];
        snprintf(c, sizeof c, "rebuild fam=%d big=%d many=%d", kg.family, big, many);
        R.ctx += string(" ") + c;
        R.trace.clear();
        R.op("%s", c);
    }
    Op jop(int rm)
    {
        Op o = mkop(model, 0);
        if (model.size() > 4 && rng.chance(rm)) { o.kind = OP_REMOVE; o.k = kg.pick(model); }
        if (o.kind == OP_ADD && big && rng.chance(40)) o.v = make_value(rng, vid++, 0) + string(rng.range(20000, 32000), 'x');
        return o;
    }
    // Buffers that stay are apart from each other.
    bool spread(DB& w)
    {
        int n = many ? 88 + (int)rng.below(10) : (int)rng.below(6), stay = many ? 100 : 20;
        vector<Op> v;
        for (int b = 0; b < n * 138; b++) {
            Op o; o.kind = OP_ADD; o.k = "t" + std::to_string(b); o.v = string(30000, (char)('a' + b % 26));
            int rc = apply(w, o);
            if (rc != MBError::SUCCESS) { R.viol("rebuild", "step_rebuild_update", "Add number %d: %s", b, es(rc)); return false; }
            v.push_back(o);
        }
        for (auto& o : v) {
            if (!rng.below(stay)) { model[o.k] = o.v; continue; }
            o.kind = OP_REMOVE;
            int rc = apply(w, o);
            if (rc != MBError::SUCCESS) { R.viol("rebuild", "step_rebuild_update", "Remove: %s", es(rc)); return false; }
        }
        return true;
    }
    void check(DB& d, const char* who, bool all)
    {
        int n = all ? 1 << 30 : 6;
        for (auto& e : model) {
            if (!all && !rng.chance(20)) continue;
            MBData x;
            int rc = d.Find(e.first, x);
            R.stat("finds");
            if (rc != MBError::SUCCESS || val_of(x) != e.second) { R.viol("rebuild", rc ? "step_rebuild_lost" : "step_rebuild_wrong", "%s: Find(%s): %s (%zu entries should be there)", who, hex(e.first).c_str(), es(rc), model.size()); return; }
            if (!--n) break;
        }
    }
    void run(int nops)
    {
        DB* w = jem(dir, true);
        if (!w->is_open()) { R.viol("rebuild", "step_open", "the first writer: %s", w->StatusStr()); return; }
        int n = rng.range(1, 60);
        for (int i = 0; i < n; i++) update(*w, jop(15), model);
        if (big) spread(*w);
        w->Close();
        delete w;
        DB* rd = jem(dir, false);
        if (!rd->is_open()) { R.viol("rebuild", "step_open", "the reader: %s", rd->StatusStr()); return; }
        static Cmd2* cmd = (Cmd2*)mmap(nullptr, sizeof(Cmd2), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        long long est = 3000;
        vector<pid_t> unreaped;
        for (int it = 0; it < nops && !R.viols; it++) {
            memset((void*)g, 0, 64);
            memset((void*)g_own, 0, 64);
            vector<Op> post;
            Map m0 = model;
            { Map m = model; for (int i = rng.range(1, 10); i--;) { Map keep = model; model = m; Op o = jop(30); model = keep; post.push_back(o); note(m, o); } }
            DB* nw = nullptr;
            Stepper s([&] { }, [&](int i) {
                g_copies = i == 0;
                if (i == 0) { nw = jem(dir, true); if (!nw->is_open()) { g->rc = nw->Status(); _exit(43); } g->acked = 1; }
                else if (i == 1) { for (auto& o : post) if ((g->rc = apply(*nw, o))) _exit(44); }
                else { nw->Close(); _exit(0); }
            });
            Stepper* s2 = nullptr;
            Q q2;
            long long n2 = 0, est2 = 3000;
            auto new_reader = [&] {
                s2 = new Stepper([&] { g = g_own; g_standing = true; DB* x = jem(dir, false); delete rd; rd = x; if (!rd->is_open()) _exit(43); }, [&](int) { ask(*rd, Q { cmd->kind, string(cmd->k, cmd->klen) }); });
                if (s2->done) R.viol("rebuild", "step_open", "a reader cannot open the database (%d)", s2->sig);
            };
            bool inside = false, ended = false;
            bool second = rng.chance(80), patient = rng.chance(many ? 70 : 30);
            if (second) new_reader();
            auto finish2 = [&](const char* how) {
                if (!inside) return;
                inside = false;
                g_nap = nullptr;
                s2->run();
                // It waits for the writer, which stands in the middle of an update.
                while (!s2->done && g_own->kind == 3) {
                    R.stat("retries");
                    for (int i = 0; i < 20 && !ended; i++) if (!s.step()) ended = true;
                    s2->run();
                }
                if (s2->done) { R.viol("rebuild", "step_reader_died", "the reader ended with %d in call %d (%s)", s2->sig, q2.kind, hex(q2.k).c_str()); return; }
                char who[100];
                snprintf(who, sizeof who, "a lookup which stood still after %lld instructions, %s", n2, how);
                R.stat("overlapped");
                std::swap(g, g_own);
                judge2(q2, who);
                std::swap(g, g_own);
            };
            vector<long long> at;
            for (int i = rng.range(4, 16); i--;) at.push_back(1 + (long long)rng.below((uint64_t)(est * 1.05)));
            std::sort(at.begin(), at.end());
            at.push_back(1LL << 60);
            // The writer goes on to its next stop; it does not wait for a lookup which stands still for ever.
            auto go = [&](long long to) {
                g->copy_stop = to;
                for (;;) {
                    g->nap_stop = inside ? g->naps + 3 : 0;
                    s.run();
                    g->nap_stop = 0;
                    if (s.done || g->kind == 0) { ended = true; return; }
                    if (g->kind == 1) return;
                    R.stat("waited");
                    finish2("until the writer waited for it");
                    if (R.viols) return;
                }
            };
            for (size_t b = 0; b < at.size() && !ended && !R.viols; b++) {
                if (g->copies >= at[b]) continue;
                go(at[b]);
                if (ended || R.viols) break;
                long long n = g->copies;
                int extra = (int)rng.below(600);
                for (int j = 0; j < extra && !ended; j++) if (!s.step()) ended = true;
                if (ended) break;
                R.op("  the writer stands after %lld copies, %d instructions", n, extra);
                R.stat("stops");
                R.sig(fnvs(kg.family ? "a" : "b", (uint64_t)n * 6007 + extra * 31 + it));
                // 1. lookups while the writer stands still
                for (int j = rng.range(0, 3); j-- && !ended;) {
                    Q q = mkq(model);
                    g_nap = &s; g_nap_end = &ended;
                    ask(*rd, q);
                    g_nap = nullptr;
                    char who[100];
                    snprintf(who, sizeof who, "%lld copies and %d instructions into the opening of the next writer", n, extra);
                    judge2(q, who);
                }
                if (!second || R.viols) continue;
                // 2. a lookup which stands still while the writer goes on, or never ends
                if (inside && rng.chance(patient ? 4 : 50)) finish2("then went on");
                if (!inside && !R.viols && rng.chance(75)) {
                    q2 = mkq(model);
                    if (q2.kind == 2) q2.kind = 0, q2.k = model.empty() ? "q" : kg.pick(model);
                    cmd->kind = q2.kind; cmd->klen = (int)q2.k.size(); memcpy(cmd->k, q2.k.data(), q2.k.size());
                    long long lim = (long long)rng.below((uint64_t)est2);
                    inside = true;
                    for (n2 = 0; n2 < lim; n2++) if (!s2->step()) { inside = false; break; }
                    if (s2->done) { R.viol("rebuild", "step_reader_died", "the reader ended with %d", s2->sig); break; }
                    if (!inside && g_own->kind == 3) inside = true;
                    if (!inside) { est2 = est2 * 3 / 4 + n2 / 4 + 1; std::swap(g, g_own); judge2(q2, "a lookup while the writer stood still"); std::swap(g, g_own); }
                    else {
                        R.op("  a lookup of %s stands after %lld instructions", hex(q2.k).c_str(), n2);
                        if (rng.chance(25)) {
                            bool reap = rng.chance(50);
                            R.op("  it is killed%s", reap ? "" : " and nobody waits for it");
                            kill(s2->pid, SIGKILL);
                            int st = 0;
                            if (reap) waitpid(s2->pid, &st, 0);
                            else { siginfo_t si; waitid(P_PID, (id_t)s2->pid, &si, WEXITED | WNOWAIT); unreaped.push_back(s2->pid); }
                            s2->done = true;
                            inside = false;
                            R.stat("killed"); if (!reap) R.stat("killed_not_waited_for");
                            delete s2;
                            s2 = nullptr;
                            second = false;
                        }
                    }
                }
            }
            if (!R.viols) finish2("until the writer was open");
            R.stat("copies", g->copies);
            R.stat("naps", g->naps);
            est = (it ? est + g->copies : 2 * g->copies) / 2 + 1;
            if (s.done && !R.viols) R.viol("rebuild", "step_rebuild_open", "the next writer ended with %d: %s", s.sig, es(g->rc));
            if (!R.viols) {
                check(*rd, "the reader after the rebuild", true);
                Q q; q.kind = 2;
                ask(*rd, q);
                judge2(q, "after the rebuild");
                for (auto& o : post) note(model, o), R.op("  %s %s", opname[o.kind], hex(o.k).c_str());
                s.run();
                if (s.done) R.viol("rebuild", "step_rebuild_update", "the writer ended with %d in an update: %s", s.sig, es(g->rc));
                else {
                    check(*rd, "the reader after the next updates", true);
                    if ((long long)model.size() != (long long)rd->Count()) R.viol("rebuild", "step_rebuild_count", "Count() is %lld with %zu entries", (long long)rd->Count(), model.size());
                    s.run();
                }
            }
            if (s2) { s2->end(); delete s2; }
            s.end();
            for (auto p : unreaped) { int st; waitpid(p, &st, 0); }
            unreaped.clear();
            R.stat("rebuilds");
        }
        rd->Close();
        delete rd;
        DB::ClearResources(dir);
        rm_tree(dir);
    }
    void judge2(const Q& q, const char* who) { R.stat(q.kind == 2 ? "iters" : q.kind ? "prefixes" : "finds_during"); judge(q, { model }, who); }
};

// Time runs as fast as the harness likes, and the async writer looks at its queue often.
struct QSync { volatile long long clock; volatile int cmd, done, rc, open; volatile int kind; volatile int klen, vlen, ow; char k[300], v[2000]; };
static QSync* g_q;
#include <poll.h>
#include <sys/syscall.h>
#include <sys/time.h>
extern "C" int gettimeofday(struct timeval* __restrict tv, void* __restrict) noexcept
{
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec + (g_q ? g_q->clock : 0);
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
extern "C" int poll(struct pollfd* p, nfds_t n, int tmo)
{
    if (g_q && tmo > 2) tmo = 2;
    return (int)syscall(SYS_poll, p, n, tmo);
}

struct Queue : Case {
    struct PCmd { volatile int kind, klen, vlen, ow, rc; char k[300], v[2000]; };
    struct QOp { int kind = OP_NONE; bool ow = true; string k, v; int who = 0; size_t from = 0, to = 0; bool maybe = false, gone = false, soft = false; };
    enum { NP = 3 };
    struct P { Stepper* s = nullptr; PCmd* c = nullptr; bool inside = false; size_t op = 0; long long at = 0; } pr[NP];
    vector<QOp> ops;       // since the last check; those of one caller after another, or of producers standing still
    size_t done = 0;       // calls of the others so far
    pid_t wp = -1;
    DB* rd = nullptr;
    vector<string> keys;
    bool killedw = false;
    bool rc_asked = false; // collections of this writer since the queue was empty
    long long est = 900;
    Queue(uint64_t seed, const Args& args) : Case(seed, args) { }

    void start_writer()
    {
        g_q->cmd = 0; g_q->done = 0; g_q->open = 0;
        fflush(NULL);
        wp = fork();
        if (wp == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            for (auto& p : pr) p.s = nullptr;
            DB* w = open(dir, CONSTS::ACCESS_MODE_WRITER | CONSTS::ASYNC_WRITER_MODE);
            g_q->rc = w->Status();
            g_q->open = w->is_open() ? 1 : 2;
            for (;;) {
                while (g_q->cmd == g_q->done) sched_yield();
                if (g_q->kind == 100) { w->Close(); _exit(0); }
                int rc = 0;
                try {
                    string k((char*)g_q->k, g_q->klen), v((char*)g_q->v, g_q->vlen);
                    rc = g_q->kind == OP_ADD ? w->Add(k, v, g_q->ow) : g_q->kind == OP_REMOVE ? w->Remove(k) : w->RemoveAll();
                } catch (int e) { rc = e; }
                g_q->rc = rc;
                g_q->done = g_q->cmd;
            }
        }
        for (int i = 0; !g_q->open && i < 600000; i++) { struct timespec t { 0, 100000 }; syscall(SYS_nanosleep, &t, 0); int st; if (waitpid(wp, &st, WNOHANG) == wp) { R.viol("queue", "step_queue_writer", "the async writer ended while it opened the database (status %x)", st); wp = -1; return; } }
        if (g_q->open != 1) R.viol("queue", "step_queue_writer", "the async writer does not open the database: %s", g_q->open ? es(g_q->rc) : "nothing after 60 s");
    }
    void stop_writer(bool hard)
    {
        if (wp < 0) return;
        if (hard) {
            kill(wp, SIGKILL);
            // What was added during a collection which was interrupted is not kept; AbnormalExitTest says so.
            if (rc_asked) for (auto& o : ops) if (o.kind == OP_ADD && !o.soft) { o.soft = true; R.stat("during_collection"); }
        }
        else { g_q->kind = 100; g_q->cmd = g_q->cmd + 1; }
        int st = 0;
        for (int i = 0; i < 600000 && waitpid(wp, &st, WNOHANG) != wp; i++) { struct timespec t { 0, 100000 }; syscall(SYS_nanosleep, &t, 0); if (i == 599999) { R.viol("queue", "step_queue_hang", "the async writer does not close within 60 s"); kill(wp, SIGKILL); waitpid(wp, &st, 0); st = 9; hard = true; } }
        if (!hard && st) R.viol("queue", "step_queue_writer", "the async writer died in Close (status %x)", st);
        wp = -1;
        R.stat(hard ? "writer_killed" : "writer_closed");
    }
    QOp qop()
    {
        QOp o;
        int x = (int)rng.below(100);
        o.kind = x < 60 ? OP_ADD : x < 96 ? OP_REMOVE : OP_REMOVEALL;
        o.ow = rng.chance(75);
        if (o.kind != OP_REMOVEALL) o.k = keys[rng.below(keys.size())];
        if (o.kind == OP_ADD) o.v = make_value(rng, vid++, 1).substr(0, 1500);
        return o;
    }
    static void fx(Map& m, const QOp& o)
    {
        if (o.kind == OP_ADD) { if (o.ow || !m.count(o.k)) m[o.k] = o.v; }
        else if (o.kind == OP_REMOVE) m.erase(o.k);
        else m.clear();
    }
    // an update by this process or by the writer itself
    void plain()
    {
        if (rng.chance((int)a.n("rc", 6))) {
            int rc = rd->CollectResource(1, 1);
            R.op("  client asks for resource collection = %s", es(rc));
            R.stat("rc_requests");
            rc_asked = true;
            if (rc && rc != MBError::TRY_AGAIN) R.viol("queue", "step_queue_rc", "CollectResource through the queue: %s", es(rc));
            return;
        }
        QOp o = qop();
        int rc;
        bool byw = wp > 0 && rng.chance(25);
        o.from = o.to = done;
        try {
            if (byw) {
                g_q->kind = o.kind; g_q->klen = (int)o.k.size(); g_q->vlen = (int)o.v.size(); g_q->ow = o.ow;
                memcpy(g_q->k, o.k.data(), o.k.size()); memcpy(g_q->v, o.v.data(), o.v.size());
                g_q->cmd = g_q->cmd + 1;
                long long i = 0;
                while (g_q->done != g_q->cmd && ++i < 60000000) sched_yield();
                if (g_q->done != g_q->cmd) { R.viol("queue", "step_queue_hang", "an update by the async writer itself does not return"); return; }
                rc = g_q->rc;
                if (rc == MBError::IN_DICT && o.kind == OP_ADD && !o.ow) rc = 0;
            } else if (rng.chance(20)) rc = o.kind == OP_ADD ? rd->AddAsync(o.k.data(), (int)o.k.size(), o.v.data(), (int)o.v.size(), o.ow) : o.kind == OP_REMOVE ? rd->RemoveAsync(o.k.data(), (int)o.k.size()) : rd->RemoveAll();
            else rc = o.kind == OP_ADD ? rd->Add(o.k, o.v, o.ow) : o.kind == OP_REMOVE ? rd->Remove(o.k) : rd->RemoveAll();
        } catch (int e) { rc = e; }
        R.op("  %s %s %s %d = %s", byw ? "writer" : "client", opname[o.kind], hex(o.k).c_str(), o.ow, es(rc));
        R.stat(byw ? "by_writer" : "by_client");
        if (rc == MBError::TRY_AGAIN) { R.stat("refused"); return; }
        if (rc) { R.viol("queue", "step_queue_rc", "%s(%s) through the queue: %s", opname[o.kind], hex(o.k).c_str(), es(rc)); return; }
        done++;
        o.from = o.to = done;
        ops.push_back(o);
    }
    void spawn(P& p)
    {
        if (!p.c) p.c = (PCmd*)mmap(nullptr, sizeof(PCmd), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        DB* d = nullptr;
        PCmd* c = p.c;
        p.s = new Stepper([&] { d = reader(dir); if (!d->is_open()) _exit(43); },
            [&](int) {
                string k(c->k, c->klen), v(c->v, c->vlen);
                try { c->rc = c->kind == OP_ADD ? d->Add(k, v, c->ow) : c->kind == OP_REMOVE ? d->Remove(k) : d->RemoveAll(); } catch (int e) { c->rc = e; }
            });
        if (p.s->done) R.viol("queue", "step_open", "a producer cannot open the database (%d)", p.s->sig);
    }
    void begin(P& p)
    {
        if (!p.s) spawn(p);
        if (R.viols) return;
        QOp o = qop();
        PCmd* c = p.c;
        c->kind = o.kind; c->klen = (int)o.k.size(); c->vlen = (int)o.v.size(); c->ow = o.ow;
        memcpy(c->k, o.k.data(), o.k.size()); memcpy(c->v, o.v.data(), o.v.size());
        c->rc = -12345;
        o.from = done; o.to = (size_t)-1;
        long long n = (long long)rng.below((uint64_t)est);
        p.inside = true;
        long long i = 0;
        for (; i < n; i++) if (!p.s->step()) { p.inside = false; break; }
        p.at = i;
        R.stat("instructions", i);
        p.op = ops.size();
        o.who = 1 + (int)(&p - pr);
        ops.push_back(o);
        R.op("  producer %d: %s %s %d, stands after %lld instructions", o.who, opname[o.kind], hex(o.k).c_str(), o.ow, i);
        if (!p.inside) { est = (est * 7 + i) / 8 + 1; ended(p); }
        else { est = est + est / 60 + 1; R.stat("stood"); R.sig(fnvs(o.k, (uint64_t)i * 97 + done + o.kind * 7919)); }
    }
    void ended(P& p)
    {
        p.inside = false;
        QOp& o = ops[p.op];
        o.to = done;
        if (p.s->done) { R.viol("queue", "step_queue_died", "a producer ended with %d in %s", p.s->sig, opname[o.kind]); return; }
        R.op("  producer %d goes on: %s", o.who, es(p.c->rc));
        if (p.c->rc == MBError::TRY_AGAIN) { o.gone = true; R.stat("refused"); }
        else if (p.c->rc) R.viol("queue", "step_queue_rc", "%s(%s) through the queue: %s", opname[o.kind], hex(o.k).c_str(), es(p.c->rc));
    }
    void finish(P& p, bool die)
    {
        if (!p.inside) return;
        if (die) {
            QOp& o = ops[p.op];
            o.to = done; o.maybe = true;
            p.s->end();
            delete p.s;
            p.s = nullptr;
            p.inside = false;
            R.op("  producer %d is killed", o.who);
            R.stat("killed");
        } else { p.s->run(); R.stat("went_on"); ended(p); }
    }
    // is there an order of the updates with this result?
    bool explain(const Map& m0, const Map& want)
    {
        vector<const QOp*> seq, fl;
        for (auto& o : ops) { if (o.gone) continue; (o.who ? fl : seq).push_back(&o); }
        std::sort(seq.begin(), seq.end(), [](const QOp* a, const QOp* b) { return a->to < b->to; });
        long long budget = 3000000;
        std::set<std::pair<uint64_t, uint64_t>> tried;
        std::function<bool(size_t, uint64_t, const Map&)> go = [&](size_t i, uint64_t used, const Map& m) -> bool {
            if (--budget < 0) return true;
            uint64_t h = i * 31;
            for (auto& e : m) h = fnvs(e.second, fnvs(e.first, h));
            if (!tried.insert({ h, used }).second) return false;
            bool all = i == seq.size();
            for (size_t f = 0; f < fl.size() && all; f++) if (!(used >> f & 1) && !fl[f]->maybe) all = false;
            if (all && m == want) return true;
            for (size_t f = 0; f < fl.size(); f++) {
                if (used >> f & 1) continue;
                // before call i+1 of the others: it began after `from` of them, ended before `to`+1
                size_t lo = fl[f]->from, hi = fl[f]->to, now = i ? seq[i - 1]->to : 0;
                if (now < lo || now > hi) continue;
                // the order of one producer
                bool first = true;
                for (size_t e = 0; e < fl.size(); e++) if (e != f && fl[e]->who == fl[f]->who && fl[e] < fl[f] && !(used >> e & 1) && !fl[e]->maybe) first = false;
                if (!first) continue;
                if (fl[f]->soft && go(i, used | 1ull << f, m)) return true;
                Map x = m;
                fx(x, *fl[f]);
                if (go(i, used | 1ull << f, x)) return true;
            }
            if (i < seq.size()) {
                for (size_t f = 0; f < fl.size(); f++) if (!(used >> f & 1) && !fl[f]->maybe && fl[f]->to < seq[i]->to) return false;
                if (seq[i]->soft && go(i + 1, used, m)) return true;
                Map x = m;
                fx(x, *seq[i]);
                return go(i + 1, used, x);
            }
            return false;
        };
        bool r = go(0, 0, m0);
        if (budget < 0) R.stat("unexplored");
        return r;
    }
    void drain()
    {
        if (wp < 0) start_writer();
        if (R.viols) return;
        long long i = 0;
        for (; i < 60000 && rd->AsyncWriterBusy(); i++) {
            struct timespec t { 0, 1000000 };
            syscall(SYS_nanosleep, &t, 0);
            if (i > 10 && i % 10 == 0) g_q->clock = g_q->clock + 3; // a dead producer is given up after some time
            int st;
            if (waitpid(wp, &st, WNOHANG) == wp) { wp = -1; R.viol("queue", "step_queue_writer", "the async writer died (status %x)", st); return; }
        }
        if (i == 60000) { R.viol("queue", "step_queue_blocked", "the queue is not empty after 60 s and %lld s of the clock", (long long)g_q->clock); return; }
        Map now;
        for (auto it = rd->begin(); it != rd->end(); ++it) now[it.key] = val_of(it.value);
        R.stat("checks"); R.stat("updates", (long long)ops.size());
        if (!explain(model, now)) {
            string d;
            for (auto& k : keys) { auto x = now.find(k); d += " " + hex(k, 6) + "=" + (x == now.end() ? "-" : hex(x->second, 8)); }
            string l;
            for (auto& o : ops) if (!o.gone) { char b[200]; snprintf(b, sizeof b, " %s%s(%s%s%s)", o.who ? o.maybe ? "dead:" : "slow:" : "", opname[o.kind], hex(o.k, 6).c_str(), o.kind == OP_ADD ? "=" : "", hex(o.v, 8).c_str()); l += b; }
            R.viol("queue", "step_queue_order", "no order of the queued updates leads to the contents; contents:%s; updates:%s", d.c_str(), l.c_str());
            return;
        }
        if (!killedw && (long long)rd->Count() != (long long)now.size()) R.viol("queue", "step_queue_count", "Count() is %lld with %zu entries", (long long)rd->Count(), now.size());
        model = now;
        ops.clear();
        done = 0;
        rc_asked = false;
    }
    void run(int nops)
    {
        cfg.block_size_index = cfg.block_size_data = 4u << 20;
        cfg.max_num_index_block = cfg.max_num_data_block = 8;
        cfg.memcap_index = cfg.memcap_data = 32u << 20;
        cfg.num_entry_per_bucket = 500;
        cfg.queue_size = rng.range(2, rng.chance(50) ? 6 : 24);
        pfx = rng.chance(6);
        dir = mk_scratch(g_root, "step");
        for (int i = rng.range(2, rng.chance(80) ? 12 : 60); i--;) keys.push_back(kg.next());
        char c[160];
        snprintf(c, sizeof c, "queue fam=%d pfx=%d size=%d", kg.family, pfx, (int)cfg.queue_size);
        R.ctx += string(" ") + c;
        R.trace.clear();
        R.op("%s", c);
        g_q->clock = 0;
        start_writer();
        if (R.viols) return;
        rd = reader(dir);
        if (!rd->is_open()) { R.viol("queue", "step_open", "the reader cannot open the database: %s", rd->StatusStr()); return; }
        for (int it = 0; it < nops && !R.viols; it++) {
            int n = rng.range(3, 16);
            for (int i = 0; i < n && !R.viols; i++) {
                P& p = pr[rng.below(NP)];
                int x = (int)rng.below(100);
                if (x < 40) plain();
                else if (x < 65) { if (!p.inside && ops.size() < 40) begin(p); }
                else if (x < 85) finish(p, rng.chance(40));
                else if (x < 89) { if (wp > 0) { bool hard = rng.chance(30); if (hard) killedw = true; stop_writer(hard); R.op("  the writer is %s", hard ? "killed" : "closed"); } }
                else if (x < 96) { if (wp < 0) { start_writer(); R.op("  the writer starts"); } }
                else { struct timespec t { 0, (long)rng.below(3000000) }; syscall(SYS_nanosleep, &t, 0); }
            }
            for (auto& p : pr) if (!R.viols) finish(p, rng.chance(40));
            if (!R.viols) drain();
        }
        for (auto& p : pr) if (p.s) { p.s->end(); delete p.s; p.s = nullptr; }
        if (wp > 0) stop_writer(R.viols != 0);
        rd->Close();
        delete rd;
        DB::ClearResources(dir);
        rm_tree(dir);
    }
};

int main(int argc, char** argv)
{
    Args a(argc, argv);
    R.init(a);
    quiet_lib();
    g_root = a.s("root", "/dev/shm");
    g = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_own = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_q = nullptr;
    uint64_t seed = (uint64_t)a.n("seed", 1);
    long long cases = a.n("cases", 10), ops = a.n("ops", 40), first = a.n("first", 0);
    string mode = a.s("mode", "crash");
    if (mode == "queue") g_q = (QSync*)mmap(nullptr, sizeof(QSync), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (long long i = first; i < first + cases; i++) {
        R.ctx = "case " + std::to_string(i);
        if (mode == "queue") { Queue* c = new Queue(seed * 1000003ull + (uint64_t)i, a); c->run((int)ops); R.stat("cases"); if (i < first + 2) R.sample(R.ctx); delete c; continue; }
        if (mode == "rebuild") { Rebuild* c = new Rebuild(seed * 1000003ull + (uint64_t)i, a); c->run((int)ops); R.stat("cases"); if (i < first + 2) R.sample(R.ctx); delete c; continue; }
        Case* c = new Case(seed * 1000003ull + (uint64_t)i, a);
        if (mode == "crash") c->run_crash((int)ops);
        else if (mode == "read") c->run_read((int)ops);
        else c->run_write((int)ops);
        R.stat("cases");
        if (i < first + 2) R.sample(R.ctx);
        delete c;
    }
    R.flush();
    return R.viols ? 3 : 0;
}
