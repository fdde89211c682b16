// Several databases side by side: threads and processes each work on databases of their own, which live in directories
// with similar names, share a queue directory, are copied, erased, created again and cleared. Every database is compared
// with its own model after what happened to the others. With TSan: work on different databases must not race.
#include "common.h"
#include <deque>
#include <mutex>
#include "fsck.h"

using namespace vh;

static Report R;
static std::mutex Rm;
static string g_root;
static bool g_tsan = false;
static std::atomic<int> g_bad { 0 };

#define VIOL(...) do { std::lock_guard<std::mutex> l(Rm); R.viol("multi", __VA_ARGS__); g_bad = 1; } while (0)
static void stat(const char* k, long long v = 1) { std::lock_guard<std::mutex> l(Rm); R.stat(k, v); }

struct Slot {
    string dir, qdir;
    int kind = 0; // 0 mapped, 1 files, 2 memory-only, 3 jemalloc, 4 async, 5 async with a queue directory of its own, 6 jemalloc memory-only
    MBConfig cfg {};
    DB *w = nullptr, *r = nullptr, *u = nullptr;
    std::map<string, string> model;
    bool exists = false; // on disk
    bool shared_queue = false;
    bool async() const { return kind == 4 || kind == 5; }
    bool mem() const { return kind == 2 || kind == 6; }
    bool jem() const { return kind == 3 || kind == 6; }
};

struct Worker {
    Rng rng;
    int id;
    string base, tag;
    vector<Slot> s;
    uint64_t vid = 1;
    uint64_t sig = 1469598103934665603ull;
    std::deque<string> trace;
    void op(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        char b[600];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        if (getenv("VH_ECHO")) fprintf(stderr, "[%s] %s\n", tag.c_str(), b);
        trace.push_back(b);
        if (trace.size() > 400) trace.pop_front();
        if (!g_tsan) { std::lock_guard<std::mutex> l(Rm); R.op("[%s] %s", tag.c_str(), b); }
    }
    Worker(uint64_t seed, int i, const string& b, const string& t) : rng(seed), id(i), base(b), tag(t) { }

    void setup(int n, int kinds, const string& qdir)
    {
        // names which are prefixes of each other, nested directories
        vector<string> names { "a", "a1", "a10", "a/b", "a_", "aa", "a/b1", "_mabain_d0" };
        for (size_t i = names.size(); i > 1; i--) std::swap(names[i - 1], names[rng.below(i)]);
        mkdir_or_die(base);
        mkdir_or_die(base + "/a");
        for (int i = 0; i < n; i++) {
            Slot x;
            x.dir = base + "/" + names[i];
            if (names[i] == "a/b" || names[i] == "a/b1" || names[i] == "a") { }
            mkdir_or_die(x.dir);
            vector<int> ks;
            for (int k = 0; k < 7; k++) if (kinds & (1 << k)) ks.push_back(k);
            x.kind = rng.pick(ks);
            x.shared_queue = x.kind != 5;
            x.qdir = x.shared_queue ? qdir : x.dir;
            config(x);
            s.push_back(x);
        }
    }
    void config(Slot& x)
    {
        memset(&x.cfg, 0, sizeof x.cfg);
        x.cfg.block_size_index = x.cfg.block_size_data = 4u << 20;
        x.cfg.max_num_index_block = x.cfg.max_num_data_block = 8;
        x.cfg.memcap_index = x.cfg.memcap_data = x.kind == 1 ? 4u << 20 : 32u << 20;
        if (x.kind == 1) x.cfg.memcap_data = 0;
        x.cfg.num_entry_per_bucket = 100;
        x.cfg.queue_size = 32;
    }
    int wopt(Slot& x) const
    {
        int o = CONSTS::ACCESS_MODE_WRITER;
        if (x.async()) o |= CONSTS::ASYNC_WRITER_MODE;
        if (x.mem()) o |= CONSTS::MEMORY_ONLY_MODE;
        if (x.jem()) o |= CONSTS::OPTION_JEMALLOC;
        return o;
    }
    int ropt(Slot& x) const { return CONSTS::ACCESS_MODE_READER | (wopt(x) & (CONSTS::MEMORY_ONLY_MODE | CONSTS::OPTION_JEMALLOC)); }
    DB* open(Slot& x, int opt)
    {
        MBConfig c = x.cfg;
        c.mbdir = x.dir.c_str();
        c.queue_dir = x.qdir.c_str();
        c.options = opt;
        DB* d = new DB(c);
        if (!d->is_open()) { VIOL("mu_open", "[%s] %s: open with options 0x%x: %s", tag.c_str(), x.dir.c_str(), opt, d->StatusStr()); delete d; return nullptr; }
        return d;
    }
    bool open_all(Slot& x)
    {
        if (x.w) return true;
        op("open %s kind %d", x.dir.c_str(), x.kind);
        x.cfg.jemalloc_keep_db = x.jem() && rng.chance(60);
        if (x.jem() && !x.cfg.jemalloc_keep_db) x.model.clear();
        if (x.mem()) x.model.clear(); // a memory-only database is new each time a writer opens it
        x.w = open(x, wopt(x));
        if (!x.w) return false;
        x.exists = true;
        if (x.async()) { x.u = open(x, ropt(x)); if (!x.u) return false; }
        if (!g_tsan) x.r = open(x, ropt(x));
        stat("opens");
        return true;
    }
    void close_all(Slot& x)
    {
        if (!x.w) return;
        op("close %s", x.dir.c_str());
        if (x.u) idle(x);
        for (DB** p : { &x.r, &x.u, &x.w }) if (*p) { if (rng.chance(70)) (*p)->Close(); delete *p; *p = nullptr; }
        if (x.mem()) { }
    }
    void idle(Slot& x) { for (int i = 0; i < 400000 && x.u->AsyncWriterBusy(); i++) usleep(50); }
    DB* rd(Slot& x) { return x.async() ? x.u : x.r && rng.chance(50) ? x.r : x.w; }
    string key(Slot& x)
    {
        // the same keys in all databases
        (void)x;
        static const char* st[] = { "k", "key", "a/long/shared/prefix/", "" };
        return st[rng.below(4)] + std::to_string(rng.below(150));
    }
    void update(Slot& x)
    {
        string k = key(x);
        bool had = x.model.count(k);
        DB* d = x.async() ? x.u : x.w;
        int rc;
        if (rng.chance(70)) {
            string v = tag + ":" + x.dir.substr(base.size()) + ":" + std::to_string(vid++);
            if (rng.chance(5)) v.resize(rng.range(1, 30000), 'x');
            bool ow = rng.chance(60);
            for (int t = 0; t < 100000; t++) { rc = d->Add(k, v, ow); if (rc != MBError::TRY_AGAIN) break; usleep(20); }
            int want = had && !ow && !x.async() ? MBError::IN_DICT : MBError::SUCCESS;
            if (rc != want) VIOL("mu_add", "[%s] %s: Add(%s) = %s", tag.c_str(), x.dir.c_str(), k.c_str(), es(rc));
            if (!had || ow) x.model[k] = v;
        } else {
            for (int t = 0; t < 100000; t++) { rc = d->Remove(k); if (rc != MBError::TRY_AGAIN) break; usleep(20); }
            int want = had || x.async() ? MBError::SUCCESS : MBError::NOT_EXIST;
            if (rc != want) VIOL("mu_remove", "[%s] %s: Remove(%s) = %s", tag.c_str(), x.dir.c_str(), k.c_str(), es(rc));
            x.model.erase(k);
        }
        stat("updates");
    }
    void check(Slot& x, const char* when)
    {
        if (!x.w) return;
        if (x.u) idle(x);
        DB* d = rd(x);
        size_t n = 0;
        for (auto it = d->begin(); it != d->end(); ++it) {
            auto f = x.model.find(it.key);
            string v = val_of(it.value);
            if (f == x.model.end() || f->second != v) { VIOL("mu_content", "[%s] %s, %s: iteration returns %s = %s, expected %s", tag.c_str(), x.dir.c_str(), when, hex(it.key).c_str(), hex(v).c_str(), f == x.model.end() ? "nothing" : hex(f->second).c_str()); return; }
            n++;
        }
        if (n != x.model.size() || d->Count() != (int64_t)n) { VIOL("mu_content", "[%s] %s, %s: iteration returns %zu entries, Count() %lld, expected %zu", tag.c_str(), x.dir.c_str(), when, n, (long long)d->Count(), x.model.size()); return; }
        for (int i = 0; i < 20; i++) {
            string k = key(x);
            MBData m;
            int rc = d->Find(k, m);
            auto f = x.model.find(k);
            if (f == x.model.end() ? rc != MBError::NOT_EXIST : rc != MBError::SUCCESS || val_of(m) != f->second) { VIOL("mu_content", "[%s] %s, %s: Find(%s) = %s %s", tag.c_str(), x.dir.c_str(), when, k.c_str(), es(rc), hex(val_of(m)).c_str()); return; }
        }
        stat("checks");
        sig = fnv(&n, sizeof n, sig);
    }
    void check_others(Slot* but, const char* when) { for (auto& x : s) if (&x != but) check(x, when); }
    void erase_files(Slot& x)
    {
        // what an administrator does: remove the files of this database only
        DIR* d = opendir(x.dir.c_str());
        if (!d) return;
        while (dirent* e = readdir(d)) {
            string n = e->d_name, q = x.dir + "/" + n;
            struct stat st;
            if (n == "." || n == ".." || lstat(q.c_str(), &st) != 0 || S_ISDIR(st.st_mode)) continue;
            if (n.compare(0, 8, "_mabain_") == 0 || n == "_lock" || n == "_mbh_lock" || n == "_mpipe") unlink(q.c_str());
        }
        closedir(d);
    }
    bool nested_open(Slot& x)
    {
        for (auto& y : s) if (&y != &x && y.w && y.dir.compare(0, x.dir.size() + 1, x.dir + "/") == 0) return true;
        return false;
    }
    void step()
    {
        Slot& x = s[rng.below(s.size())];
        int c = (int)rng.below(100);
        if (!x.w && !open_all(x)) return;
        if (c < 55) { int n = rng.range(1, 60); op("%d updates of %s", n, x.dir.c_str()); while (n-- && !g_bad) update(x); }
        else if (c < 70) check(x, "check");
        else if (c < 76) {
            if (x.jem()) return;
            op("collect %s", x.dir.c_str());
            if (x.u) idle(x);
            int rc = (x.u ? x.u : x.w)->CollectResource(1, 1);
            if (rc != MBError::SUCCESS && rc != MBError::TRY_AGAIN) VIOL("mu_rc", "[%s] %s: CollectResource = %s", tag.c_str(), x.dir.c_str(), es(rc));
            check_others(&x, "after the collection of another database");
            check(x, "after its collection");
            stat("rc");
        } else if (c < 80) {
            op("removeall %s", x.dir.c_str());
            if (x.u) idle(x);
            int rc = (x.u ? x.u : x.w)->RemoveAll();
            if (rc != MBError::SUCCESS) VIOL("mu_removeall", "[%s] %s: RemoveAll = %s", tag.c_str(), x.dir.c_str(), es(rc));
            x.model.clear();
            check_others(&x, "after RemoveAll of another database");
            stat("removeall");
        } else if (c < 90) {
            bool mem = x.mem();
            close_all(x);
            if (mem) { // a memory-only database lasts as long as its memory
                if (!nested_open(x) && rng.chance(50)) { op("clear %s", x.dir.c_str()); DB::ClearResources(x.dir); }
            } else if (rng.chance(30) && !nested_open(x)) { op("clear %s", x.dir.c_str()); DB::ClearResources(x.dir); stat("clears"); }
            check_others(&x, "after close of another database");
            stat("closes");
        } else if (c < 95) {
            // erase and create again, perhaps with tasks left in the queue
            if (x.mem() || g_tsan) return;
            bool left = x.async() && rng.chance(50);
            if (left) {
                // the writer is gone, the updates stay in the queue
                idle(x);
                x.w->Close();
                delete x.w;
                x.w = nullptr;
                op("leave updates in the queue of %s", x.dir.c_str());
                for (int i = 0; i < 5; i++) x.u->Add("left" + std::to_string(i), "left", true);
                for (DB** p : { &x.r, &x.u }) if (*p) { (*p)->Close(); delete *p; *p = nullptr; }
                stat("queues_left");
            } else close_all(x);
            if (nested_open(x)) { // the files are those of this database only
                if (left) { x.w = open(x, wopt(x)); if (!x.w) return; for (int i = 0; i < 5; i++) x.model["left" + std::to_string(i)] = "left"; x.u = open(x, ropt(x)); if (x.u) idle(x); close_all(x); stat("queues_run"); }
                return;
            }
            op("erase %s", x.dir.c_str());
            DB::ClearResources(x.dir);
            erase_files(x);
            x.model.clear();
            if (rng.chance(30)) { vector<int> ks; for (int k : { 0, 1, 3, 4, 5 }) ks.push_back(k); x.kind = rng.pick(ks); config(x); }
            check_others(&x, "after another database was erased");
            open_all(x);
            check(x, "created again");
            stat("erased");
        } else if (c < 97) {
            // copy a database over another one
            Slot& y = s[rng.below(s.size())];
            if (&y == &x || x.mem() || y.mem() || x.kind == 3 || y.kind == 3 || g_tsan || nested_open(y) || y.dir == x.dir) return;
            if (x.u) idle(x);
            close_all(y);
            DB::ClearResources(y.dir);
            erase_files(y);
            op("backup %s to %s", x.dir.c_str(), y.dir.c_str());
            int rc = MBError::TRY_AGAIN;
            for (int t = 0; t < 10000 && rc == MBError::TRY_AGAIN; t++) { rc = (x.u ? x.u : x.w)->Backup(y.dir.c_str()); if (rc) usleep(100); }
            if (rc != MBError::SUCCESS) { VIOL("mu_backup", "[%s] Backup of %s = %s", tag.c_str(), x.dir.c_str(), es(rc)); return; }
            if (x.u) idle(x);
            y.kind = x.kind == 5 ? 4 : x.kind;
            y.model = x.model;
            config(y);
            open_all(y);
            check(y, "copied");
            check(x, "after its copy was opened");
            stat("copies");
        } else {
            // a failing open must not disturb anybody
            Slot bad = x;
            bad.dir = base + "/a_none";
            MBConfig c2 = x.cfg;
            c2.mbdir = rng.chance(50) ? x.dir.c_str() : bad.dir.c_str();
            c2.queue_dir = x.qdir.c_str();
            c2.options = CONSTS::ACCESS_MODE_WRITER | (wopt(x) & (CONSTS::MEMORY_ONLY_MODE | CONSTS::OPTION_JEMALLOC));
            if (c2.mbdir == bad.dir.c_str()) c2.options &= ~(CONSTS::MEMORY_ONLY_MODE | CONSTS::OPTION_JEMALLOC);
            op("failing open of %s", c2.mbdir);
            DB d(c2);
            if (d.is_open()) VIOL("mu_second", "[%s] a writer of %s could be opened", tag.c_str(), c2.mbdir);
            check(x, "after a failing open");
            check_others(&x, "after a failing open");
            stat("failed_opens");
        }
    }
    void end()
    {
        for (auto& x : s) check(x, "end");
        for (auto& x : s) close_all(x);
        for (auto& x : s) {
            if (x.mem() || x.jem() || !x.exists || g_tsan) continue;
            Slot y = x;
            y.r = open(y, CONSTS::ACCESS_MODE_READER);
            if (!y.r) continue;
            DB* d = y.r;
            size_t n = 0;
            for (auto it = d->begin(); it != d->end(); ++it) { auto f = x.model.find(it.key); if (f == x.model.end() || f->second != val_of(it.value)) { VIOL("mu_content", "[%s] %s, closed: iteration returns %s = %s", tag.c_str(), x.dir.c_str(), hex(it.key).c_str(), hex(val_of(it.value)).c_str()); break; } n++; }
            if (n != x.model.size()) VIOL("mu_content", "[%s] %s, closed: %zu entries, expected %zu", tag.c_str(), x.dir.c_str(), n, x.model.size());
            d->Close();
            delete d;
            stat("checks");
        }
    }
};

int main(int argc, char** argv)
{
    Args a(argc, argv);
    R.init(a);
    g_root = a.s("root", "/tmp");
    g_tsan = a.has("tsan");
    quiet_lib();
    uint64_t seed = (uint64_t)a.n("seed", 1);
    long long cases = a.n("cases", 4), steps = a.n("ops", 80);
    int kinds = (int)a.n("modes", g_tsan ? 1 | 2 | 4 | 8 | 64 : 127);
    if (a.has("keepgoing")) R.stop_on_viol = false;
    for (long long i = 0; i < cases; i++) {
        Rng rng(seed * 1000003ull + (uint64_t)i);
        R.ctx = "case " + std::to_string(i);
        R.trace.clear();
        string top = mk_scratch(g_root, "multi"), q = top + "/q";
        mkdir_or_die(q);
        int np = a.has("threads") ? 1 : g_tsan ? 1 : rng.range(1, 3), nt = (int)a.n("threads", rng.range(g_tsan ? 3 : 1, 4)), nd = rng.range(2, 5);
        bool log = a.has("log") || rng.chance(25);
        if (i < 2) R.sample(R.ctx + " processes " + std::to_string(np) + " threads " + std::to_string(nt) + " databases per thread " + std::to_string(nd));
        auto work = [&](int p) {
            if (log) { DB::SetLogFile(top + "/log" + std::to_string(p)); DB::SetLogLevel(3); }
            vector<std::thread> ts;
            vector<Worker*> ws;
            for (int t = 0; t < nt; t++) {
                Worker* w = new Worker(rng.next() + (uint64_t)p * 77, t, top + "/p" + std::to_string(p) + "t" + std::to_string(t), std::to_string(p) + "." + std::to_string(t));
                w->setup(nd, kinds, q);
                ws.push_back(w);
            }
            for (Worker* w : ws) ts.emplace_back([w, steps] { for (long long k = 0; k < steps && !g_bad; k++) w->step(); if (!g_bad) w->end(); });
            for (auto& t : ts) t.join();
            for (Worker* w : ws) { R.sig(w->sig); delete w; }
            if (log) { DB::CloseLogFile(); quiet_lib(); stat("logged"); }
        };
        if (np == 1) { work(0); stat(nt > 1 ? "threaded" : "single"); }
        else {
            vector<pid_t> ps;
            for (int p = 0; p < np; p++) {
                pid_t c = fork();
                if (c == 0) {
                    R.stop_on_viol = false;
                    R.stats.clear();
                    work(p);
                    R.flush();
                    fflush(nullptr);
                    _exit(R.viols ? 3 : 0);
                }
                ps.push_back(c);
            }
            for (pid_t c : ps) {
                int st = 0;
                waitpid(c, &st, 0);
                if (WIFSIGNALED(st)) R.viol("multi", "mu_crash", "a process which works on its own databases was ended by signal %d", WTERMSIG(st));
                else if (WEXITSTATUS(st) == 3) R.viols++;
                else if (WEXITSTATUS(st)) R.viol("multi", "mu_crash", "a process which works on its own databases exited with %d", WEXITSTATUS(st));
            }
            R.stat("processes", np);
        }
        R.stat("cases");
        rm_tree(top);
        if (R.viols) break;
    }
    R.flush();
    return R.viols ? 3 : 0;
}
