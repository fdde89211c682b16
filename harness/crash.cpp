// Crash points: a writer process is killed just before (or in the middle of) a chosen store to the shared files.
// The next writer must find every completed update, and the interrupted one either done or not done.
#include "common.h"
#include "fsck.h"
#include "tsanrt.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>

using namespace vh;
static Report R;
static string g_root;

enum { OP_ADD, OP_REMOVE, OP_RC, OP_REMOVEALL, OP_OPEN, OP_CLOSE, OP_BACKUP };
static const char* opname[] = { "add", "remove", "rc", "removeall", "open", "close", "backup" };

struct Shm {
    volatile int begun, acked; // operations of the child
    volatile long long stores; // stores seen after arming
    volatile int killed, mid, opened;
    volatile int bad_op, bad_rc; // an operation of the child failed
    volatile long long arm;      // async: stores until the kill, 0 not armed
    volatile int stop;
};
static Shm* g;
static long long g_left = -1;
static bool g_armed = false;
static uint64_t g_split_seed = 1;

static void hook(int kind, const void*, size_t)
{
    if (!g_armed && g->arm) { long long n = __sync_lock_test_and_set(&g->arm, 0); if (n) { g_left = n; g_armed = true; } }
    if (!g_armed) return;
    if (kind != VH_WRITE && kind != VH_WRITE_MID && kind != VH_ATOMIC_STORE && kind != VH_SYSCALL_W) return;
    g->stores = g->stores + 1;
    if (g_left >= 0 && g_left-- == 0) {
        g->killed = 1;
        g->mid = kind == VH_WRITE_MID;
        _exit(42);
    }
}
static size_t split(size_t n)
{
    if (!g_armed || n < 2) return 0;
    g_split_seed = g_split_seed * 6364136223846793005ull + 1442695040888963407ull;
    if ((g_split_seed >> 60) < 8) return 0;
    return 1 + (g_split_seed >> 33) % (n - 1);
}

struct Op { int kind; string k, v; };

struct Case {
    Rng rng;
    KeyGen kg;
    string dir;
    MBConfig cfg {};
    bool jem, async;
    int valprof;
    std::map<string, string> model;
    uint64_t vid = 1;
    int kills_since_sync = 0;
    long long maxdrift = 0;
    const Args& a;
    Case(uint64_t seed, const Args& args) : rng(seed), kg((int)Rng(seed ^ 77).below(KeyGen::NFAM + 1), &rng), a(args) { }

    static const char* es(int rc) { return MBError::get_error_str(rc); }
    MBConfig conf(int opt)
    {
        MBConfig c = cfg;
        c.mbdir = dir.c_str();
        c.queue_dir = dir.c_str();
        c.options = opt | (jem ? CONSTS::OPTION_JEMALLOC : 0);
        return c;
    }
    // Keys whose state is not determined: the interrupted operation.
    struct Inflight { bool any = false, all = false; string k; bool has_old = false, has_new = false; string oldv, newv; };

    bool allowed(const Inflight& f, const string& k, bool present, const string& v)
    {
        auto it = model.find(k);
        bool was = it != model.end();
        if (was ? present && v == it->second : !present) return true;
        if (f.all) return !present;
        if (f.any && k == f.k) return f.has_new ? present && v == f.newv : !present;
        return false;
    }
    void check(DB* d, const Inflight& f, const char* who, bool recovered, bool all = true)
    {
        std::set<string> keys;
        if (all) for (auto& e : model) keys.insert(e.first);
        else for (int i = 0; i < 3 && !model.empty(); i++) keys.insert(kg.pick(model));
        if (f.any) keys.insert(f.k);
        for (auto& k : keys) {
            MBData x;
            int rc = d->Find(k, x);
            string v = rc == MBError::SUCCESS ? string((char*)x.buff, x.data_len) : "";
            R.stat("finds");
            if (rc != MBError::SUCCESS && rc != MBError::NOT_EXIST) {
                if (!recovered) { R.stat("reader_errors"); continue; }
                R.viol("crash", "crash_error", "%s: Find(%s) returns %s", who, hex(k).c_str(), es(rc));
                continue;
            }
            if (!allowed(f, k, rc == MBError::SUCCESS, v))
                R.viol("crash", rc == MBError::SUCCESS ? "crash_wrong" : "crash_lost", "%s: Find(%s) %s %s, expected %s", who, hex(k).c_str(),
                    rc == MBError::SUCCESS ? "returns" : "finds nothing", hex(v).c_str(), model.count(k) ? hex(model[k]).c_str() : "nothing");
        }
        if (!recovered || !all) return;
        for (int i = 0; i < 30; i++) {
            string k = kg.probe(model);
            if (k.empty() || k.size() > 256) continue;
            MBData x;
            int rc = d->Find(k, x);
            string v = rc == MBError::SUCCESS ? string((char*)x.buff, x.data_len) : "";
            if (!allowed(f, k, rc == MBError::SUCCESS, v)) R.viol("crash", "crash_phantom", "%s: Find(%s) = %s %s", who, hex(k).c_str(), es(rc), hex(v).c_str());
        }
        std::set<string> seen;
        for (auto it = d->begin(); it != d->end(); ++it) {
            string v((char*)it.value.buff, it.value.data_len);
            if (!seen.insert(it.key).second) R.viol("crash", "crash_iter_dup", "%s: iteration returns %s twice", who, hex(it.key).c_str());
            if (!allowed(f, it.key, true, v)) R.viol("crash", "crash_iter_wrong", "%s: iteration returns %s = %s", who, hex(it.key).c_str(), hex(v).c_str());
            if (seen.size() > model.size() + 10) break;
        }
        for (auto& e : model) if (!seen.count(e.first) && !allowed(f, e.first, false, "")) R.viol("crash", "crash_iter_lost", "%s: iteration misses %s", who, hex(e.first).c_str());
    }
    void fsck(const Inflight& f, const char* who)
    {
        Fsck k;
        if (!k.load(dir)) { R.viol("crash", "crash_header", "%s: header unreadable", who); return; }
        k.walk();
        if (k.errs.empty()) k.check_overlap();
        for (auto& e : k.errs) R.viol("crash", "crash_fsck_" + e.first, "%s: %s", who, e.second.c_str());
        for (auto& e : k.kv) if (!allowed(f, e.first, true, e.second)) R.viol("crash", "crash_tree", "%s: the tree has %s = %s", who, hex(e.first).c_str(), hex(e.second).c_str());
        for (auto& e : model) if (!k.kv.count(e.first) && !allowed(f, e.first, false, "")) R.viol("crash", "crash_tree", "%s: the tree lacks %s", who, hex(e.first).c_str());
        R.stat("fsck");
    }
    int apply(DB& d, const Op& o)
    {
        try {
            switch (o.kind) {
            case OP_ADD: return d.Add(o.k, o.v, true);
            case OP_REMOVE: return d.Remove(o.k);
            case OP_RC: return d.CollectResource(1, 1);
            case OP_REMOVEALL: return d.RemoveAll();
            }
        } catch (int e) { return e; }
        return 0;
    }
    void run(int rounds)
    {
        int modes = (int)a.n("modes", 1);
        vector<int> ms;
        for (int i = 0; i < 3; i++) if (modes & (1 << i)) ms.push_back(i);
        int mode = rng.pick(ms); // 0 disk, 1 jemalloc kept, 2 disk, prefix cache
        jem = mode == 1;
        async = false;
        valprof = rng.chance(70) ? 0 : rng.chance(70) ? 1 : 2;
        cfg.block_size_index = cfg.block_size_data = 4u << 20;
        cfg.max_num_index_block = cfg.max_num_data_block = jem ? 8 : 64;
        size_t full = (size_t)8 << 22;
        cfg.memcap_index = jem ? full : rng.chance(50) ? 64u << 20 : 4u << 20;
        cfg.memcap_data = jem ? full : rng.chance(50) ? 64u << 20 : rng.chance(50) ? 4u << 20 : 0;
        if (!jem && rng.chance(10)) cfg.memcap_index = 0;
        cfg.num_entry_per_bucket = rng.chance(50) ? 500 : rng.range(8, 64);
        cfg.queue_size = 8;
        cfg.jemalloc_keep_db = true;
        int wopt = CONSTS::ACCESS_MODE_WRITER | (mode == 2 ? CONSTS::OPTION_PREFIX_CACHE : 0);
        dir = mk_scratch(g_root, "crash");
        char c[160];
        snprintf(c, sizeof c, "mode=%d fam=%d valprof=%d memcap %zu %zu", mode, kg.family, valprof, cfg.memcap_index >> 20, cfg.memcap_data >> 20);
        R.ctx += string(" ") + c;
        R.trace.clear();
        R.op("%s", c);
        bool created = false;
        DB* surv = nullptr; // a reader which outlives the writers
        int focus = (int)rng.below(6); // 0..3: one kind of operation dominates
        bool norc = a.has("norc"), norma = a.has("noremoveall");
        for (int rd = 0; rd < rounds; rd++) {
            // ---- plan of the child
            vector<Op> ops;
            std::map<string, string> sim = model;
            int n = rng.chance(20) ? rng.range(20, 200) : rng.range(1, 8);
            if (!created || model.size() < 5) n = rng.range(20, 150);
            for (int i = 0; i < n; i++) {
                Op o;
                int x = (int)rng.below(100);
                if (x < 3 && !norc && !jem) o.kind = OP_RC;
                else if (x < 4 && !norma && rng.chance(50)) o.kind = OP_REMOVEALL;
                else if ((focus == 0 ? x < 80 : focus == 1 ? x < 30 : x < 55) || sim.size() < 4) {
                    o.kind = OP_ADD;
                    o.k = rng.chance(25) && !sim.empty() ? kg.pick(sim) : kg.next();
                    if (o.k.empty() || o.k.size() > 256) continue;
                    o.v = make_value(rng, vid++, valprof);
                    sim[o.k] = o.v;
                } else {
                    o.kind = OP_REMOVE;
                    o.k = kg.pick(sim);
                    sim.erase(o.k);
                }
                if (o.kind == OP_REMOVEALL) sim.clear();
                ops.push_back(o);
            }
            int at = (int)rng.below(100);
            bool arm_open = at < 8, arm_close = at >= 92, nokill = at >= 8 && at < 11;
            int arm_op = arm_open || arm_close || nokill ? 0 : (int)rng.below(ops.size());
            if (!ops.empty() && (focus == 2 || focus == 3) && !arm_open && !arm_close) // a collection or RemoveAll is the target
                for (size_t j = 0; j < ops.size(); j++) if (ops[j].kind == (focus == 2 ? OP_RC : OP_REMOVEALL)) arm_op = (int)j;
            int kind = arm_open ? OP_OPEN : arm_close ? OP_CLOSE : ops[arm_op].kind;
            long long left = nokill ? -1 : kind == OP_RC || kind == OP_REMOVEALL ? (long long)rng.below(rng.chance(50) ? 50 : 30 + model.size() * 12) : kind == OP_OPEN ? (long long)rng.below(rng.chance(70) ? 40 : 400) : (long long)rng.below(rng.chance(60) ? 25 : 90);
            memset((void*)g, 0, sizeof *g);
            g_split_seed = rng.next();
            R.op("round %d: %zu entries, %zu operations, %s armed at %d (%s), store %lld", rd, model.size(), ops.size(), nokill ? "not" : "", arm_op, opname[kind], left);
            fflush(NULL);
            DB::ClearResources(dir);
            pid_t pid = fork();
            if (pid == 0) {
                vh_access = hook;
                vh_split = split;
                if (arm_open) { g_left = left; g_armed = true; }
                MBConfig cc = conf(wopt);
                DB* d = new DB(cc);
                if (!d->is_open()) { g->bad_rc = d->Status(); _exit(43); }
                g->opened = 1;
                for (size_t i = 0; i < ops.size(); i++) {
                    if ((int)i == arm_op && !arm_open && !arm_close && !nokill) { g_left = left; g_armed = true; }
                    g->begun = (int)i + 1;
                    int rc = apply(*d, ops[i]);
                    if (rc != MBError::SUCCESS) { g->bad_op = (int)i; g->bad_rc = rc; _exit(44); }
                    g->acked = (int)i + 1;
                }
                if (arm_close) { g_left = left; g_armed = true; }
                if (!nokill || rng.chance(50)) d->Close();
                _exit(0);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            int acked = g->acked;
            int ex = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
            if (ex == 43) { R.viol("crash", "crash_open", "the writer cannot open the database after a kill: %s", es(g->bad_rc)); break; }
            if (ex == 44) { R.viol("crash", "crash_update", "%s(%s) of the writer after a kill: %s", opname[ops[g->bad_op].kind], hex(ops[g->bad_op].k).c_str(), es(g->bad_rc)); break; }
            if (ex != 0 && ex != 42) { R.viol("crash", "crash_child", "the writer process ended with %d in operation %d", ex, g->begun); break; }
            for (int i = 0; i < acked; i++) {
                if (ops[i].kind == OP_ADD) model[ops[i].k] = ops[i].v;
                else if (ops[i].kind == OP_REMOVE) model.erase(ops[i].k);
                else if (ops[i].kind == OP_REMOVEALL) model.clear();
            }
            Inflight f;
            if (g->begun > acked) {
                const Op& o = ops[acked];
                if (o.kind == OP_ADD || o.kind == OP_REMOVE) { f.any = true; f.k = o.k; f.has_new = o.kind == OP_ADD; f.newv = o.v; }
                if (o.kind == OP_REMOVEALL) f.all = true;
            }
            bool killed = ex == 42;
            if (killed) {
                kills_since_sync++;
                R.stat("kills");
                R.stat(string("kill_") + opname[!g->opened ? OP_OPEN : g->begun > acked ? ops[acked].kind : OP_CLOSE]);
                if (g->mid) R.stat("kill_mid_copy");
                R.sig(fnv(&left, 8, fnvs(g->begun > acked ? ops[acked].k : "", (uint64_t)model.size() * 31 + kind)));
            }
            R.stat("rounds");
            R.op("  ended %d after %d of %zu operations, %lld stores, in %s(%s)%s", ex, acked, ops.size(), (long long)g->stores, g->begun > acked ? opname[ops[acked].kind] : "-", g->begun > acked ? hex(ops[acked].k).c_str() : "", g->mid ? " in the middle of a copy" : "");
            if (!created && !g->opened) { if (access((dir + "/_mabain_h").c_str(), F_OK) == 0) R.stat("kill_create"); }
            // ---- what is there now
            if (g->opened) created = true;
            if (killed && created && rng.chance(30)) {
                MBConfig rc = conf(CONSTS::ACCESS_MODE_READER);
                DB r(rc);
                if (r.is_open()) { check(&r, f, "a reader before the next writer", false); R.stat("reader_checks"); r.Close(); }
            }
            MBConfig wc = conf(wopt);
            DB* w = new DB(wc);
            if (!w->is_open()) { R.viol("crash", "crash_open", "the next writer cannot open the database: %s", w->StatusStr()); break; }
            created = true;
            if (jem && killed) {
                // documented: an update that was interrupted clears the database
                DB::iterator b = w->begin(); bool empty = !(b != w->end());
                if (empty && w->Count() == 0) { if (!model.empty()) R.stat("jem_reset"); model.clear(); f = Inflight(); }
            }
            check(w, f, "the next writer", true);
            fsck(f, "after the next writer has opened");
            if (surv) { R.stat("survivor_checks"); check(surv, f, "a reader which was open during the kill", true); }
            DB* r = nullptr;
            if (rng.chance(40)) {
                MBConfig rc = conf(CONSTS::ACCESS_MODE_READER);
                r = new DB(rc);
                if (r->is_open()) check(r, f, "a reader after the next writer", true);
                else R.viol("crash", "crash_open", "a reader cannot open the database: %s", r->StatusStr());
            }
            // resolve what was interrupted
            if (f.any) {
                MBData x;
                if (w->Find(f.k, x) == MBError::SUCCESS) model[f.k] = string((char*)x.buff, x.data_len), R.stat(f.has_new ? "inflight_done" : "inflight_kept");
                else model.erase(f.k), R.stat("inflight_absent");
            }
            if (f.all) for (auto it = model.begin(); it != model.end();) { MBData x; if (w->Find(it->first, x) == MBError::SUCCESS) ++it; else it = model.erase(it); }
            f = Inflight();
            long long drift = (long long)w->Count() - (long long)model.size();
            if (drift < 0) drift = -drift;
            if (drift > kills_since_sync && !(a.has("nocount"))) R.viol("crash", "crash_count", "Count() is %lld with %zu entries after %d kills", (long long)w->Count(), model.size(), kills_since_sync);
            if (drift) R.stat("count_drift");
            // ---- and it goes on working
            int more = rng.chance(40) ? 0 : rng.range(1, 25);
            for (int i = 0; i < more; i++) {
                Op o;
                if (rng.chance(60) || model.size() < 4) {
                    o.kind = OP_ADD;
                    o.k = rng.chance(30) && !model.empty() ? kg.pick(model) : kg.next();
                    if (o.k.empty() || o.k.size() > 256) continue;
                    o.v = make_value(rng, vid++, valprof);
                } else { o.kind = OP_REMOVE; o.k = kg.pick(model); }
                int rc = apply(*w, o);
                R.op("  %s %s", opname[o.kind], hex(o.k).c_str());
                if (rc != MBError::SUCCESS) { R.viol("crash", "crash_update", "%s(%s) after a kill: %s", opname[o.kind], hex(o.k).c_str(), es(rc)); break; }
                if (o.kind == OP_ADD) model[o.k] = o.v; else model.erase(o.k);
            }
            if (!jem && !norc && rng.chance(10)) {
                int rc = w->CollectResource(1, 1);
                R.op("  rc");
                if (rc != MBError::SUCCESS) R.viol("crash", "crash_update", "CollectResource after a kill: %s", es(rc));
                if (w->Count() == (int64_t)model.size()) kills_since_sync = 0;
            }
            if (more) { check(w, f, "the next writer after updates", true); fsck(f, "after further updates"); if (r && r->is_open()) check(r, f, "a reader after updates", true); if (surv) check(surv, f, "a surviving reader after updates", true); }
            if (surv && rng.chance(30)) { surv->Close(); delete surv; surv = nullptr; }
            else if (!surv && rng.chance(30) && !a.has("nosurv")) {
                MBConfig rc = conf(CONSTS::ACCESS_MODE_READER);
                surv = new DB(rc);
                if (!surv->is_open()) { R.viol("crash", "crash_open", "a reader cannot open the database: %s", surv->StatusStr()); break; }
            }
            if (r) { r->Close(); delete r; }
            w->Close();
            delete w;
            if (R.viols) break;
        }
        if (surv) { surv->Close(); delete surv; }
        rm_tree(dir);
    }
    // The files of the database, to go back to the state before an operation.
    struct Snap { struct F { off_t size; vector<std::pair<off_t, string>> data; }; std::map<string, F> files; };
    static vector<string> names(const string& d)
    {
        vector<string> v;
        if (DIR* dp = opendir(d.c_str())) {
            while (dirent* e = readdir(dp)) { struct stat sb; if (!stat((d + "/" + e->d_name).c_str(), &sb) && S_ISREG(sb.st_mode)) v.push_back(e->d_name); }
            closedir(dp);
        }
        return v;
    }
    void save(Snap& sn)
    {
        for (auto& n : names(dir)) {
            int fd = open((dir + "/" + n).c_str(), O_RDONLY);
            if (fd < 0) continue;
            Snap::F f;
            f.size = lseek(fd, 0, SEEK_END);
            for (off_t p = 0; p < f.size;) {
                off_t b = lseek(fd, p, SEEK_DATA);
                if (b < 0) break;
                off_t e = lseek(fd, b, SEEK_HOLE);
                string x((size_t)(e - b), 0);
                if (pread(fd, &x[0], x.size(), b) != (ssize_t)x.size()) break;
                f.data.push_back({ b, x });
                p = e;
            }
            close(fd);
            sn.files[n] = f;
        }
    }
    void restore(const Snap& sn)
    {
        for (auto& n : names(dir)) if (!sn.files.count(n)) unlink((dir + "/" + n).c_str());
        for (auto& e : sn.files) {
            int fd = open((dir + "/" + e.first).c_str(), O_RDWR | O_CREAT, 0666);
            if (fd < 0) continue;
            if (ftruncate(fd, 0) || ftruncate(fd, e.second.size)) { }
            for (auto& x : e.second.data) if (pwrite(fd, x.second.data(), x.second.size(), x.first) < 0) { }
            close(fd);
        }
    }
    // Every crash point of single operations: the operation is run again and again on the same database,
    // and killed at its first, second, ... last store, before it and in the middle of it.
    void run_enum(int nops)
    {
        int mode = rng.chance(8) ? 2 : 0;
        jem = false; async = false;
        valprof = rng.chance(80) ? 0 : 1;
        cfg.block_size_index = cfg.block_size_data = 4u << 20;
        cfg.max_num_index_block = cfg.max_num_data_block = 64;
        cfg.memcap_index = rng.chance(70) ? 64u << 20 : 4u << 20;
        cfg.memcap_data = rng.chance(70) ? 64u << 20 : 0;
        cfg.num_entry_per_bucket = 500;
        cfg.queue_size = 8;
        int wopt = CONSTS::ACCESS_MODE_WRITER | (mode == 2 ? CONSTS::OPTION_PREFIX_CACHE : 0);
        dir = mk_scratch(g_root, "crash");
        char c[160];
        snprintf(c, sizeof c, "enum mode=%d fam=%d valprof=%d memcap %zu %zu", mode, kg.family, valprof, cfg.memcap_index >> 20, cfg.memcap_data >> 20);
        R.ctx += string(" ") + c;
        R.trace.clear();
        R.op("%s", c);
        auto mkop = [&](bool any) {
            Op o;
            int x = (int)rng.below(100);
            o.kind = any && x < 3 ? OP_RC : any && x < 6 ? OP_REMOVEALL : x < 55 || model.size() < 4 ? OP_ADD : OP_REMOVE;
            if (o.kind == OP_ADD) {
                int y = (int)rng.below(100);
                o.k = y < 15 && !model.empty() ? kg.pick(model) : kg.next();
                if (y >= 15 && y < 50 && !model.empty()) { // next to an existing key: a prefix, an extension or a sibling
                    o.k = kg.pick(model);
                    if (y < 30 && o.k.size() > 1) o.k.resize(1 + rng.below(o.k.size() - 1));
                    else if (y < 40) for (int j = rng.range(1, 9); j--;) o.k.push_back((char)rng.below(256));
                    else { size_t at = rng.below(o.k.size()); o.k[at] = (char)(o.k[at] + 1 + rng.below(200)); if (rng.chance(50)) o.k.resize(at + 1); }
                }
                if (o.k.empty() || o.k.size() > 256) o.k = "x";
                o.v = make_value(rng, vid++, valprof);
            } else if (o.kind == OP_REMOVE) o.k = kg.pick(model);
            return o;
        };
        auto note = [&](const Op& o) {
            if (o.kind == OP_ADD) model[o.k] = o.v;
            else if (o.kind == OP_REMOVE) model.erase(o.k);
            else if (o.kind == OP_REMOVEALL) model.clear();
        };
        for (int it = 0; it < nops && !R.viols; it++) {
            // some updates, then the operation whose crash points are enumerated
            {
                MBConfig wc = conf(wopt);
                DB w(wc);
                if (!w.is_open()) { R.viol("crash", "crash_open", "the writer cannot open the database: %s", w.StatusStr()); break; }
                int n = model.size() < 10 ? rng.range(5, 60) : rng.range(0, 12);
                for (int i = 0; i < n; i++) {
                    Op o = mkop(false);
                    int rc = apply(w, o);
                    R.op("  %s %s", opname[o.kind], hex(o.k).c_str());
                    if (rc != MBError::SUCCESS) { R.viol("crash", "crash_update", "%s(%s): %s", opname[o.kind], hex(o.k).c_str(), es(rc)); break; }
                    note(o);
                }
                w.Close();
            }
            DB::ClearResources(dir);
            Snap sn;
            save(sn);
            bool wopen = rng.chance(6); // the crash points of opening and closing
            int nsame = rng.chance(50) ? 0 : rng.range(1, 10); // updates before it by the same writer, so that its free lists have something
            vector<Op> pre;
            std::map<string, string> base = model;
            for (int i = 0; i < nsame && !wopen; i++) { Op o = mkop(false); pre.push_back(o); note(o); }
            Op op = mkop(true);
            int cnt0 = (int)model.size();
            uint64_t sseed = rng.next();
            long long total = -1, step = 1;
            R.op("enumerate %s %s after %zu updates%s", opname[op.kind], hex(op.k).c_str(), pre.size(), wopen ? " (open and close)" : "");
            for (long long left = -1; left < total || total < 0; left += left < 0 ? 1 : step) {
                memset((void*)g, 0, sizeof *g);
                g_split_seed = sseed;
                fflush(NULL);
                pid_t pid = fork();
                if (pid == 0) {
                    vh_access = hook;
                    vh_split = split;
                    if (wopen) { g_left = left; g_armed = true; }
                    MBConfig cc = conf(wopt);
                    DB* d = new DB(cc);
                    if (!d->is_open()) { g->bad_rc = d->Status(); _exit(43); }
                    g->opened = 1;
                    if (!wopen) {
                        for (auto& o : pre) if ((g->bad_rc = apply(*d, o)) != MBError::SUCCESS) _exit(44);
                        g_left = left; g_armed = true;
                        g->begun = 1;
                        if ((g->bad_rc = apply(*d, op)) != MBError::SUCCESS) _exit(44);
                        g->acked = 1;
                        g_armed = false;
                    }
                    d->Close();
                    _exit(0);
                }
                int st = 0;
                waitpid(pid, &st, 0);
                int ex = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
                if (ex != 0 && ex != 42) { R.viol("crash", "crash_child", "the writer process ended with %d (%s) at store %lld", ex, es(g->bad_rc), left); break; }
                if (left < 0) {
                    total = g->stores;
                    long long most = a.n("points", 400);
                    if (total > most) step = total / most + 1;
                    R.stat("enum_ops"); R.stat(string("enum_") + (wopen ? "open" : opname[op.kind])); R.stat("enum_stores", total);
                    restore(sn);
                    continue;
                }
                Inflight f;
                std::map<string, string> keep = model;
                if (wopen) { }
                else if (g->acked) note(op);
                else if (op.kind == OP_REMOVEALL) f.all = true;
                else if (op.kind != OP_RC) { f.any = true; f.k = op.k; f.has_new = op.kind == OP_ADD; f.newv = op.v; }
                R.stat("kills"); R.stat("enum_points");
                if (g->mid) R.stat("kill_mid_copy");
                R.sig(fnv(&left, 8, fnvs(op.k, sseed)));
                char who[100];
                snprintf(who, sizeof who, "the next writer after a kill at store %lld of %lld of %s%s", left, total, wopen ? "open" : opname[op.kind], g->mid ? " (half-way)" : "");
                MBConfig wc = conf(wopt);
                DB* w = new DB(wc);
                if (!w->is_open()) { R.viol("crash", "crash_open", "%s cannot open the database: %s", who, w->StatusStr()); delete w; break; }
                check(w, f, who, true, rng.chance(12));
                fsck(f, who);
                long long lo = (long long)model.size(), hi = lo, cn = (long long)w->Count();
                if (f.any) { if (f.has_new && !model.count(f.k)) hi++; if (!f.has_new) lo--; }
                if (f.all) lo = 0;
                // documented with the property: one update may be counted or not counted
                if (cn < lo - 1 || cn > hi + 1) R.viol("crash", "crash_count", "%s: Count() is %lld with %lld..%lld entries", who, cn, lo, hi);
                if (cn < lo || cn > hi) R.stat("count_drift");
                // and it goes on working, also next to the interrupted key
                MBData x;
                std::map<string, string> m2 = model;
                if (f.any) { model = m2; if (w->Find(f.k, x) == MBError::SUCCESS) model[f.k] = string((char*)x.buff, x.data_len), R.stat(f.has_new ? "inflight_done" : "inflight_kept"); else model.erase(f.k), R.stat("inflight_absent"); }
                if (f.all) for (auto i2 = model.begin(); i2 != model.end();) { MBData y; if (w->Find(i2->first, y) == MBError::SUCCESS) ++i2; else i2 = model.erase(i2); }
                f = Inflight();
                for (int i = 0; i < 4; i++) {
                    Op o = i == 0 && !op.k.empty() ? op : mkop(false);
                    if (o.kind == OP_REMOVE && !model.count(o.k)) { o.kind = OP_ADD; o.v = "again"; }
                    int rc = apply(*w, o);
                    if (rc != MBError::SUCCESS) { R.viol("crash", "crash_update", "%s: %s(%s): %s", who, opname[o.kind], hex(o.k).c_str(), es(rc)); break; }
                    note(o);
                }
                check(w, f, who, true, rng.chance(12));
                fsck(f, who);

                model = keep;
                w->Close();
                delete w;
                DB::ClearResources(dir);
                if (R.viols) break;
                restore(sn);
            }
            model = base;
            (void)cnt0;
        }
        rm_tree(dir);
    }
    // The writer process runs the queue of another process and is killed while it does. Every queued
    // update is run, in order, by this writer or by the next one.
    void run_async(int rounds)
    {
        jem = false; async = true;
        valprof = rng.chance(70) ? 0 : 1;
        cfg.block_size_index = cfg.block_size_data = 4u << 20;
        cfg.max_num_index_block = cfg.max_num_data_block = 64;
        cfg.memcap_index = rng.chance(50) ? 64u << 20 : 4u << 20;
        cfg.memcap_data = rng.chance(50) ? 64u << 20 : 4u << 20;
        cfg.num_entry_per_bucket = 500;
        cfg.queue_size = rng.chance(50) ? 8 : rng.range(2, 64);
        dir = mk_scratch(g_root, "crash");
        int wopt = CONSTS::ACCESS_MODE_WRITER | CONSTS::ASYNC_WRITER_MODE;
        char c[160];
        snprintf(c, sizeof c, "async fam=%d valprof=%d memcap %zu %zu queue %u", kg.family, valprof, cfg.memcap_index >> 20, cfg.memcap_data >> 20, cfg.queue_size);
        R.ctx += string(" ") + c;
        R.trace.clear();
        R.op("%s", c);
        for (int rd = 0; rd < rounds && !R.viols; rd++) {
            memset((void*)g, 0, sizeof *g);
            g_split_seed = rng.next();
            int n = rng.range(5, 60), arm_op = rng.chance(90) ? (int)rng.below(n) : -1;
            long long left = 1 + (long long)rng.below(rng.chance(60) ? 60 : 400);
            fflush(NULL);
            DB::ClearResources(dir);
            pid_t pid = fork();
            if (pid == 0) {
                vh_access = hook;
                vh_split = split;
                MBConfig cc = conf(wopt);
                DB* d = new DB(cc);
                if (!d->is_open()) { g->bad_rc = d->Status(); _exit(43); }
                g->opened = 1;
                while (!g->stop) usleep(200);
                d->Close();
                _exit(0);
            }
            int st = 0;
            bool dead = false;
            while (!g->opened && !(dead = waitpid(pid, &st, WNOHANG) == pid)) usleep(100);
            if (dead) { R.viol("crash", "crash_open", "the async writer cannot open the database: %s", es(g->bad_rc)); break; }
            MBConfig rc = conf(CONSTS::ACCESS_MODE_READER);
            DB* r = new DB(rc);
            if (!r->is_open()) { R.viol("crash", "crash_open", "a client cannot open the database: %s", r->StatusStr()); kill(pid, SIGKILL); waitpid(pid, &st, 0); break; }
            bool client = true;
            int queued = 0;
            for (int i = 0; i < n && !dead; i++) {
                Op o;
                if (rng.chance(60) || model.size() < 4) {
                    o.kind = OP_ADD;
                    o.k = rng.chance(30) && !model.empty() ? kg.pick(model) : kg.next();
                    if (o.k.empty() || o.k.size() > 256) continue;
                    o.v = make_value(rng, vid++, valprof);
                } else if (rng.chance(4)) o.kind = OP_REMOVEALL;
                else { o.kind = OP_REMOVE; o.k = kg.pick(model); }
                if (i == arm_op) g->arm = left;
                int rv;
                while ((rv = apply(*r, o)) == MBError::TRY_AGAIN && !dead) {
                    usleep(50);
                    dead = waitpid(pid, &st, WNOHANG) == pid;
                }
                if (rv == MBError::TRY_AGAIN) break;
                if (rv != MBError::SUCCESS) { R.viol("crash", "crash_update", "%s(%s) of a client: %s", opname[o.kind], hex(o.k).c_str(), es(rv)); break; }
                queued++;
                R.op("  %s %s", opname[o.kind], hex(o.k).c_str());
                if (o.kind == OP_ADD) model[o.k] = o.v;
                else if (o.kind == OP_REMOVE) model.erase(o.k);
                else model.clear();
                if (rng.chance(20)) usleep(rng.range(1, 200));
            }
            if (!dead && rng.chance(70)) { g->stop = 1; }
            if (!dead && !g->stop) for (int i = 0; i < 300 && !dead; i++) { usleep(100); dead = waitpid(pid, &st, WNOHANG) == pid; }
            if (!dead) { g->stop = 1; waitpid(pid, &st, 0); }
            int ex = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
            R.op("round %d: %d queued, armed at %d after %lld, ended %d", rd, queued, arm_op, left, ex);
            R.stat("async_rounds");
            R.stat("async_queued", queued);
            if (ex != 0 && ex != 42) { R.viol("crash", "crash_child", "the async writer process ended with %d", ex); break; }
            if (ex == 42) { R.stat("kills"); R.stat("kill_async"); kills_since_sync++; if (g->mid) R.stat("kill_mid_copy"); R.sig(fnv(&left, 8, (uint64_t)rd * 77 + model.size() * 31 + queued)); }
            if (client) { r->Close(); delete r; }
            DB::ClearResources(dir);
            // ---- the next writer runs what is left
            MBConfig wc = conf(wopt);
            DB* w = new DB(wc);
            if (!w->is_open()) { R.viol("crash", "crash_open", "the next async writer cannot open the database: %s", w->StatusStr()); break; }
            for (int i = 0; i < 400000 && w->AsyncWriterBusy(); i++) usleep(50);
            if (w->AsyncWriterBusy()) { R.viol("crash", "crash_queue", "the next async writer is still busy after 20 s"); break; }
            MBConfig r2 = conf(CONSTS::ACCESS_MODE_READER);
            r = new DB(r2);
            if (!r->is_open()) { R.viol("crash", "crash_open", "a reader cannot open the database: %s", r->StatusStr()); break; }
            Inflight f;
            check(r, f, "a reader of the next async writer", true);
            long long drift = (long long)r->Count() - (long long)model.size();
            if (drift < 0) drift = -drift;
            if (drift > kills_since_sync) R.viol("crash", "crash_count", "Count() is %lld with %zu entries after %d kills", (long long)r->Count(), model.size(), kills_since_sync);
            r->Close(); delete r;
            w->Close(); delete w;
            fsck(f, "after the next async writer");
        }
        rm_tree(dir);
    }
};

int main(int argc, char** argv)
{
    Args a(argc, argv);
    R.init(a);
    quiet_lib();
    g_root = a.s("root", "/dev/shm");
    g = (Shm*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t seed = (uint64_t)a.n("seed", 1);
    long long cases = a.n("cases", 10), ops = a.n("ops", 40), first = a.n("first", 0);
    if (a.has("keepgoing")) R.stop_on_viol = false;
    for (long long i = first; i < first + cases; i++) {
        R.ctx = "case " + std::to_string(i);
        Case* c = new Case(seed * 1000003ull + (uint64_t)i, a);
        if (a.has("enum")) c->run_enum((int)ops);
        else if (a.has("async")) c->run_async((int)ops);
        else c->run((int)ops);
        R.stat("cases");
        if (i < first + 2) R.sample(R.ctx);
        delete c;
    }
    R.flush();
    return R.viols ? 3 : 0;
}
