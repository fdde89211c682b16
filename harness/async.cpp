// Free-running stress of the asynchronous update path: producer threads and processes send updates through the
// shared queue while the async writer runs them, collects garbage, backs up, clears, closes and reopens.
// Every producer's operations are fixed before the run, and every key belongs to one producer, so the state
// after each operation is known exactly:
//  - readers: each observation of a key must be a state of that key, not older than any state seen before or known
//    to be applied, not newer than what has been sent
//  - at barriers (everybody waits, AsyncWriterBusy() is false): contents are exactly the model's
//  - a backup holds, for every producer, the state after some prefix of its operations, at least up to those
//    completed before Backup was called
//  - rounds with RemoveAll: the last operation on a key that is not followed by a RemoveAll decides
//  - rounds with a killed producer: its keys show the state after its completed operations, or one more
#include "common.h"
#include <sys/prctl.h>
using namespace vh;
static Report R;
static string g_root;
static const int MAXP = 8, MAXOPS = 4096, MAXK = 2048;
enum { ADD, ADDNO, DEL, RMALL };

struct Op { uint8_t kind; int key; int viaSync; };
struct Shared {
    std::atomic<uint64_t> clock;
    std::atomic<int> phase; // phase producers may run
    std::atomic<int> arrived;
    std::atomic<int> readers_on, stop;
    struct P {
        std::atomic<uint32_t> started, done;
        std::atomic<int> dead;
        uint64_t inv[MAXOPS], resp[MAXOPS];
    } p[MAXP];
    std::atomic<int> seen[MAXK];
    std::atomic<int> nviol;
    char viol[16][1400];
    std::atomic<long long> reads, hits, changes, retries, again, rd_during_rc;
};
static Shared* S;
static void shviol(const char* key, const char* fmt, ...)
{
    int n = S->nviol++;
    if (n >= 16) return;
    va_list ap;
    va_start(ap, fmt);
    int l = snprintf(S->viol[n], 200, "%s\t", key);
    vsnprintf(S->viol[n] + l, sizeof S->viol[n] - l, fmt, ap);
    va_end(ap);
}

struct State { int op; int val; }; // val: index of the producer's operation that wrote the value, -1 absent
struct Case {
    uint64_t seed;
    Rng rng;
    string dir;
    MBConfig cfg {};
    int mode, np, nproc, nread, nreadproc, phases, nops;
    bool memonly, jem, ra, killr, reopenmid, rcs, bks;
    int valprof;
    vector<string> keys;
    std::map<string, int> kidx;
    vector<Op> ops[MAXP];
    vector<vector<State>> st;          // per key
    vector<uint64_t> hash_after[MAXP]; // xor hash of the producer's entries
    vector<int> live_after[MAXP];
    int nbk = 0;
    vector<int> bound[MAXP]; // operation count at the end of each phase
    Case(uint64_t s) : seed(s), rng(s) { }

    string value(int p, int op) const
    {
        Rng r(seed ^ (uint64_t)p << 40 ^ (uint64_t)op * 77);
        int n = valprof == 0 ? r.range(8, 40) : valprof == 1 ? (r.chance(80) ? r.range(8, 300) : r.range(8, 6000)) : r.pick(vector<int> { 8, 1000, 8184, 32767, 32766, 16384 });
        char b[20];
        snprintf(b, sizeof b, "%d.%05d.", p, op);
        string v(b);
        while ((int)v.size() < n) v.push_back((char)r.next());
        return v;
    }
    static uint64_t ehash(const string& k, const string& v) { return fnvs(v, fnvs(k) * 31 + k.size()) | 1; }
    MBConfig conf(int opt) const
    {
        MBConfig c = cfg;
        c.mbdir = dir.c_str();
        c.queue_dir = dir.c_str();
        c.options = opt;
        return c;
    }
    int ropt() const { return CONSTS::ACCESS_MODE_READER | (memonly ? CONSTS::MEMORY_ONLY_MODE : 0) | (jem ? CONSTS::OPTION_JEMALLOC : 0); }
    int wopt() const { return ropt() | CONSTS::ACCESS_MODE_WRITER | CONSTS::ASYNC_WRITER_MODE; }
    DB* open(int o)
    {
        MBConfig c = conf(o);
        DB* d = new DB(c);
        if (!d->is_open()) { shviol("open_failed", "open with options 0x%x failed: %s", o, d->StatusStr()); delete d; return nullptr; }
        return d;
    }
    void plan(const Args& a)
    {
        int modes = (int)a.n("modes", 1);
        vector<int> ms;
        for (int m : { 1, 1, 1, 2, 4, 8 }) if (modes & m) ms.push_back(m);
        mode = rng.pick(ms);
        memonly = mode == 2 || mode == 8;
        jem = mode >= 4;
        string kind = a.s("kind", "mix"); // mix, removeall, kill
        if (kind == "any") kind = rng.pick(vector<string> { "mix", "mix", "mix", "removeall", "kill" });
        ra = kind == "removeall";
        killr = kind == "kill" && !memonly;
        np = rng.range(1, (int)a.n("prods", 5));
        nproc = memonly ? 0 : rng.chance(30) ? np : rng.range(0, np);
        if (killr && !nproc) nproc = 1;
        if (killr && np < 2) np = 2;
        reopenmid = !memonly && !jem && rng.chance(40);
        if (reopenmid) nproc = np; // a handle in the writer's process must not be used while the writer is closed
        nread = rng.range(0, 3);
        nreadproc = memonly ? 0 : rng.range(0, nread);
        rcs = a.n("rc", 1) && (rng.chance(60) || a.n("rc", 1) == 2) && !(jem);
        bks = !ra && !memonly && a.n("backup", 1) && (rng.chance(50) || a.n("backup", 1) == 2);
        if (a.n("rc", 1) == 2) nread = std::max(nread, 1);
        phases = rng.range(1, 3);
        nops = (int)a.n("ops", 300);
        valprof = rng.chance(60) ? 0 : rng.chance(70) ? 1 : 2;
        cfg.block_size_index = cfg.block_size_data = 4u << 20;
        cfg.max_num_index_block = cfg.max_num_data_block = jem ? 16 : 128;
        cfg.memcap_index = cfg.memcap_data = jem ? 64u << 20 : 256u << 20;
        if (rng.chance(20) && mode == 1) cfg.memcap_data = cfg.memcap_index = 0;
        cfg.num_entry_per_bucket = rng.chance(50) ? 500 : 16;
        cfg.queue_size = rng.chance(50) ? 8 : rng.range(2, 8);
        KeyGen kg((int)rng.below(KeyGen::NFAM), &rng);
        int nk = a.n("rc", 1) == 2 ? rng.range(100, 1500) : rng.range(np, rng.chance(50) ? 40 : 600);
        for (int i = 0; i < nk * 3 && (int)keys.size() < nk; i++) {
            string k = kg.next();
            if (kidx.count(k)) continue;
            kidx[k] = (int)keys.size();
            keys.push_back(k);
        }
        while ((int)keys.size() < np) { string k = "extra" + std::to_string(keys.size()); kidx[k] = (int)keys.size(); keys.push_back(k); }
        nk = (int)keys.size();
        st.assign(nk, { { -1, -1 } });
        for (int p = 0; p < np; p++) {
            uint64_t h = 0;
            int live = 0;
            hash_after[p].push_back(0);
            live_after[p].push_back(0);
            vector<int> mine;
            for (int k = p; k < nk; k += np) mine.push_back(k);
            int hot = rng.range(1, (int)mine.size());
            for (int ph = 0; ph < phases; ph++) {
                int n = rng.range(nops / 4, nops);
                for (int i = 0; i < n && (int)ops[p].size() < MAXOPS; i++) {
                    Op o;
                    o.key = mine[rng.below(rng.chance(70) ? hot : mine.size())];
                    int c = (int)rng.below(100);
                    o.kind = ra && c < 3 ? RMALL : c < 45 ? ADD : c < 65 && !ra ? ADDNO : DEL;
                    if (ra && c >= 45 && c < 65) o.kind = ADD;
                    o.viaSync = rng.chance(30);
                    int idx = (int)ops[p].size();
                    ops[p].push_back(o);
                    auto& sv = st[o.key];
                    int cur = sv.back().val;
                    bool change = o.kind == ADD || (o.kind == ADDNO && cur < 0) || (o.kind == DEL && cur >= 0);
                    if (change && o.kind != RMALL) {
                        if (cur >= 0) { h ^= ehash(keys[o.key], value(p, cur)); live--; }
                        int nv = o.kind == DEL ? -1 : idx;
                        if (nv >= 0) { h ^= ehash(keys[o.key], value(p, nv)); live++; }
                        sv.push_back({ idx, nv });
                    }
                    hash_after[p].push_back(h);
                    live_after[p].push_back(live);
                }
                bound[p].push_back((int)ops[p].size());
            }
        }
    }
    // ---------------------------------------------------------------- producers
    void producer(int p, bool thread)
    {
        Rng r(seed * 31 + p);
        int spin = 0;
        DB* d = nullptr;
        size_t i = 0;
        for (int ph = 0; ph < phases; ph++) {
            while (S->phase.load() < ph + 1) { if (S->stop) _exit(0); usleep(100); }
            if (!d) d = open(ropt());
            if (!d) { S->arrived++; return; }
            int pace = r.range(0, 3);
            for (; (int)i < bound[p][ph]; i++) {
                const Op& o = ops[p][i];
                const string& k = keys[o.key];
                auto& sp = S->p[p];
                sp.inv[i] = S->clock++;
                sp.started.store((uint32_t)i + 1);
                int rc = MBError::SUCCESS;
                string v;
                if (o.kind <= ADDNO) v = value(p, (int)i);
                KeyBuf kb(k), vb(v);
                for (spin = 0; spin < 2000000; spin++) {
                    if (o.kind == RMALL) rc = d->RemoveAll();
                    else if (o.kind == DEL) rc = o.viaSync ? d->Remove(kb.p, (int)k.size()) : d->RemoveAsync(kb.p, (int)k.size());
                    else rc = o.viaSync ? d->Add(kb.p, (int)k.size(), vb.p, (int)v.size(), o.kind == ADD) : d->AddAsync(kb.p, (int)k.size(), vb.p, (int)v.size(), o.kind == ADD);
                    if (rc != MBError::TRY_AGAIN) break;
                    S->again++;
                    usleep(20);
                }
                if (rc != MBError::SUCCESS)
                    shviol("update_rejected", "producer %d operation %zu kind %d on %s (value %zu bytes) returned %s", p, i, o.kind, hex(k).c_str(), v.size(), es(rc));
                // the queue has its own copy: what the caller does with its buffers afterwards must not matter
                memset(kb.p, 0x55, k.size());
                memset(vb.p, 0x55, v.size());
                sp.done.store((uint32_t)i + 1);
                sp.resp[i] = S->clock++;
                if (pace == 1 && r.chance(5)) usleep(r.below(2000));
                if (pace == 2 && r.chance(30)) usleep(r.below(200));
                if (r.chance(1)) { d->Close(); delete d; d = open(ropt()); if (!d) { S->arrived++; return; } }
            }
            S->arrived++;
        }
        d->Close();
        delete d;
    }
    // ---------------------------------------------------------------- readers
    int owner(int k) const { return k % np; }
    void read_key(DB* d, int k)
    {
        int lb = S->seen[k].load();
        MBData m;
        const string& key = keys[k];
        int rc = d->Find(key.data(), (int)key.size(), m);
        int p = owner(k);
        uint32_t started = S->p[p].started.load();
        S->reads++;
        int j = -1;
        if (rc == MBError::SUCCESS) {
            S->hits++;
            string v = val_of(m);
            int vp = -1, vo = -1;
            if (v.size() < 8 || sscanf(v.c_str(), "%d.%05d.", &vp, &vo) != 2 || vp != p || vo < 0 || vo >= (int)ops[p].size() || value(p, vo) != v) {
                shviol("read_foreign", "Find(%s) returned %s, which the owner %d never wrote", hex(key).c_str(), hex(v).c_str(), p);
                return;
            }
            for (size_t q = lb; q < st[k].size(); q++) if (st[k][q].val == vo) { j = (int)q; break; }
            if (j < 0) {
                shviol("read_stale", "Find(%s) returned the value of operation %d of producer %d, but state %d (operation %d) was already visible", hex(key).c_str(), vo, p, lb, st[k][lb].op);
                return;
            }
        } else if (rc == MBError::NOT_EXIST) {
            for (size_t q = lb; q < st[k].size(); q++) if (st[k][q].val < 0) { j = (int)q; break; }
            if (j < 0) { shviol("read_lost", "Find(%s) found nothing, but state %d was visible and the key is never removed after it", hex(key).c_str(), lb); return; }
        } else {
            shviol("read_error", "Find(%s) failed: %s", hex(key).c_str(), es(rc));
            return;
        }
        if (st[k][j].op >= (int)started) {
            shviol(rc == MBError::SUCCESS ? "read_future" : "read_lost", "Find(%s): the next matching state of the key is that of operation %d of producer %d, but only %u were sent (visible before: state %d of operation %d)",
                hex(key).c_str(), st[k][j].op, p, started, lb, st[k][lb].op);
            return;
        }
        int cur = lb;
        if (j > lb) S->changes++;
        while (j > cur && !S->seen[k].compare_exchange_weak(cur, j)) { }
    }
    void reader(int id)
    {
        Rng r(seed * 17 + id + 100);
        DB* d = nullptr;
        int nk = (int)keys.size();
        while (!S->stop) {
            if (!S->readers_on) {
                if (d) { d->Close(); delete d; d = nullptr; S->arrived++; }
                usleep(200);
                continue;
            }
            if (!d) { d = open(ropt()); if (!d) return; }
            int hot = r.chance(50) ? std::min(nk, 8) : nk;
            for (int i = 0; i < 50; i++) read_key(d, (int)r.below(hot));
            if (r.chance(20)) usleep(r.below(500));
        }
        if (d) { d->Close(); delete d; }
    }
    void poll_viol()
    {
        int n = std::min(16, S->nviol.load());
        if (!n) return;
        for (int i = 0; i < n; i++) {
            if (!S->viol[i][0]) usleep(20000);
            char* t = strchr(S->viol[i], '\t');
            string key = t ? string(S->viol[i], t) : "unknown";
            R.stop_on_viol = false;
            R.viol("async", key, "%s", t ? t + 1 : "");
        }
        R.flush();
        _exit(3);
    }
    void fail(const char* key, const string& m) { shviol(key, "%s", m.c_str()); poll_viol(); }
    struct Bk { string dir; vector<uint32_t> lower; };
    void check_backup(const Bk& b)
    {
        MBConfig c = conf(CONSTS::ACCESS_MODE_READER | (jem ? CONSTS::OPTION_JEMALLOC : 0));
        c.mbdir = b.dir.c_str();
        c.queue_dir = b.dir.c_str();
        DB d(c);
        if (!d.is_open()) { fail("backup_open", "the backup " + b.dir + " does not open: " + d.StatusStr()); return; }
        vector<uint64_t> h(np, 0);
        vector<int> n(np, 0);
        long long cnt = 0;
        for (auto it = d.begin(); it != d.end(); ++it) {
            auto f = kidx.find(it.key);
            if (f == kidx.end()) { fail("backup_foreign", "the backup has the unknown key " + hex(it.key)); return; }
            h[owner(f->second)] ^= ehash(it.key, val_of(it.value));
            n[owner(f->second)]++;
            cnt++;
        }
        if (cnt != d.Count()) fail("backup_count", "the backup reports " + std::to_string(d.Count()) + " entries but has " + std::to_string(cnt));
        for (int p = 0; p < np; p++) {
            bool ok = false;
            uint32_t hi = S->p[p].started.load();
            for (uint32_t i = b.lower[p]; i <= hi && !ok; i++) ok = hash_after[p][i] == h[p] && live_after[p][i] == n[p];
            if (!ok) {
                bool older = false;
                for (uint32_t i = 0; i < b.lower[p] && !older; i++) older = hash_after[p][i] == h[p] && live_after[p][i] == n[p];
                fail(older ? "backup_old" : "backup_torn", "the backup does not hold the entries of producer " + std::to_string(p) + " after any " + (older ? "allowed " : "")
                    + "number of its operations (" + std::to_string(b.lower[p]) + ".." + std::to_string(hi) + ", entries " + std::to_string(n[p]) + ")");
            }
        }
        R.stat("backups");
        R.stat("backup_entries", cnt);
        d.Close();
    }
    void verify(DB* d, int ph, int killed)
    {
        long long live = 0;
        std::map<string, string> want;
        bool exact = true;
        vector<uint32_t> upto(np);
        for (int p = 0; p < np; p++) upto[p] = (uint32_t)bound[p][ph];
        if (killed >= 0) {
            // the killed producer: its completed operations, and possibly the one it was in
            uint32_t lo = S->p[killed].done, hi = S->p[killed].started;
            upto[killed] = lo;
            for (uint32_t c = lo; c <= hi; c++) {
                uint64_t h = 0;
                for (int k = killed; k < (int)keys.size(); k += np) {
                    MBData m;
                    if (d->Find(keys[k], m) == MBError::SUCCESS) h ^= ehash(keys[k], val_of(m));
                }
                if (h == hash_after[killed][c]) { upto[killed] = c; break; }
                if (c == hi) fail("killed_producer", "the entries of the killed producer match neither " + std::to_string(lo) + " nor " + std::to_string(hi) + " operations");
            }
        }
        if (ra) {
            verify_ra(d, ph);
            return;
        }
        for (int k = 0; k < (int)keys.size(); k++) {
            int p = owner(k), j = 0;
            for (size_t q = 0; q < st[k].size() && st[k][q].op < (int)upto[p]; q++) j = (int)q;
            MBData m;
            int rc = d->Find(keys[k], m);
            int v = st[k][j].val;
            R.stat("final_checks");
            if (v < 0) {
                if (rc != MBError::NOT_EXIST) fail("final_extra", "after " + std::to_string(upto[p]) + " operations of producer " + std::to_string(p) + " Find(" + hex(keys[k]) + ") = " + es(rc) + " " + hex(val_of(m)) + ", expected nothing (state of operation " + std::to_string(st[k][j].op) + ")");
            } else {
                string e = value(p, v);
                if (rc != MBError::SUCCESS || val_of(m) != e)
                    fail(rc == MBError::SUCCESS ? "final_value" : "final_lost", "after " + std::to_string(upto[p]) + " operations of producer " + std::to_string(p) + " Find(" + hex(keys[k]) + ") = " + es(rc) + " " + hex(val_of(m)) + ", expected the value of operation " + std::to_string(v));
                live++;
                want[keys[k]] = e;
            }
            if (S->seen[k] < j) S->seen[k] = j;
        }
        if (d->Count() != live) fail("final_count", "Count() is " + std::to_string(d->Count()) + ", expected " + std::to_string(live));
        size_t n = 0;
        for (auto it = d->begin(); it != d->end(); ++it) {
            n++;
            auto f = want.find(it.key);
            if (f == want.end() || f->second != val_of(it.value)) fail("final_iter", "iteration returns " + hex(it.key) + " = " + hex(val_of(it.value)));
        }
        if (n != want.size()) fail("final_iter_count", "iteration returns " + std::to_string(n) + " entries of " + std::to_string(want.size()));
        (void)exact;
    }
    void verify_ra(DB* d, int ph)
    {
        struct RAev { int p; uint64_t inv, resp; };
        vector<RAev> evs;
        for (int p = 0; p < np; p++) for (int i = 0; i < bound[p][ph]; i++) if (ops[p][i].kind == RMALL) evs.push_back({ p, S->p[p].inv[i], S->p[p].resp[i] });
        long long lo = 0, hi = 0;
        for (int k = 0; k < (int)keys.size(); k++) {
            int p = owner(k), x = -1;
            for (int i = 0; i < bound[p][ph]; i++) if (ops[p][i].kind != RMALL && ops[p][i].key == k) x = i;
            bool may = x >= 0 && ops[p][x].kind == ADD, must = may;
            if (may) {
                uint64_t inv = S->p[p].inv[x], resp = S->p[p].resp[x];
                for (auto& e : evs) {
                    if (e.inv > resp) may = must = false;
                    else if (e.resp > inv && e.p != p) must = false;
                }
            }
            lo += must;
            hi += may;
            MBData m;
            int rc = d->Find(keys[k], m);
            R.stat("final_checks");
            if (rc == MBError::SUCCESS && !may) fail("ra_extra", "Find(" + hex(keys[k]) + ") = " + hex(val_of(m)) + ", but the key was removed or cleared after its last update");
            if (rc == MBError::SUCCESS && val_of(m) != value(p, x)) fail("ra_value", "Find(" + hex(keys[k]) + ") = " + hex(val_of(m)) + ", expected the value of operation " + std::to_string(x) + " of producer " + std::to_string(p));
            if (rc != MBError::SUCCESS && must) fail("ra_lost", "Find(" + hex(keys[k]) + ") = " + es(rc) + ", but it was added after the last RemoveAll (operation " + std::to_string(x) + " of producer " + std::to_string(p) + ")");
        }
        long long c = d->Count();
        if (c < lo || c > hi) fail("ra_count", "Count() is " + std::to_string(c) + ", expected " + std::to_string(lo) + ".." + std::to_string(hi));
        R.stat("removeall_events", (long long)evs.size());
    }
    bool busy(DB* d) { return d->AsyncWriterBusy(); }
    void run(const Args& a)
    {
        plan(a);
        dir = mk_scratch(g_root, "async");
        char c[240];
        snprintf(c, sizeof c, "mode=%d producers=%d (%d processes) readers=%d (%d) keys=%zu valprof=%d q=%u ra=%d kill=%d reopen=%d rc=%d backup=%d phases=%d", mode, np, nproc, nread,
            nreadproc, keys.size(), valprof, cfg.queue_size, ra, killr, reopenmid, rcs, bks, phases);
        R.ctx += string(" ") + c;
        S->clock = 1;
        S->phase = S->arrived = S->readers_on = S->stop = 0;
        S->nviol = 0;
        memset(S->viol, 0, sizeof S->viol);
        for (auto& p : S->p) { p.started = p.done = 0; p.dead = 0; }
        for (auto& s : S->seen) s = 0;
        S->reads = S->hits = S->changes = S->retries = S->again = S->rd_during_rc = 0;
        bool readers = !ra;
        if (!readers) nread = nreadproc = 0;
        // processes first, while this process has one thread
        vector<pid_t> kids;
        for (int p = 0; p < nproc; p++) {
            pid_t f = fork();
            if (f == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); producer(p, false); _exit(0); }
            kids.push_back(f);
        }
        vector<pid_t> rkids;
        for (int i = 0; i < nreadproc; i++) {
            pid_t f = fork();
            if (f == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); reader(i); _exit(0); }
            rkids.push_back(f);
        }
        DB* w = open(wopt());
        DB* m = w ? open(ropt()) : nullptr;
        if (!w || !m) poll_viol();
        vector<std::thread> ths;
        for (int p = nproc; p < np; p++) ths.emplace_back([this, p] { producer(p, true); });
        for (int i = nreadproc; i < nread; i++) ths.emplace_back([this, i] { reader(i); });
        vector<Bk> bk;
        int killed = -1;
        for (int ph = 0; ph < phases; ph++) {
            S->arrived = 0;
            S->readers_on = 1;
            S->phase = ph + 1;
            uint64_t t0 = now();
            int reopens = 0;
            bool lastphase = ph == phases - 1;
            while (true) {
                int need = np - (killed >= 0);
                if (S->arrived >= need) break;
                poll_viol();
                if (killr && lastphase && killed < 0 && S->p[0].started > (uint32_t)(bound[0][ph] - rng.range(1, nops / 4)) && S->p[0].started < (uint32_t)bound[0][ph]) {
                    kill(kids[0], SIGKILL);
                    waitpid(kids[0], nullptr, 0);
                    if (S->p[0].done < (uint32_t)bound[0][ph]) { killed = 0; R.stat("kills"); }
                    kids[0] = -1;
                }
                if (now() - t0 > 200000) fail("stall", "the producers do not finish: started " + std::to_string(S->p[0].started) + " of " + std::to_string(bound[0][ph]));
                int x = (int)rng.below(100);
                if (rcs && x < 6) { int rc = m->CollectResource(1, 1); if (rc == MBError::SUCCESS) R.stat("rc_requests"); else if (rc != MBError::TRY_AGAIN) fail("rc_rejected", string("CollectResource: ") + es(rc)); }
                else if (bks && x < 9 && bk.size() < 6) {
                    Bk b;
                    b.dir = dir + "/bk" + std::to_string(nbk++);
                    mkdir_or_die(b.dir);
                    for (int p = 0; p < np; p++) b.lower.push_back(S->p[p].done.load());
                    int rc = m->Backup(b.dir.c_str());
                    if (rc == MBError::SUCCESS) bk.push_back(b);
                    else if (rc != MBError::TRY_AGAIN) fail("backup_rejected", string("Backup: ") + es(rc));
                } else if (reopenmid && x < 12 && reopens < 3) {
                    reopens++;
                    w->Close();
                    delete w;
                    if (rng.chance(50)) usleep(rng.below(20000));
                    w = open(wopt());
                    if (!w) poll_viol();
                    R.stat("writer_reopens");
                } else usleep(rng.below(1500));
                if (busy(m)) R.stat("busy_polls");
            }
            t0 = now();
            while (busy(m)) {
                poll_viol();
                if (now() - t0 > 100000) fail("never_idle", "the async writer stays busy although all updates were sent 100 s ago");
                usleep(200);
            }
            if (readers && nread) {
                // let the readers finish what they are doing
                S->arrived = 0;
                S->readers_on = 0;
                t0 = now();
                while (S->arrived < nread) { poll_viol(); usleep(200); if (now() - t0 > 100000) fail("reader_stall", "a reader does not finish a lookup"); }
            }
            poll_viol();
            verify(m, ph, killed);
            for (auto& b : bk) check_backup(b);
            bk.clear();
            R.stat("phases");
            if (!lastphase && rng.chance(30)) {
                // close and reopen with an empty queue
                if (!memonly && !jem && nproc == np) { m->Close(); delete m; w->Close(); delete w; w = open(wopt()); m = w ? open(ropt()) : nullptr; if (!m) poll_viol(); verify(m, ph, -1); R.stat("quiet_reopens"); }
            }
        }
        S->stop = 1;
        for (auto& t : ths) t.join();
        for (pid_t k : kids) if (k > 0) reap(k);
        for (pid_t k : rkids) reap(k);
        poll_viol();
        long long sent = 0;
        for (int p = 0; p < np; p++) sent += S->p[p].done;
        R.stat("updates", sent);
        R.stat("reads", S->reads);
        R.stat("read_hits", S->hits);
        R.stat("observed_changes", S->changes);
        R.stat("queue_full", S->again);
        uint64_t h = seed;
        for (int p = 0; p < np; p++) h = fnv(S->p[p].inv, sizeof(uint64_t) * S->p[p].done, h);
        R.sig(h);
        m->Close(); delete m;
        w->Close(); delete w;
        rm_tree(dir);
    }
    void reap(pid_t k)
    {
        int s = 0;
        waitpid(k, &s, 0);
        if (WIFSIGNALED(s)) { shviol("child_signal", "a producer or reader process died with signal %d", WTERMSIG(s)); poll_viol(); }
        else if (WEXITSTATUS(s) != 0) { shviol("child_exit", "a producer or reader process exited with status %d", WEXITSTATUS(s)); poll_viol(); }
    }
    static uint64_t now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000 + t.tv_nsec / 1000000; }
};

int main(int argc, char** argv)
{
    Args a(argc, argv);
    R.init(a);
    g_root = a.s("root", "/tmp");
    quiet_lib();
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t seed = (uint64_t)a.n("seed", 1);
    long long cases = a.n("cases", 10), first = a.n("first", 0);
    for (long long i = first; i < first + cases; i++) {
        R.ctx = "case " + std::to_string(i);
        Case* c = new Case(seed * 1000003ull + (uint64_t)i);
        c->run(a);
        R.stat("cases");
        if (i < first + 2) R.sample(R.ctx);
        delete c;
    }
    R.flush();
    return R.viols ? 3 : 0;
}
