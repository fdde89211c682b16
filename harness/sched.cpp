// Deterministic interleaving explorer. The writer and the readers are coroutines in one OS thread;
// every load, store, atomic operation and copy (split at a random byte) of the library on shared memory
// is a switch point (see tsanrt.h), and a seeded scheduler decides who runs next. Each reader result is judged online against the writer's version log:
//  - exact lookups: per-key linearizability (single writer: a result is legal iff some version that
//    was current inside the call's interval equals it; completed reads never go back in time)
//  - longest prefix: the returned entry was current in the interval, and no longer matching key was
//    present throughout
//  - iteration: keys present throughout are reported exactly once, nothing twice, every value was
//    current in the interval
#include "common.h"
#include "tsanrt.h"
#include <sys/resource.h>
using namespace vh;
static Report R;
static string g_root = "/dev/shm";

// ------------------------------------------------------------ coroutines (x86-64)
// co_swap saves the callee-saved registers on the current stack and continues on another one.
asm(R"(
.text
.globl vh_co_swap
.type vh_co_swap,@function
vh_co_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vh_co_swap, .-vh_co_swap
)");
extern "C" void vh_co_swap(void** save, void* to);
struct Co {
    void* sp = nullptr;
    std::function<void()> fn;
    void* stack = nullptr;
    bool done = false;
    int prio = 0;
    int id = 0;
    bool parked = false;
    uint64_t until = 0; // parked until the others have completed this many operations
};
static const size_t STK = 512 * 1024;
static void* g_main_sp;
static vector<Co*> g_cos, g_live;
static Co* g_cur = nullptr;
static Rng* g_srng = nullptr;
// 0..2 random switching, 3 priorities, 4 stops inside critical windows,
// 5, 6 parking: a thread is stopped at a point while the others complete a chosen number of operations
static int g_strategy = 0;
static uint64_t g_wops = 0, g_rops = 0; // completed operations of the writer and of all readers
static uint64_t g_park = 100;           // one in g_park points (atomic ones: five in g_park) parks the thread
static uint64_t g_points = 0, g_switches = 0;
static vector<uint64_t> g_change; // priority change points
static uint64_t g_schedhash;

static void co_enter()
{
    Co* c = g_cur;
    c->fn();
    c->done = true;
    vh_co_swap(&c->sp, g_main_sp);
    abort();
}
static void co_yield()
{
    g_switches++;
    vh_co_swap(&g_cur->sp, g_main_sp);
}
static void co_resume(Co* c)
{
    g_cur = c;
    vh_co_swap(&g_main_sp, c->sp);
    g_cur = nullptr;
}
static vector<void*> g_stacks;
static void co_spawn(std::function<void()> fn)
{
    Co* c = new Co;
    c->fn = fn;
    if (g_stacks.empty()) g_stacks.push_back(mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    c->stack = g_stacks.back();
    g_stacks.pop_back();
    void** sp = (void**)((char*)c->stack + STK);
    *--sp = nullptr; // return address of co_enter (never used); keeps the stack aligned
    *--sp = (void*)co_enter;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    c->sp = sp;
    c->prio = (int)g_srng->below(1000000) + 1000;
    c->id = (int)g_cos.size();
    g_cos.push_back(c);
}
static void on_point(int kind, const void*, size_t)
{
    if (!g_cur) return;
    g_points++;
    bool sw;
    switch (g_strategy) {
    case 0: sw = g_srng->chance(50); break;
    case 1: sw = g_srng->chance(15); break;
    case 2: sw = g_srng->chance(3); break;
    case 3: sw = false;
        for (size_t i = 0; i < g_change.size(); i++)
            if (g_change[i] == g_points) { g_cur->prio = (int)i; sw = true; }
        break;
    case 5:
    case 6: {
        uint64_t w = kind == VH_ATOMIC_LOAD || kind == VH_ATOMIC_STORE || kind == VH_WRITE_MID ? 8 : 1;
        sw = g_srng->below(g_park) < w;
        if (sw) {
            bool wr = g_cur->id == 0;
            g_cur->parked = true;
            g_cur->until = wr ? g_rops + g_srng->below(4) : g_wops + g_srng->below(8);
            R.stat("parks");
        }
        break;
    }
    default: // stop inside critical windows more often
        sw = (kind == VH_WRITE_MID || kind == VH_ATOMIC_LOAD || kind == VH_ATOMIC_STORE) ? g_srng->chance(25) : g_srng->chance(2);
    }
    if (sw) co_yield();
}
static void run_all()
{
    g_live = g_cos;
    while (!g_live.empty()) {
        size_t n = 0;
        if (g_strategy == 3) { for (size_t i = 1; i < g_live.size(); i++) if (g_live[i]->prio > g_live[n]->prio) n = i; }
        else if (g_strategy >= 5) {
            size_t free = 0;
            for (auto c : g_live) {
                if (c->parked && (c->id == 0 ? g_rops : g_wops) >= c->until && g_srng->chance(50)) c->parked = false;
                free += !c->parked;
            }
            if (!free) { g_live[g_srng->below(g_live.size())]->parked = false; free = 1; }
            size_t k = g_srng->below(free);
            for (n = 0; g_live[n]->parked || k--; n++) { }
        } else n = g_srng->below(g_live.size());
        Co* c = g_live[n];
        g_schedhash = (g_schedhash ^ (c->id + 1 + g_points * 7)) * 1099511628211ull;
        co_resume(c);
        if (c->done) g_live.erase(g_live.begin() + n);
    }
    for (auto c : g_cos) { g_stacks.push_back(c->stack); delete c; }
    g_cos.clear();
}
// The library naps between reader retries: treat it as a mandatory switch.
extern "C" int nanosleep(const struct timespec*, struct timespec*)
{
    if (g_cur) {
        R.stat("retries");
        g_cur->prio = (int)g_srng->below(900) - 1000; // let the others run
        co_yield();
    }
    return 0;
}

// ------------------------------------------------------------ version log
struct KeyState {
    string key;
    uint32_t started = 0, done = 0, seen = 0;
    vector<string> vals; // value per version; empty = absent
};
struct Case {
    Rng rng;
    string dir;
    MBConfig cfg {};
    int wo, ro;
    bool jem, memonly, pfx;
    DB* w = nullptr;
    vector<DB*> rd;
    vector<KeyState> ks;
    std::map<string, int> idx;
    uint64_t vid = 1;
    int valprof;
    bool wdone = false;
    bool want_rc = false, want_ra = false;
    bool ra_inflight_seen = false;
    int raepoch = 0; // counts RemoveAll starts and ends
    bool judge_prefix, judge_iter;
    Case(uint64_t seed) : rng(seed) { }

    DB* open(int o)
    {
        MBConfig c = cfg;
        c.mbdir = dir.c_str();
        c.queue_dir = dir.c_str();
        c.options = o;
        DB* d = new DB(c);
        if (!d->is_open()) { R.viol("open", "open_failed", "open 0x%x: %s", o, d->StatusStr()); delete d; return nullptr; }
        return d;
    }
    string newval()
    {
        string v = make_value(rng, vid++, valprof);
        return v;
    }
    // ---- writer
    void commit_start(int k, const string& v) { ks[k].vals.push_back(v); ks[k].started++; }
    void w_put(int k, bool ow)
    {
        bool present = !ks[k].vals[ks[k].done].empty();
        string v = newval();
        bool change = ow || !present;
        if (change) commit_start(k, v);
        R.op("  W%s add%s %s v%u %d bytes", "", ow ? "!" : "", hex(ks[k].key).c_str(), ks[k].started, (int)v.size());
        int rv = w->Add(ks[k].key.data(), (int)ks[k].key.size(), v.data(), (int)v.size(), ow);
        int want = change ? MBError::SUCCESS : MBError::IN_DICT;
        if (rv != want) R.viol("writer", "add_result", "Add(%s, ow=%d) returned %s, expected %s", hex(ks[k].key).c_str(), ow, es(rv), es(want));
        ks[k].done = ks[k].started;
        R.stat("w_add");
    }
    void w_del(int k)
    {
        bool present = !ks[k].vals[ks[k].done].empty();
        if (present) commit_start(k, "");
        R.op("  W remove %s v%u", hex(ks[k].key).c_str(), ks[k].started);
        int rv = w->Remove(ks[k].key.data(), (int)ks[k].key.size());
        int want = present ? MBError::SUCCESS : MBError::NOT_EXIST;
        if (rv != want) R.viol("writer", "remove_result", "Remove(%s) returned %s, expected %s", hex(ks[k].key).c_str(), es(rv), es(want));
        ks[k].done = ks[k].started;
        R.stat("w_remove");
    }
    void w_removeall()
    {
        for (size_t k = 0; k < ks.size(); k++) if (!ks[k].vals[ks[k].done].empty()) commit_start((int)k, "");
        R.op("  W removeall");
        raepoch++;
        int rv = w->RemoveAll();
        raepoch++;
        if (rv != MBError::SUCCESS) R.viol("writer", "removeall_result", "RemoveAll returned %s", es(rv));
        for (auto& s : ks) s.done = s.started;
        R.stat("w_removeall");
    }
    bool reopen_now = false;
    void writer(int n)
    {
        if (reopen_now) {
            // another writer starts while the readers are at work
            R.op("  W open");
            w = open(wo);
            if (!w) { wdone = true; return; }
            R.op("  W is open");
            R.stat("w_reopen");
            if (jem) R.stat("w_rebuild");
            g_wops++;
        }
        int tot = (int)ks.size();
        int hot = rng.chance(50) ? std::min(tot, rng.range(1, 4)) : tot;
        for (int i = 0; i < n; i++) {
            int k = (int)rng.below(rng.chance(70) ? hot : tot);
            int c = (int)rng.below(100);
            if (reopen_now && rng.chance(25)) {
                R.op("  W close");
                delete w;
                w = nullptr;
                R.op("  W open");
                w = open(wo);
                if (!w) { wdone = true; return; }
                R.op("  W is open");
                R.stat("w_reopen");
                if (jem) R.stat("w_rebuild");
            } else if (want_rc && c < 4) {
                R.op("  W rc");
                w->CollectResource(1, 1, 0xFFFFFFFFFFFFLL, 0xFFFFFFFFFFFFLL);
                R.stat("w_rc");
            } else if (want_ra && c >= 98) w_removeall();
            else if (c < 62) w_put(k, rng.chance(80));
            else w_del(k);
            g_wops++;
        }
        wdone = true;
    }
    // ---- readers
    bool legal(int k, uint32_t s0, uint32_t e1, const string* v, uint32_t* ver)
    {
        for (uint32_t i = s0; i <= e1; i++)
            if (v ? ks[k].vals[i] == *v : ks[k].vals[i].empty()) { *ver = i; return true; }
        return false;
    }
    string where(int k, const string& v)
    {
        for (size_t i = 0; i < ks[k].vals.size(); i++) if (ks[k].vals[i] == v) return "version " + std::to_string(i) + " of this key";
        for (auto& s : ks) for (auto& x : s.vals) if (x == v) return "a value of key " + hex(s.key);
        return "never written";
    }
    void r_find(DB* d, int id, int k)
    {
        uint32_t s0 = std::max(ks[k].done, ks[k].seen);
        int ra0 = raepoch;
        bool ind = rng.chance(10);
        MBData m;
        int rv;
        if (ind) {
            int err = 0;
            rv = d->InDB(ks[k].key.data(), (int)ks[k].key.size(), err) ? MBError::SUCCESS : (err ? err : MBError::NOT_EXIST);
        } else rv = d->Find(ks[k].key.data(), (int)ks[k].key.size(), m);
        uint32_t e1 = ks[k].started;
        bool ra = raepoch != ra0 || (ra0 & 1);
        R.op("  R%d %s %s -> %s [%u..%u]", id, ind ? "indb" : "find", hex(ks[k].key).c_str(), es(rv), s0, e1);
        R.stat("finds");
        if (e1 > s0) R.stat("finds_overlapping_write");
        uint32_t ver = 0;
        if (rv == MBError::SUCCESS) {
            if (ind) {
                bool any = false;
                for (uint32_t i = s0; i <= e1; i++) any |= !ks[k].vals[i].empty();
                if (!any) R.viol("lin", "indb_phantom", "InDB(%s) is true but the key was absent in the whole interval", hex(ks[k].key).c_str());
                return;
            }
            string v = val_of(m);
            if (!legal(k, s0, e1, &v, &ver))
                R.viol("lin", "find_stale_or_torn", "Find(%s) returned %s (%s), legal versions %u..%u", hex(ks[k].key).c_str(), hex(v).c_str(),
                    where(k, v).c_str(), s0, e1);
            ks[k].seen = std::max(ks[k].seen, ver);
            R.stat("finds_hit");
        } else if (rv == MBError::NOT_EXIST) {
            if (!legal(k, s0, e1, nullptr, &ver))
                R.viol("lin", "find_lost", "%s(%s) found nothing but the key was present in the whole interval (versions %u..%u)", ind ? "InDB" : "Find",
                    hex(ks[k].key).c_str(), s0, e1);
            ks[k].seen = std::max(ks[k].seen, ver);
        } else if (ra && rv == MBError::READ_ERROR) R.stat("removeall_read_error"); // documented for RemoveAll
        else R.viol("lin", rv == MBError::TRY_AGAIN ? "find_starved" : "find_error", "Find(%s) failed: %s", hex(ks[k].key).c_str(), es(rv));
    }
    void r_prefix(DB* d, int id)
    {
        string q = ks[rng.below(ks.size())].key;
        if (rng.chance(60)) { q += (char)('a' + rng.below(3)); if (q.size() > 256) q.resize(256); }
        vector<std::pair<int, uint32_t>> cand;
        for (size_t l = 1; l <= q.size(); l++) { auto it = idx.find(q.substr(0, l)); if (it != idx.end()) cand.push_back({ it->second, ks[it->second].done }); }
        int ra0 = raepoch;
        MBData m;
        int rv = d->FindLongestPrefix(q.data(), (int)q.size(), m);
        bool ra = raepoch != ra0 || (ra0 & 1);
        R.op("  R%d prefix %s -> %s %d", id, hex(q).c_str(), es(rv), m.match_len);
        R.stat("prefixes");
        if (rv != MBError::SUCCESS && rv != MBError::NOT_EXIST) {
            if (ra && rv == MBError::READ_ERROR) { R.stat("removeall_read_error"); return; }
            R.viol("plin", "prefix_error", "FindLongestPrefix(%s) failed: %s", hex(q).c_str(), es(rv));
            return;
        }
        int ml = rv == MBError::SUCCESS ? m.match_len : 0;
        if (rv == MBError::SUCCESS) {
            auto it = ml >= 1 && ml <= (int)q.size() ? idx.find(q.substr(0, ml)) : idx.end();
            string v = val_of(m);
            uint32_t ver;
            if (it == idx.end())
                R.viol("plin", "prefix_badlen", "FindLongestPrefix(%s) matched %d bytes, which is not a key (%s)", hex(q).c_str(), ml, hex(v).c_str());
            else {
                int k = it->second;
                uint32_t s0 = 0;
                for (auto& c : cand) if (c.first == k) s0 = c.second;
                if (!legal(k, s0, ks[k].started, &v, &ver))
                    R.viol("plin", "prefix_stale_or_torn", "FindLongestPrefix(%s) matched %s with %s (%s), legal versions %u..%u", hex(q).c_str(),
                        hex(ks[k].key).c_str(), hex(v).c_str(), where(k, v).c_str(), s0, ks[k].started);
            }
            R.stat("prefix_hits");
        }
        for (auto& c : cand) {
            auto& s = ks[c.first];
            if ((int)s.key.size() <= ml) continue;
            bool always = true;
            for (uint32_t i = c.second; i <= s.started; i++) always &= !s.vals[i].empty();
            if (always)
                R.viol("plin", "prefix_missed", "FindLongestPrefix(%s) matched %d bytes but %s was present in the whole interval", hex(q).c_str(), ml, hex(s.key).c_str());
        }
    }
    void r_iter(DB* d, int id)
    {
        string pf;
        if (rng.chance(40)) { string k = ks[rng.below(ks.size())].key; pf = k.substr(0, 1 + rng.below(std::min<size_t>(k.size(), 4))); }
        vector<uint32_t> s0(ks.size());
        for (size_t i = 0; i < ks.size(); i++) s0[i] = ks[i].done;
        vector<int> cnt(ks.size(), 0);
        int ra0 = raepoch;
        int n = 0;
        R.op("  R%d iter '%s' begin", id, hex(pf).c_str());
        for (DB::iterator it = pf.empty() ? d->begin() : d->begin(pf); it != d->end(); ++it) {
            n++;
            auto f = idx.find(it.key);
            string v = val_of(it.value);
            if (f == idx.end()) { R.viol("ilin", "iter_garbage", "the iterator returned key %s which was never written (%s)", hex(it.key).c_str(), hex(v).c_str()); return; }
            int k = f->second;
            uint32_t ver;
            if (pf.size() && it.key.compare(0, pf.size(), pf) != 0)
                R.viol("ilin", "iter_wrong_prefix", "the iterator over prefix %s returned %s", hex(pf).c_str(), hex(it.key).c_str());
            if (!legal(k, s0[k], ks[k].started, &v, &ver))
                R.viol("ilin", "iter_stale_or_torn", "the iterator returned %s = %s (%s), legal versions %u..%u", hex(it.key).c_str(), hex(v).c_str(),
                    where(k, v).c_str(), s0[k], ks[k].started);
            if (++cnt[k] > 1) R.viol("ilin", "iter_twice", "the iterator returned %s twice", hex(it.key).c_str());
            if (n > 100000) { R.viol("ilin", "iter_endless", "the iterator does not end"); return; }
        }
        R.op("  R%d iter '%s' end %d", id, hex(pf).c_str(), n);
        R.stat("iters");
        R.stat("iter_entries", n);
        bool ra = raepoch != ra0 || (ra0 & 1);
        if (ra) return;
        for (size_t k = 0; k < ks.size(); k++) {
            if (pf.size() && ks[k].key.compare(0, pf.size(), pf) != 0) continue;
            bool always = true;
            for (uint32_t i = s0[k]; i <= ks[k].started; i++) always &= !ks[k].vals[i].empty();
            if (always && !cnt[k])
                R.viol("ilin", "iter_missed", "the iterator over '%s' missed %s, which was present all the time", hex(pf).c_str(), hex(ks[k].key).c_str());
            if (always) R.stat("iter_stable");
        }
    }
    void reader(DB* d, int id, int maxops)
    {
        for (int i = 0; i < maxops && !wdone; i++) {
            int c = (int)rng.below(100);
            if (judge_iter && c < 12) r_iter(d, id);
            else if (judge_prefix && c < 35) r_prefix(d, id);
            else r_find(d, id, (int)rng.below(ks.size()));
            g_rops++;
        }
    }
    void run(const Args& a, int rounds)
    {
        int modes = (int)a.n("modes", 3);
        vector<int> ms;
        for (int m : { 1, 2, 4, 8 }) if (modes & m) ms.push_back(m);
        int mode = rng.pick(ms);
        memonly = mode == 2 || mode == 8;
        jem = mode >= 4;
        pfx = a.n("pfx", 0) != 0;
        want_rc = a.n("rc", 0) && !jem && mode == 1;
        want_ra = a.n("removeall", 1);
        int reopen = memonly ? 0 : (int)a.n("reopen", 0);
        cfg.jemalloc_keep_db = jem && reopen;
        bool many = reopen && rng.chance(40);
        judge_prefix = a.n("prefix", 1);
        judge_iter = a.n("iter", 1);
        valprof = many && rng.chance(70) ? 3 : rng.chance(80) && !many ? 0 : 1;
        cfg.block_size_index = cfg.block_size_data = 4u << 20;
        if (pfx) cfg.block_size_data = 16u << 20;
        cfg.max_num_index_block = cfg.max_num_data_block = jem ? (many ? 12 : 4) : 64;
        bool fileio = mode == 1 && rng.chance(20);
        cfg.memcap_index = jem ? (size_t)cfg.block_size_index * cfg.max_num_index_block : fileio && rng.chance(50) ? 0 : 16u << 20;
        cfg.memcap_data = jem ? (size_t)cfg.block_size_data * cfg.max_num_data_block : fileio ? 0 : 16u << 20;
        cfg.num_entry_per_bucket = 500;
        wo = CONSTS::ACCESS_MODE_WRITER | (memonly ? CONSTS::MEMORY_ONLY_MODE : 0) | (jem ? CONSTS::OPTION_JEMALLOC : 0) | (pfx ? CONSTS::OPTION_PREFIX_CACHE : 0);
        ro = wo & ~CONSTS::ACCESS_MODE_WRITER;
        dir = mk_scratch(g_root, "sched");
        KeyGen kg(rng.chance(60) ? (rng.chance(50) ? 0 : 2) : (int)rng.below(KeyGen::NFAM), &rng);
        char c[160];
        snprintf(c, sizeof c, "mode=%d pfx=%d fam=%d valprof=%d fileio=%d reopen=%d", mode, pfx, kg.family, valprof, fileio, reopen);
        R.ctx += string(" ") + c;
        int nk = many ? rng.range(100, 600) : rng.range(3, 30);
        for (int i = 0; i < nk; i++) {
            string k = kg.next();
            if (idx.count(k)) continue;
            idx[k] = (int)ks.size();
            KeyState s;
            s.key = k;
            s.vals.push_back("");
            ks.push_back(s);
        }
        R.trace.clear();
        R.op("case %s", R.ctx.c_str());
        for (auto& s : ks) R.op("key %s", hex(s.key, 300).c_str());
        w = open(wo);
        if (!w) return;
        int nr = (int)a.n("readers", rng.range(1, 3));
        for (int i = 0; i < nr; i++) { DB* d = open(ro); if (!d) return; rd.push_back(d); }
        for (size_t k = 0; k < ks.size(); k++) if (rng.chance(60)) w_put((int)k, true);
        for (int r = 0; r < rounds; r++) {
            Rng srng(rng.next());
            g_srng = &srng;
            g_strategy = (int)srng.below(9);
            if (g_strategy > 6) g_strategy -= 2;
            g_wops = g_rops = 0;
            g_park = 40u << srng.below(6);
            g_points = 0;
            g_change.clear();
            if (g_strategy == 3) { int d = 1 + (int)srng.below(12); for (int i = 0; i < d; i++) g_change.push_back(1 + srng.below(30u << srng.below(9))); }
            wdone = false;
            g_schedhash = 1469598103934665603ull;
            R.op("round %d strategy %d", r, g_strategy);
            int nw = rng.range(1, 25);
            reopen_now = (int)rng.below(100) < reopen;
            if (reopen_now) { R.op("  W close"); delete w; w = nullptr; }
            co_spawn([&] { writer(nw); });
            for (int i = 0; i < nr; i++) { DB* d = rd[i]; if (!a.n("noread", 0)) co_spawn([this, d, i] { reader(d, i, 400); }); }
            vh_access = on_point;
            run_all();
            vh_access = nullptr;
            if (!w) return;
            R.sig(g_schedhash);
            R.stat("rounds");
            R.stat("points", (long long)g_points);
            R.stat("switches", (long long)g_switches);
            g_switches = 0;
            // quiescent state: every reader must see exactly the final state
            for (auto d : rd) for (size_t k = 0; k < ks.size(); k++) {
                MBData m;
                int rv = d->Find(ks[k].key.data(), (int)ks[k].key.size(), m);
                const string& v = ks[k].vals[ks[k].done];
                if (v.empty() ? rv != MBError::NOT_EXIST : (rv != MBError::SUCCESS || val_of(m) != v))
                    R.viol("lin", "quiescent", "after the round Find(%s) returned %s %s, expected %s", hex(ks[k].key).c_str(), es(rv), hex(val_of(m)).c_str(),
                        v.empty() ? "nothing" : hex(v).c_str());
            }
            for (auto& s : ks) { string v = s.vals[s.done]; s.vals.assign(1, v); s.started = s.done = s.seen = 0; }
        }
        for (auto d : rd) delete d;
        delete w;
        rm_tree(dir);
    }
};

int main(int argc, char** argv)
{
    Args a(argc, argv);
    R.init(a);
    quiet_lib();
    vh_split = [](size_t n) -> size_t { return g_cur ? g_srng->below(n) : 0; };
    g_root = a.s("root", "/dev/shm");
    uint64_t seed = a.n("seed", 1);
    int cases = (int)a.n("cases", 20), rounds = (int)a.n("rounds", 20), only = (int)a.n("only", -1);
    for (int i = 0; i < cases; i++) {
        if (only >= 0 && i != only) continue;
        R.ctx = "sched seed=" + std::to_string(seed) + " case=" + std::to_string(i);
        Case* c = new Case(seed * 1000003ull + i);
        c->run(a, rounds);
        R.stat("cases");
        if (i < 2) R.sample(R.ctx);
        delete c;
    }
    R.flush();
    return R.viols ? 3 : 0;
}
