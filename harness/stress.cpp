// One writer and many readers running freely, as threads and as processes, over writer restarts, kills of the
// writer, resource collections and RemoveAll. The writer announces each change of a key in shared
// memory before it makes it (started) and after (done), so that every answer of a reader can be judged at once
// against the versions which were current during the call.
#include "common.h"
#include <mutex>
using namespace vh;
static Report R;
static string g_root = "/dev/shm";

static const int MAXK = 256, RING = 1024;
struct Msg { char key[40], text[700]; };
struct Shared {
    std::atomic<int> stop;          // the readers end
    std::atomic<int> gen;           // odd: no writer is open, or it is being opened or recovering
    std::atomic<int> kgen;          // odd: a writer was killed and no other one is open yet
    std::atomic<int> kills;         // number of killed writers
    std::atomic<int> raepoch;       // odd: RemoveAll is running
    std::atomic<int> nviol;
    std::atomic<int> created;       // the first writer has opened the database
    std::atomic<int> ready;         // readers at work
    std::atomic<long> ops;          // writer operations done
    std::atomic<long> st[40];
    Msg msg[4];
    std::atomic<uint32_t> started[MAXK], done[MAXK];
    std::atomic<uint64_t> val[MAXK][RING]; // seed of the value of each version; 0: absent
};
enum { S_FIND, S_OVER, S_HIT, S_PREFIX, S_ITER, S_ITEMS, S_TRYAGAIN, S_RAERR, S_REOPEN, S_WADD, S_WDEL, S_WRA, S_WRC, S_WREOPEN, S_WKILL, S_UNRES, S_STABLE, S_COPY, S_ITERCUT, S_N };
static const char* SNAME[] = { "finds", "finds_overlapping_write", "finds_hit", "prefixes", "iters", "iter_entries", "try_again", "removeall_read_error", "r_reopen", "w_add", "w_remove", "w_removeall",
    "w_rc", "w_reopen", "w_killed", "w_unresolved", "iter_stable", "r_copy", "iter_unjudged" };
static Shared* S;
static std::mutex g_kill; // nothing is done about a kill while the killer is at work

static void viol(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
static void viol(const char* key, const char* fmt, ...)
{
    int i = S->nviol.fetch_add(1);
    if (i < 4) {
        va_list ap;
        va_start(ap, fmt);
        snprintf(S->msg[i].key, sizeof S->msg[i].key, "%s", key);
        vsnprintf(S->msg[i].text, sizeof S->msg[i].text, fmt, ap);
        va_end(ap);
    }
    S->stop = 1;
}
static uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

struct Conf {
    MBConfig cfg {};
    string dir;
    int wo, ro;
    bool jem, memonly, rc, ra, kill, big;
    int restart; // per mille
    vector<string> keys;
    std::map<string, int> idx;
    string value(uint64_t s) const
    {
        uint64_t h = mix(s);
        size_t n = 8 + (h % 8 ? h / 8 % 60 : big ? h / 8 % 12000 : h / 8 % 600);
        string v((const char*)&s, 8);
        v.resize(n);
        for (size_t i = 8; i < n; i += 8) { h = mix(h); memcpy(&v[i], &h, std::min<size_t>(8, n - i)); }
        return v;
    }
    DB* open(int o) const
    {
        MBConfig c = cfg;
        c.mbdir = dir.c_str();
        c.queue_dir = dir.c_str();
        c.options = o;
        return new DB(c);
    }
};
static uint64_t val(int k, uint32_t v) { return S->val[k][v % RING].load(); }

// ------------------------------------------------------------------------------------- reader
struct Reader {
    const Conf& C;
    Rng rng;
    DB* d = nullptr;
    int id;
    Reader(const Conf& c, uint64_t s, int i) : C(c), rng(s), id(i) { }
    bool open()
    {
        for (int t = 0; !S->stop; t += S->created) {
            d = C.open(C.ro);
            if (d->is_open()) return true;
            int st = d->Status();
            delete d;
            d = nullptr;
            if (st != MBError::NO_DB || t > 4000) { viol("r_open", "a reader does not open: %s", es(st)); return false; }
            usleep(500);
        }
        return false;
    }
    // 1 legal, 0 not, -1 too many versions
    int legal(int k, uint32_t s0, uint32_t e1, const string* v) const
    {
        if (e1 - s0 > RING - 64) return -1;
        for (uint32_t i = s0; i <= e1; i++) {
            uint64_t s = val(k, i);
            if (v ? s && C.value(s) == *v : !s) return 1;
        }
        return S->started[k] - s0 > RING - 64 ? -1 : 0;
    }
    string what(int k, const string& v) const
    {
        uint64_t s;
        if (v.size() >= 8) {
            memcpy(&s, v.data(), 8);
            for (size_t j = 0; j < C.keys.size(); j++) for (uint32_t i = 0; i < RING; i++)
                if (S->val[j][i] == s) return (C.value(s) == v ? "an old value of " : "a damaged value of ") + string((int)j == k ? "this key" : "key " + hex(C.keys[j])) + " slot " + std::to_string(i);
        }
        return "never written";
    }
    void find()
    {
        int k = (int)rng.below(C.keys.size());
        const string& key = C.keys[k];
        uint32_t s0 = S->done[k];
        int ra0 = S->raepoch;
        MBData m;
        int err = 0, rv;
        bool ind = rng.chance(10);
        if (ind) rv = d->InDB(key.data(), (int)key.size(), err) ? MBError::SUCCESS : err ? err : MBError::NOT_EXIST;
        else rv = d->Find(key, m);
        uint32_t e1 = S->started[k];
        bool ra = S->raepoch != ra0 || (ra0 & 1);
        S->st[S_FIND]++;
        if (e1 != s0) S->st[S_OVER]++;
        if (rv == MBError::SUCCESS) {
            S->st[S_HIT]++;
            if (ind) {
                bool any = e1 - s0 > RING - 64;
                for (uint32_t i = s0; i <= e1 && !any; i++) any = val(k, i);
                if (!any && S->started[k] - s0 < RING - 64) viol("indb_phantom", "InDB(%s) is true, but the key was absent (versions %u..%u)", hex(key).c_str(), s0, e1);
                return;
            }
            string v = val_of(m);
            if (legal(k, s0, e1, &v) == 0)
                viol("find_stale_or_torn", "Find(%s) of reader %d returned %s (%s), legal are the versions %u..%u, gen %d", hex(key).c_str(), id, hex(v).c_str(), what(k, v).c_str(), s0, e1, S->gen.load());
            else if (m.match_len != (int)key.size()) viol("match_len", "Find(%s): match_len %d", hex(key).c_str(), m.match_len);
        } else if (rv == MBError::NOT_EXIST) {
            if (legal(k, s0, e1, nullptr) == 0)
                viol("find_lost", "%s(%s) of reader %d found nothing, but the key was present (versions %u..%u), gen %d", ind ? "InDB" : "Find", hex(key).c_str(), id, s0, e1, S->gen.load());
        } else if (rv == MBError::TRY_AGAIN) S->st[S_TRYAGAIN]++;
        else if (ra && rv == MBError::READ_ERROR) S->st[S_RAERR]++;
        else viol("find_error", "Find(%s) of reader %d failed: %s, gen %d", hex(key).c_str(), id, es(rv), S->gen.load());
    }
    void prefix()
    {
        string q = C.keys[rng.below(C.keys.size())];
        if (rng.chance(60)) { q += (char)('a' + rng.below(3)); if (q.size() > 256) q.resize(256); }
        vector<std::pair<int, uint32_t>> cand;
        int gen0 = S->gen;
        for (size_t l = 1; l <= q.size(); l++) { auto it = C.idx.find(q.substr(0, l)); if (it != C.idx.end()) cand.push_back({ it->second, S->done[it->second].load() }); }
        int ra0 = S->raepoch;
        MBData m;
        int rv = d->FindLongestPrefix(q, m);
        S->st[S_PREFIX]++;
        vector<uint32_t> e1;
        for (auto& c : cand) e1.push_back(S->started[c.first]);
        bool ra = S->raepoch != ra0 || (ra0 & 1);
        if (rv == MBError::TRY_AGAIN) { S->st[S_TRYAGAIN]++; return; }
        if (rv != MBError::SUCCESS && rv != MBError::NOT_EXIST) {
            if (ra && rv == MBError::READ_ERROR) { S->st[S_RAERR]++; return; }
            viol("prefix_error", "FindLongestPrefix(%s) failed: %s gen %d", hex(q).c_str(), es(rv), gen0);
            return;
        }
        int ml = rv == MBError::SUCCESS ? m.match_len : 0;
        bool found = false;
        for (size_t i = 0; i < cand.size(); i++) {
            int k = cand[i].first;
            if (rv == MBError::SUCCESS && (int)C.keys[k].size() == ml) {
                found = true;
                string v = val_of(m);
                if (legal(k, cand[i].second, e1[i], &v) == 0)
                    viol("prefix_stale_or_torn", "FindLongestPrefix(%s) matched %s with %s (%s), legal are the versions %u..%u gen %d", hex(q).c_str(), hex(C.keys[k]).c_str(), hex(v).c_str(), what(k, v).c_str(), cand[i].second, e1[i], gen0);
            } else if ((int)C.keys[k].size() > ml) {
                if (legal(k, cand[i].second, e1[i], nullptr) == 0)
                    viol("prefix_missed", "FindLongestPrefix(%s) matched %d bytes, but %s was present (versions %u..%u) gen %d", hex(q).c_str(), ml, hex(C.keys[k]).c_str(), cand[i].second, e1[i], gen0);
            }
        }
        if (rv == MBError::SUCCESS && !found) viol("prefix_badlen", "FindLongestPrefix(%s) matched %d bytes, which is not a key", hex(q).c_str(), ml);
    }
    void iter()
    {
        string pf;
        if (rng.chance(40)) { const string& k = C.keys[rng.below(C.keys.size())]; pf = k.substr(0, 1 + rng.below(std::min<size_t>(k.size(), 4))); }
        size_t nk = C.keys.size();
        vector<uint32_t> s0(nk);
        int ra0 = S->raepoch, gen0 = S->kgen;
        for (size_t i = 0; i < nk; i++) s0[i] = S->done[i];
        vector<int> cnt(nk, 0);
        long n = 0;
        for (DB::iterator it = pf.empty() ? d->begin() : d->begin(pf); it != d->end(); ++it) {
            auto f = C.idx.find(it.key);
            string v = val_of(it.value);
            if (f == C.idx.end()) { viol("iter_garbage", "the iterator returned key %s, which was never written (%s)", hex(it.key).c_str(), hex(v).c_str()); return; }
            int k = f->second;
            if (pf.size() && it.key.compare(0, pf.size(), pf) != 0) viol("iter_wrong_prefix", "the iterator over prefix %s returned %s", hex(pf).c_str(), hex(it.key).c_str());
            uint32_t e1 = S->started[k];
            if (legal(k, s0[k], e1, &v) == 0)
                viol("iter_stale_or_torn", "the iterator returned %s = %s (%s), legal are the versions %u..%u", hex(it.key).c_str(), hex(v).c_str(), what(k, v).c_str(), s0[k], e1);
            if (++cnt[k] > 1) viol("iter_twice", "the iterator returned %s twice", hex(it.key).c_str());
            if (++n > 100000) { viol("iter_endless", "the iterator does not end"); return; }
            if (S->nviol) return;
        }
        S->st[S_ITER]++;
        S->st[S_ITEMS] += n;
        vector<uint32_t> e1(nk);
        for (size_t i = 0; i < nk; i++) e1[i] = S->started[i];
        if (S->raepoch != ra0 || (ra0 & 1)) return;
        if ((gen0 & 1) || S->kgen != gen0) { S->st[S_ITERCUT]++; return; }
        for (size_t k = 0; k < nk; k++) {
            if (pf.size() && C.keys[k].compare(0, pf.size(), pf) != 0) continue;
            if (cnt[k]) continue;
            if (legal((int)k, s0[k], e1[k], nullptr) == 0) viol("iter_missed", "the iterator over '%s' missed %s, which was present (versions %u..%u)", hex(pf).c_str(), hex(C.keys[k]).c_str(), s0[k], e1[k]);
            else S->st[S_STABLE]++;
        }
    }
    void run()
    {
        if (!open()) return;
        S->ready++;
        while (!S->stop) {
            int c = (int)rng.below(1000);
            if (c < 20) iter();
            else if (c < 250) prefix();
            else if (c < 252 && !C.memonly) { d->Close(); delete d; if (!open()) return; S->st[S_REOPEN]++; }
            else if (c < 254) { DB* n = new DB(*d); if (!n->is_open()) { viol("r_copy", "a copy of a reader does not open: %s", n->StatusStr()); return; } delete d; d = n; S->st[S_COPY]++; }
            else find();
        }
        delete d;
    }
};

// ------------------------------------------------------------------------------------- writer
struct Writer {
    const Conf& C;
    Rng rng;
    DB* w = nullptr;
    Writer(const Conf& c, uint64_t s) : C(c), rng(s) { }
    static uint64_t cur(int k) { return val(k, S->done[k]); }
    bool open()
    {
        w = C.open(C.wo);
        if (!w->is_open()) { viol("w_open", "the writer does not open: %s", w->StatusStr()); return false; }
        S->created = 1;
        // The update during which the previous writer died was made or not.
        for (size_t k = 0; k < C.keys.size(); k++) {
            if (S->started[k] == S->done[k]) continue;
            MBData m;
            int rv = w->Find(C.keys[k], m);
            string v = val_of(m);
            uint64_t a = val((int)k, S->done[k]), b = val((int)k, S->started[k]);
            auto is = [&](uint64_t s) { return s ? rv == MBError::SUCCESS && C.value(s) == v : rv == MBError::NOT_EXIST; };
            if (!is(a) && !is(b)) viol("recover", "after the writer was killed during the update of %s, Find returns %s %s", hex(C.keys[k]).c_str(), es(rv), hex(v).c_str());
            if (!is(b)) S->val[k][(S->started[k] + 1) % RING] = a, S->started[k]++; // undone: the old state is current again
            S->done[k] = S->started[k].load();
            S->st[S_UNRES]++;
        }
        std::lock_guard<std::mutex> l(g_kill);
        if (S->gen & 1) S->gen++;
        if (S->kgen & 1) S->kgen++;
        return true;
    }
    void close() { S->gen++; delete w; w = nullptr; }
    void start(int k, uint64_t s) { S->val[k][(S->started[k] + 1) % RING] = s; S->started[k]++; }
    void step()
    {
        int k = (int)rng.below(rng.chance(60) ? std::min<size_t>(4, C.keys.size()) : C.keys.size());
        const string& key = C.keys[k];
        int c = (int)rng.below(1000);
        if (c < C.restart) {
            close();
            if (rng.chance(30)) usleep((int)rng.below(300));
            if (!open()) return;
            S->st[S_WREOPEN]++;
        } else if (C.rc && c >= 980 && c < 990) {
            w->CollectResource(1, 1, 0xFFFFFFFFFFFFLL, 0xFFFFFFFFFFFFLL);
            S->st[S_WRC]++;
        } else if (C.ra && c >= 998) {
            S->raepoch++;
            for (size_t j = 0; j < C.keys.size(); j++) if (cur((int)j)) start((int)j, 0);
            int rv = w->RemoveAll();
            if (rv != MBError::SUCCESS) viol("w_removeall", "RemoveAll: %s", es(rv));
            for (size_t j = 0; j < C.keys.size(); j++) S->done[j] = S->started[j].load();
            S->raepoch++;
            S->st[S_WRA]++;
        } else if (c < 600) {
            uint64_t s = rng.next() | 1;
            bool ow = rng.chance(85), had = cur(k);
            bool ch = ow || !had;
            string v = C.value(s);
            if (ch) start(k, s);
            int rv = w->Add(key, v, ow), want = ch ? MBError::SUCCESS : MBError::IN_DICT;
            if (rv != want) viol("w_add", "Add(%s) returned %s, expected %s", hex(key).c_str(), es(rv), es(want));
            if (ch) S->done[k] = S->started[k].load();
            S->st[S_WADD]++;
        } else {
            bool had = cur(k);
            if (had) start(k, 0);
            int rv = w->Remove(key), want = had ? MBError::SUCCESS : MBError::NOT_EXIST;
            if (rv != want) viol("w_remove", "Remove(%s) returned %s, expected %s", hex(key).c_str(), es(rv), es(want));
            if (had) S->done[k] = S->started[k].load();
            S->st[S_WDEL]++;
        }
        S->ops++;
    }
    // every entry is what the writer wrote
    void verify()
    {
        long n = 0;
        for (size_t k = 0; k < C.keys.size() && !S->nviol; k++) {
            MBData m;
            int rv = w->Find(C.keys[k], m);
            uint64_t s = cur((int)k);
            if (s) n++;
            if (s ? rv != MBError::SUCCESS || val_of(m) != C.value(s) : rv != MBError::NOT_EXIST)
                viol("final", "at the end Find(%s) by the writer returns %s %s, expected %s", hex(C.keys[k]).c_str(), es(rv), hex(val_of(m)).c_str(), s ? hex(C.value(s)).c_str() : "nothing");
        }
        if (!S->kills && !S->nviol && w->Count() != n) viol("count", "Count is %lld, expected %ld", (long long)w->Count(), n);
    }
};

static int run_case(const Args& a, uint64_t cs)
{
    Rng rng(cs);
    memset((void*)S, 0, sizeof *S);
    Conf C;
    vector<int> ms;
    for (int m : { 1, 2, 4, 8 }) if (a.n("modes", 15) & m) ms.push_back(m);
    int mode = rng.pick(ms);
    C.memonly = mode == 2 || mode == 8;
    C.jem = mode >= 4;
    bool pfx = rng.chance((int)a.n("pfx", 20));
    C.rc = !C.jem && mode == 1 && rng.chance((int)a.n("rc", 50));
    C.ra = rng.chance((int)a.n("removeall", 25));
    C.kill = mode == 1 && !C.ra && rng.chance((int)a.n("kill", 40));
    C.restart = C.memonly ? 0 : rng.chance((int)a.n("restart", 60)) ? rng.pick(vector<int>{ 1, 5, 30, 150 }) : 0;
    C.big = rng.chance(20);
    MBConfig& f = C.cfg;
    bool fileio = mode == 1 && rng.chance(20);
    f.block_size_index = f.block_size_data = 4u << 20;
    if (pfx) f.block_size_data = 16u << 20;
    f.max_num_index_block = f.max_num_data_block = C.jem ? 6 : 64;
    f.memcap_index = C.jem ? (size_t)f.block_size_index * 6 : fileio && rng.chance(50) ? 0 : 16u << 20;
    f.memcap_data = C.jem ? (size_t)f.block_size_data * 6 : fileio ? 0 : 16u << 20;
    f.num_entry_per_bucket = 500;
    f.jemalloc_keep_db = C.jem;
    C.wo = CONSTS::ACCESS_MODE_WRITER | (C.memonly ? CONSTS::MEMORY_ONLY_MODE : 0) | (C.jem ? CONSTS::OPTION_JEMALLOC : 0) | (pfx ? CONSTS::OPTION_PREFIX_CACHE : 0);
    C.ro = C.wo & ~CONSTS::ACCESS_MODE_WRITER;
    C.dir = mk_scratch(g_root, "stress");
    KeyGen kg(rng.chance(60) ? (rng.chance(50) ? 0 : 2) : (int)rng.below(KeyGen::NFAM), &rng);
    int nk = rng.chance(30) ? rng.range(2, 6) : rng.range(3, MAXK - 1);
    for (int i = 0; i < nk; i++) { string k = kg.next(); if (k.empty() || C.idx.count(k)) continue; C.idx[k] = (int)C.keys.size(); C.keys.push_back(k); }
    int nthr = C.memonly ? rng.range(1, 4) : rng.range(0, 2), nproc = C.memonly ? 0 : rng.range(nthr ? 0 : 1, 3);
    long nops = (long)(a.n("ops", 4000) * (C.restart >= 30 ? 0.3 : 1) * (C.jem && C.restart ? 0.5 : 1));
    char b[300];
    snprintf(b, sizeof b, "mode=%d pfx=%d fam=%d keys=%zu rc=%d removeall=%d kill=%d restart=%d big=%d fileio=%d threads=%d processes=%d", mode, pfx, kg.family, C.keys.size(), C.rc, C.ra, C.kill, C.restart, C.big, fileio, nthr, nproc);
    R.ctx += string(" ") + b;
    R.trace.clear();
    R.op("case %s", R.ctx.c_str());
    S->gen = 1;
    fflush(NULL);
    vector<pid_t> kids;
    for (int i = 0; i < nproc; i++) {
        uint64_t s = rng.next();
        int nt = rng.range(1, 2);
        pid_t p = fork();
        if (p == 0) {
            vector<std::thread> ts;
            for (int t = 0; t < nt; t++) ts.emplace_back([&C, s, t, i] { Reader r(C, s + t, 10 * (i + 1) + t); r.run(); });
            for (auto& t : ts) t.join();
            _exit(0);
        }
        kids.push_back(p);
    }
    // the writer process, again and again if it is killed
    bool died = false;
    for (int round = 0; round < 50 && !S->stop; round++) {
        uint64_t s = rng.next();
        bool last = !C.kill || round >= 4 || S->ops >= nops;
        int us = C.kill && !last ? rng.range(100, 60000) : 0;
        pid_t p = fork();
        if (p == 0) {
            Writer w(C, s);
            if (!w.open()) _exit(0);
            vector<std::thread> ts;
            for (int t = 0; t < nthr; t++) ts.emplace_back([&C, s, t] { Reader r(C, s + 77 + t, 1 + t); r.run(); });
            int want = nthr + (round == 0 ? (int)nproc : 0);
            for (int t = 0; t < 2000 && S->ready < want && !S->stop; t++) usleep(500);
            std::thread killer;
            if (us) killer = std::thread([us] { usleep(us); g_kill.lock(); S->kills++; S->gen++; if (!(S->kgen & 1)) S->kgen++; kill(getpid(), SIGKILL); pause(); });
            while (S->ops < nops && !S->stop) w.step();
            if (us) pause();
            if (w.w && !S->nviol) w.verify();
            S->stop = 1;
            for (auto& t : ts) t.join();
            if (w.w) delete w.w;
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (us && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { if (!(S->gen & 1)) S->gen++; S->st[S_WKILL]++; if (S->kgen & 1) R.stat("kgen_ok"); continue; }
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { viol("died", "the writer process died: status 0x%x", st); died = true; }
        break;
    }
    S->stop = 1;
    for (auto p : kids) {
        int st = 0;
        waitpid(p, &st, 0);
        if ((!WIFEXITED(st) || WEXITSTATUS(st)) && !died) viol("r_died", "a reader process died: status 0x%x", st);
    }
    for (int i = 0; i < S_N; i++) R.stat(SNAME[i], S->st[i]);
    uint64_t h = cs;
    for (size_t k = 0; k < C.keys.size(); k++) h = mix(h ^ S->started[k]);
    R.sig(h);
    for (int i = 0; i < std::min(4, S->nviol.load()); i++) R.viol(!strncmp(S->msg[i].key, "prefix", 6) || !strncmp(S->msg[i].key, "iter", 4) ? "splin" : "slin", S->msg[i].key, "%s", S->msg[i].text);
    rm_tree(C.dir);
    return 0;
}

int main(int argc, char** argv)
{
    Args a(argc, argv);
    R.init(a);
    quiet_lib();
    if (a.has("keepgoing")) R.stop_on_viol = false;
    g_root = a.s("root", "/dev/shm");
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    uint64_t seed = a.n("seed", 1);
    int cases = (int)a.n("cases", 20), only = (int)a.n("only", -1);
    for (int i = 0; i < cases; i++) {
        if (only >= 0 && i != only) continue;
        R.ctx = "stress seed=" + std::to_string(seed) + " case=" + std::to_string(i);
        run_case(a, seed * 1000003ull + i);
        R.stat("cases");
        if (i < 2) R.sample(R.ctx);
    }
    R.flush();
    return R.viols ? 3 : 0;
}
