// Sequential model-based monitor: random op histories over random DB configurations, every result
// compared with a std::map model; structural fsck of the on-disk tree at quiescent points.
#include "common.h"
#include <sstream>
#include <sys/wait.h>
#include "fsck.h"
#include "dict.h"
#include "dict_mem.h"

using namespace vh;

struct Profile {
    int w_add = 22, w_addow = 14, w_remove = 16, w_find = 14, w_prefix = 6, w_lower = 6, w_indb = 5, w_iter = 1, w_iterp = 2,
        w_count = 3, w_rc = 1, w_backup = 0, w_removeall = 0, w_reopen = 1, w_rreopen = 1, w_fsck = 1, w_offset = 2, w_flush = 1;
    int modes = 0xff; // bit0 disk, bit1 memonly, bit2 jemalloc, bit3 jemalloc+memonly
    int pfx_pct = 15;
    bool async = false;
    int valprof = -1;
    int evict = 0;
    int mass = 0; // chance of a burst of many updates, in percent
    bool full = false; // small capacity: updates may fail for lack of space
    bool keep = false; // restarts of a jemalloc database which is kept
};

static Report R;
static string g_root;

struct Case {
    Rng rng;
    Profile P;
    string dir;
    MBConfig cfg {};
    int mode = 0;
    bool memonly = false, jem = false, pfx = false, async = false;
    bool wskip = false, rskip = false; // open the cache-carrying DB without the prefix cache option
    DB* w = nullptr; // writer
    DB* r = nullptr; // reader (or null)
    DB* u = nullptr; // async client handle
    std::map<string, string> model;
    KeyGen kg;
    uint64_t vid = 1;
    int valprof;
    uint64_t nops = 0, hist = 1469598103934665603ull;
    Case(uint64_t seed, const Profile& p) : rng(seed), P(p), kg((int)rng.below(KeyGen::NFAM), &rng) { }

    void build_cfg()
    {
        vector<int> ms;
        for (int i = 0; i < 4; i++) if (P.modes & (1 << i)) { ms.push_back(i); if (i == 0) { ms.push_back(0); ms.push_back(0); } }
        mode = rng.pick(ms);
        memonly = mode & 1;
        jem = mode & 2;
        async = P.async;
        pfx = rng.chance(P.pfx_pct);
        valprof = P.valprof >= 0 ? P.valprof : (rng.chance(60) ? 0 : rng.chance(60) ? 1 : 2);
        memset(&cfg, 0, sizeof cfg);
        int bi = rng.chance(70) ? 1 : 2, bd = rng.chance(70) ? 1 : 2;
        if (pfx) bd = rng.pick(vector<int>{1, 2, 4});
        cfg.block_size_index = bi * 4u * 1024 * 1024;
        cfg.block_size_data = bd * 4u * 1024 * 1024;
        cfg.max_num_index_block = jem ? 12 : 64;
        cfg.max_num_data_block = jem ? 12 : 64;
        cfg.memcap_index = jem ? (size_t)cfg.block_size_index * cfg.max_num_index_block : (rng.chance(50) ? 64u << 20 : cfg.block_size_index);
        cfg.memcap_data = jem ? (size_t)cfg.block_size_data * cfg.max_num_data_block : (rng.chance(50) ? 64u << 20 : cfg.block_size_data);
        if (pfx && memonly && !jem) cfg.memcap_data = 64u << 20; // the cache takes most of a small block
        if (mode == 0 && rng.chance(20)) { // blocks beyond the limit are read and written through system calls
            if (rng.chance(50)) cfg.memcap_index = 0;
            cfg.memcap_data = 0;
        }
        cfg.num_entry_per_bucket = rng.chance(50) ? 500 : rng.range(8, 64);
        cfg.queue_size = rng.chance(70) ? 8 : rng.range(2, 7);
        cfg.connect_id = 0;
    }
    int wopt() const
    {
        int o = CONSTS::ACCESS_MODE_WRITER;
        if (async) o |= CONSTS::ASYNC_WRITER_MODE;
        if (memonly) o |= CONSTS::MEMORY_ONLY_MODE;
        if (jem) o |= CONSTS::OPTION_JEMALLOC;
        if (pfx && !wskip) o |= CONSTS::OPTION_PREFIX_CACHE;
        return o;
    }
    int ropt() const
    {
        int o = CONSTS::ACCESS_MODE_READER;
        if (memonly) o |= CONSTS::MEMORY_ONLY_MODE;
        if (jem) o |= CONSTS::OPTION_JEMALLOC;
        if (pfx && !rskip) o |= CONSTS::OPTION_PREFIX_CACHE;
        return o;
    }
    DB* open(int opt)
    {
        MBConfig c = cfg;
        c.mbdir = dir.c_str();
        c.queue_dir = dir.c_str();
        c.options = opt;
        if (jem && !(opt & CONSTS::ACCESS_MODE_WRITER)) { }
        DB* d = new DB(c);
        if (!d->is_open()) {
            R.viol("open", "open_failed", "open with options 0x%x failed: %s", opt, d->StatusStr());
            delete d;
            return nullptr;
        }
        return d;
    }
    DB* rd() { return (r && (async || rng.chance(50))) ? r : w; }

    // -- queries -------------------------------------------------------------------------------
    static void fill_data(MBData& d) { (void)d; }
    void q_find(const string& k, DB* h, const char* who)
    {
        auto it = model.find(k);
        MBData fresh, sized(rng.range(1, 64), 0);
        MBData& d = rng.chance(50) ? fresh : sized;
        int rc;
        string longer;
        auto ub = model.upper_bound(k);
        if (ub != model.end() && ub->first.size() > k.size() && ub->first.compare(0, k.size(), k) == 0) longer = ub->first;
        if (rng.chance(70)) { KeyBuf b(k); rc = h->Find(b.p, (int)k.size(), d); }
        else if (!longer.empty() || rng.chance(50)) { KeyBuf b(k, longer); rc = h->Find(b.p, (int)k.size(), d); }
        else rc = h->Find(k, d);
        R.stat("find");
        if (it == model.end()) {
            if (rc == MBError::SUCCESS) R.viol("map", "find_phantom", "Find(%s) via %s returned a value for an absent key: %s", hex(k).c_str(), who, hex(val_of(d)).c_str());
            else if (rc != MBError::NOT_EXIST) R.viol("map", "find_err", "Find(%s) absent via %s returned %s", hex(k).c_str(), who, es(rc));
            R.stat("find_neg");
        } else {
            if (rc != MBError::SUCCESS) R.viol("map", "find_lost", "Find(%s) len %zu via %s returned %s, expected value %s", hex(k).c_str(), k.size(), who, es(rc), hex(it->second).c_str());
            else if (val_of(d) != it->second) R.viol("map", "find_value", "Find(%s) via %s returned %s expected %s", hex(k).c_str(), who, hex(val_of(d)).c_str(), hex(it->second).c_str());
            else if (d.match_len != (int)k.size()) R.viol("map", "find_match_len", "Find(%s) match_len %d", hex(k).c_str(), d.match_len);
            if (rc == MBError::SUCCESS && rng.chance(10)) {
                // copies of a value have a life of their own
                MBData* c = new MBData(d);
                MBData other;
                other = *c;
                if (rng.chance(50)) reuse = d;
                uint8_t* other_buf = (uint8_t*)calloc(1, 9);
                c->TransferValueFrom(other_buf, 8);
                delete c;
                if (val_of(d) != it->second || val_of(other) != it->second) R.viol("map", "find_copy", "a copy of the value of %s is %s expected %s", hex(k).c_str(), hex(val_of(other)).c_str(), hex(it->second).c_str());
                R.stat("value_copies");
            }
        }
    }
    int ncount = 0;
    MBData reuse;
    string bound;
    void q_prefix(const string& k, DB* h, const char* who)
    {
        const string* best = nullptr;
        const string* bestk = nullptr;
        // candidates: all prefixes of k
        for (size_t n = k.size(); n >= 1; n--) {
            auto it = model.find(k.substr(0, n));
            if (it != model.end()) { best = &it->second; bestk = &it->first; break; }
        }
        MBData fresh;
        MBData& d = rng.chance(50) ? fresh : reuse;
        int rc;
        string longer;
        auto ub = model.upper_bound(k);
        if (ub != model.end() && ub->first.size() > k.size() && ub->first.compare(0, k.size(), k) == 0) longer = ub->first;
        if (rng.chance(60)) { KeyBuf b(k); rc = h->FindLongestPrefix(b.p, (int)k.size(), d); }
        else { KeyBuf b(k, longer); rc = h->FindLongestPrefix(b.p, (int)k.size(), d); }
        R.stat("prefix");
        if (!best) {
            R.stat("prefix_none");
            if (rc == MBError::SUCCESS) R.viol("prefix", "prefix_phantom", "FindLongestPrefix(%s) via %s matched len %d value %s, expected none", hex(k).c_str(), who, d.match_len, hex(val_of(d)).c_str());
            else if (rc != MBError::NOT_EXIST) R.viol("prefix", "prefix_err", "FindLongestPrefix(%s) via %s: %s", hex(k).c_str(), who, es(rc));
        } else {
            R.stat(bestk->size() == k.size() ? "prefix_exact" : "prefix_inner");
            if (rc != MBError::SUCCESS) R.viol("prefix", "prefix_lost", "FindLongestPrefix(%s) via %s: %s, expected match %s", hex(k).c_str(), who, es(rc), hex(*bestk).c_str());
            else if (val_of(d) != *best) R.viol("prefix", "prefix_value", "FindLongestPrefix(%s) via %s: value %s len %d expected %s (match %s)", hex(k).c_str(), who, hex(val_of(d)).c_str(), d.match_len, hex(*best).c_str(), hex(*bestk).c_str());
            else if (d.match_len != (int)bestk->size()) R.viol("prefix", "prefix_len", "FindLongestPrefix(%s) via %s: match_len %d expected %zu", hex(k).c_str(), who, d.match_len, bestk->size());
        }
    }
    void q_lower(const string& k, DB* h, const char* who)
    {
        auto ub = model.upper_bound(k);
        MBData fresh;
        MBData& d = rng.chance(50) ? fresh : reuse;
        string& bk = bound; // the caller's string may hold an earlier result
        bool want_key = rng.chance(80);
        int rc;
        string longer;
        if (ub != model.end() && ub->first.size() > k.size() && ub->first.compare(0, k.size(), k) == 0) longer = ub->first;
        if (rng.chance(60)) { KeyBuf b(k); rc = h->FindLowerBound(b.p, (int)k.size(), d, want_key ? &bk : nullptr); }
        else { KeyBuf b(k, longer); rc = h->FindLowerBound(b.p, (int)k.size(), d, want_key ? &bk : nullptr); }
        R.stat("lower");
        if (ub == model.begin()) {
            R.stat("lower_none");
            if (rc == MBError::SUCCESS) R.viol("lower", "lower_phantom", "FindLowerBound(%s) via %s returned key %s, expected none", hex(k).c_str(), who, hex(bk).c_str());
            else if (rc != MBError::NOT_EXIST) R.viol("lower", "lower_err", "FindLowerBound(%s) via %s: %s", hex(k).c_str(), who, es(rc));
            return;
        }
        --ub;
        R.stat(ub->first == k ? "lower_exact" : "lower_less");
        if (rc != MBError::SUCCESS) R.viol("lower", "lower_lost", "FindLowerBound(%s) via %s: %s expected %s", hex(k).c_str(), who, es(rc), hex(ub->first).c_str());
        else if (val_of(d) != ub->second) R.viol("lower", "lower_value", "FindLowerBound(%s) via %s: value %s key %s expected key %s value %s", hex(k).c_str(), who, hex(val_of(d)).c_str(), hex(bk).c_str(), hex(ub->first).c_str(), hex(ub->second).c_str());
        else if (want_key && bk != ub->first) R.viol("lower", "lower_key", "FindLowerBound(%s) via %s: bound_key %s expected %s", hex(k).c_str(), who, hex(bk).c_str(), hex(ub->first).c_str());
    }
    void q_indb(const string& k, DB* h, const char* who)
    {
        int err = 0;
        KeyBuf b(k);
        bool got = h->InDB(b.p, (int)k.size(), err);
        R.stat("indb");
        bool want = model.count(k) != 0;
        if (got != want || err != MBError::SUCCESS) R.viol("map", got ? "indb_phantom" : "indb_lost", "InDB(%s) via %s = %d err %s, expected %d", hex(k).c_str(), who, got, es(err), want);
    }
    void q_iter(const string& prefix, DB* h, const char* who)
    {
        std::map<string, string> got;
        size_t n = 0, dup = 0;
        auto iter = prefix.empty() ? h->begin() : h->begin(prefix);
        // a copy which is made on the way goes on from there, whatever becomes of the original
        std::unique_ptr<DB::iterator> copy;
        vector<string> rest, crest;
        size_t copy_at = rng.chance(20) ? rng.below(model.size() + 2) : (size_t)-1;
        auto step_copy = [&] { if (*copy != h->end()) { crest.push_back(copy->key + "=" + val_of(copy->value)); ++*copy; return true; } return false; };
        for (; iter != h->end(); ++iter) {
            if (n == copy_at) { copy.reset(new DB::iterator(iter)); R.stat("iter_copies"); }
            if (copy) { rest.push_back(iter.key + "=" + val_of(iter.value)); if (rng.chance(30)) step_copy(); }
            n++;
            if (!got.emplace(iter.key, val_of(iter.value)).second) { dup++; }
            if (n > model.size() * 2 + 100) break;
        }
        if (copy) {
            while (crest.size() <= rest.size() && step_copy()) { }
            if (crest != rest) R.viol("iter", "iter_copy", "iteration(prefix %s) via %s: a copy made after %zu entries returned %zu entries, the original %zu", hex(prefix).c_str(), who, copy_at, crest.size(), rest.size());
        }
        R.stat(prefix.empty() ? "iter_full" : "iter_prefix");
        R.stat("iter_entries", (long long)n);
        if (dup) { R.viol("iter", "iter_dup", "iteration(prefix %s) via %s returned %zu duplicate keys", hex(prefix).c_str(), who, dup); return; }
        auto lo = model.lower_bound(prefix);
        size_t want = 0;
        for (auto it = lo; it != model.end() && it->first.compare(0, prefix.size(), prefix) == 0; ++it) {
            want++;
            auto g = got.find(it->first);
            if (g == got.end()) { R.viol("iter", "iter_missing", "iteration(prefix %s) via %s misses key %s", hex(prefix).c_str(), who, hex(it->first).c_str()); return; }
            if (g->second != it->second) { R.viol("iter", "iter_value", "iteration via %s key %s value %s expected %s", who, hex(it->first).c_str(), hex(g->second).c_str(), hex(it->second).c_str()); return; }
        }
        if (got.size() != want)
            for (auto& g : got)
                if (!model.count(g.first) || g.first.compare(0, prefix.size(), prefix) != 0) { R.viol("iter", prefix.empty() ? "iter_extra" : "iter_extra_prefix", "iteration(prefix %s) via %s returned extra key %s", hex(prefix).c_str(), who, hex(g.first).c_str()); return; }
    }
    void q_count(DB* h, const char* who)
    {
        if (pfx && (++ncount % 8) == 0) {
            std::ostringstream os;
            h->DumpPrefixCacheStats(os);
            size_t at = os.str().find("entries_total=");
            long long n = at == string::npos ? 0 : atoll(os.str().c_str() + at + 14);
            R.stat("cache_entries", n);
            R.stat(n ? "cache_filled" : "cache_empty");
        }
        R.stat("count");
        int64_t c = h->Count();
        if (c != (int64_t)model.size()) R.viol("count", "count", "Count() via %s = %lld expected %zu", who, (long long)c, model.size());
    }
    void fsck(const char* when, bool closed)
    {
        if (memonly) return;
        Fsck f;
        if (!f.load(dir)) { R.viol("fsck", "hdr", "header unreadable %s", when); return; }
        f.walk();
        R.stat("fsck");
        R.stat("fsck_nodes", f.nodes);
        if (f.errs.empty()) f.check_overlap();
        if (f.errs.empty() && f.kv != model) {
            string why = "?";
            for (auto& e : model) { auto g = f.kv.find(e.first); if (g == f.kv.end()) { why = "missing " + hex(e.first); break; } if (g->second != e.second) { why = "value of " + hex(e.first); break; } }
            for (auto& e : f.kv) if (!model.count(e.first)) { why = "extra " + hex(e.first); break; }
            R.viol("fsck", "content", "%s: on-disk tree differs from model: %s", when, why.c_str());
        }
        if (f.errs.empty() && f.h->count != (int64_t)model.size()) R.viol("count", "hdr_count", "%s: header count %lld, entries %zu", when, (long long)f.h->count, model.size());
        // free lists must not overlap live data
        if (f.errs.empty() && w && !jem && !closed) {
            auto* dict = w->GetDictPtr();
            size_t fi = freelist(dict->GetMM()->GetFreeList(), f.iext, NUM_BUFFER_RESERVE);
            size_t fd = freelist(dict->GetFreeList(), f.dext, NUM_DATA_BUFFER_RESERVE);
            R.stat("free_extents", fi + fd);
            string m;
            if (Fsck::overlap(f.iext, m)) R.viol("fsck", "free_overlap_index", "%s: index %s", when, m.c_str());
            if (Fsck::overlap(f.dext, m)) R.viol("fsck", "free_overlap_data", "%s: data %s", when, m.c_str());
        }
        for (auto& e : f.errs) R.viol("fsck", "fsck_" + e.first, "%s: %s", when, e.second.c_str());
        R.sig(fnv(&f.nodes, 8, fnv(&f.edges, 8, fnv(&f.matches, 8))));
    }
    static size_t freelist(mabain::FreeList* fl, vector<Extent>& out, size_t lists)
    {
        if (!fl) return 0;
        size_t n = 0;
        for (size_t i = 0; i < lists; i++) {
            uint64_t c = fl->GetBufferCountByIndex(i);
            for (uint64_t j = 0; j < c; j++) {
                size_t o = fl->RemoveBufferByIndex(i);
                fl->AddBufferByIndex(i, o);
                out.push_back({ o, i + 1, 'F' });
                n++;
            }
        }
        return n;
    }
    void full_check(const char* when)
    {
        R.op("full_check %s (%zu entries)", when, model.size());
        for (DB* h : { w, r }) {
            if (!h || (async && h == w)) continue;
            const char* who = h == w ? "writer" : "reader";
            for (auto& e : model) q_find(e.first, h, who);
            q_count(h, who);
            if (rng.chance(50)) q_iter("", h, who);
        }
        fsck(when, false);
    }
    void wait_idle()
    {
        if (!async) return;
        for (int i = 0; i < 200000 && u->AsyncWriterBusy(); i++) usleep(50);
    }
    // -- updates -------------------------------------------------------------------------------
    void do_add(bool ow)
    {
        string k = rng.chance(40) && !model.empty() ? kg.pick(model) : kg.next();
        string v = make_value(rng, vid++, valprof);
        bool had = model.count(k) != 0;
        R.op("add%s %s vlen %zu", ow ? "_ow" : "", hex(k, 300).c_str(), v.size());
        int rc;
        KeyBuf kb(k), vb(v);
        DB* h = async ? u : w;
        try {
            int form = (int)rng.below(3);
            if (async) rc = h->AddAsync(kb.p, (int)k.size(), vb.p, (int)v.size(), ow);
            else if (form == 0) rc = h->Add(k, v, ow);
            else if (form == 1) rc = h->Add(kb.p, (int)k.size(), vb.p, (int)v.size(), ow);
            else {
                MBData d;
                d.buff = (uint8_t*)vb.p;
                d.data_len = (int)v.size();
                rc = h->Add(kb.p, (int)k.size(), d, ow);
            }
        } catch (int e) {
            R.viol("map", "add_throw", "Add(%s len %zu, value %zu) threw %s", hex(k).c_str(), k.size(), v.size(), es(e));
            return;
        }
        R.stat("add");
        if (async) {
            if (rc != MBError::SUCCESS) R.viol("map", "add_async_rc", "AddAsync(%s) = %s", hex(k).c_str(), es(rc));
            if (!had || ow) model[k] = v;
            return;
        }
        int want = had && !ow ? MBError::IN_DICT : MBError::SUCCESS;
        last_rc = rc;
        if (P.full && no_space(rc)) {
            // nothing may have changed
            R.stat("add_full");
            q_find(k, rd(), "handle after a failed Add");
            return;
        }
        if (rc != want) R.viol("map", "add_rc", "Add(%s len %zu, vlen %zu, overwrite %d) = %s expected %s", hex(k).c_str(), k.size(), v.size(), ow, es(rc), es(want));
        if (rc == MBError::SUCCESS) model[k] = v;
        hist = fnvs(k, hist);
    }
    void do_remove()
    {
        string k = rng.chance(75) && !model.empty() ? kg.pick(model) : kg.probe(model);
        bool had = model.count(k) != 0;
        R.op("remove %s", hex(k, 300).c_str());
        KeyBuf kb(k);
        int rc;
        try {
            rc = async ? u->RemoveAsync(kb.p, (int)k.size()) : w->Remove(kb.p, (int)k.size());
        } catch (int e) {
            R.viol("map", "remove_throw", "Remove(%s) threw %s", hex(k).c_str(), es(e));
            return;
        }
        R.stat("remove");
        if (!async) {
            int want = had ? MBError::SUCCESS : MBError::NOT_EXIST;
            if (P.full && no_space(rc)) {
                R.stat("remove_full");
                q_find(k, rd(), "handle after a failed Remove");
                return;
            }
            if (rc != want) R.viol("map", "remove_rc", "Remove(%s) = %s expected %s", hex(k).c_str(), es(rc), es(want));
        }
        model.erase(k);
        hist = fnvs(k, hist ^ 7);
    }
    int last_rc = 0;
    static bool no_space(int rc) { return rc == MBError::NO_RESOURCE || rc == MBError::NO_MEMORY || rc == MBError::MMAP_FAILED || rc == MBError::OUT_OF_BOUND; }
    string lastk, lastv;
    int fill(int limit, int stop_after)
    {
        int ok = 0, bad = 0;
        for (int i = 0; i < limit && bad < stop_after; i++) {
            size_t n = model.size();
            do_add(rng.chance(20));
            if (no_space(last_rc)) bad++;
            else if (model.size() > n) ok++;
        }
        if (bad) R.stat("filled");
        return ok;
    }
    void check_files()
    {
        if (memonly) return;
        for (const char* n : { "_mabain_i", "_mabain_d" })
            for (int i = 0; i < 80; i++) {
                uint32_t max = n[8] == 'i' ? cfg.max_num_index_block : cfg.max_num_data_block;
                if (access((dir + "/" + n + std::to_string(i)).c_str(), F_OK) == 0 && i >= (int)max) R.viol("capacity", "too_many_blocks", "block file %s%d exists, the limit is %u", n, i, max);
            }
    }
    void run_full(int rounds)
    {
        build_cfg();
        pfx = false;
        valprof = rng.chance(60) ? 3 : rng.chance(50) ? 0 : 2;
        if (valprof == 0) kg.family = 10; // long random keys fill the index
        cfg.block_size_index = cfg.block_size_data = 4u << 20;
        cfg.max_num_index_block = rng.range(1, 3);
        cfg.max_num_data_block = rng.range(1, 3);
        cfg.memcap_index = (jem || rng.chance(60)) ? (size_t)cfg.block_size_index * cfg.max_num_index_block : 4u << 20;
        cfg.memcap_data = (jem || rng.chance(60)) ? (size_t)cfg.block_size_data * cfg.max_num_data_block : mode == 0 && rng.chance(50) ? 0 : 4u << 20;
        dir = mk_scratch(g_root, "full");
        char c[200];
        snprintf(c, sizeof c, "full mode=%d fam=%d valprof=%d index blocks %u data blocks %u memcap %zu %zu", mode, kg.family, valprof, cfg.max_num_index_block, cfg.max_num_data_block, cfg.memcap_index >> 20, cfg.memcap_data >> 20);
        R.ctx = R.ctx + " " + c;
        R.trace.clear();
        R.op("open %s", c);
        w = open(wopt());
        if (!w) return;
        r = open(ropt());
        int first = 0;
        for (int i = 0; i < rounds; i++) {
            nops++;
            R.op("fill");
            int n = fill(30000, 30);
            R.stat("full_adds", n);
            if (i == 0) first = n;
            check_files();
            full_check("full");
            // what is removed makes room for the same again
            if (!jem && valprof && !model.empty()) {
                int tries = 0;
                for (int j = 0; j < 20 && !model.empty(); j++) {
                    string k = kg.pick(model), v = model[k];
                    R.op("remove and add again %s vlen %zu", hex(k).c_str(), v.size());
                    int rc = remove_rc(k);
                    if (rc != MBError::SUCCESS) { if (!no_space(rc)) R.viol("capacity", "full_remove", "Remove from a full database: %s", es(rc)); continue; }
                    model.erase(k);
                    rc = add_rc(k, v);
                    if (rc == MBError::SUCCESS) model[k] = v;
                    else R.viol("capacity", "no_reuse", "the entry %s (value %zu bytes) which was just removed from the full database cannot be added again: %s", hex(k).c_str(), v.size(), es(rc));
                    tries++;
                }
                R.stat("readd", tries);
            }
            int what = (int)rng.below(5);
            if (what <= 2) {
                R.op("drain");
                int pct = rng.pick(vector<int>{ 10, 50, 90, 100 });
                vector<string> ks;
                for (auto& e : model) if (rng.chance(pct)) ks.push_back(e.first);
                for (size_t j = ks.size(); j > 1; j--) std::swap(ks[j - 1], ks[rng.below(j)]);
                size_t gone = 0, had = model.size();
                for (auto& k : ks) {
                    int rc = remove_rc(k);
                    if (rc == MBError::SUCCESS) { model.erase(k); gone++; }
                    else if (!no_space(rc)) R.viol("capacity", "full_remove", "Remove from a full database: %s", es(rc));
                    else { R.stat("remove_full"); q_find(k, rd(), "handle after a failed Remove"); }
                }
                full_check("drained");
                R.stat("drained", (long long)gone);
                (void)had;
                if (rng.chance(40)) {
                    R.op("rc");
                    int rc = w->CollectResource(1, 1);
                    R.stat(rc == MBError::SUCCESS ? "rc_ok" : "rc_full");
                    if (rc != MBError::SUCCESS && !no_space(rc)) R.viol("capacity", "rc_err", "CollectResource of a full database: %s", es(rc));
                    full_check("rc");
                    check_files();
                }
            } else if (what == 3) {
                R.op("removeall");
                int rc = w->RemoveAll();
                if (rc != MBError::SUCCESS) R.viol("capacity", "removeall", "RemoveAll of a full database: %s", es(rc));
                model.clear();
                full_check("removeall");
                int m = fill(first / 2, 1);
                R.op("filled %d of %d again", m, first);
                if (m + (int)model.size() < first / 8) R.viol("capacity", "removeall_space", "the database took %d entries when it was new and only %d after RemoveAll", first, m);
                R.stat("removeall");
            } else if (!memonly) reopen();
        }
        full_check("end");
        close_all();
        fsck("after close", true);
        rm_tree(dir);
    }
    // A jemalloc database which is kept over many restarts. Its live data stay well below the capacity, so that neither
    // an update nor a restart may run out of space, however many there were before.
    void run_keep(int rounds)
    {
        build_cfg();
        pfx = false;
        kg.family = rng.chance(30) ? 10 : kg.family;
        int bi = rng.range(4, 12), bd = rng.range(4, 12);
        cfg.block_size_index = cfg.block_size_data = 4u << 20;
        cfg.max_num_index_block = bi;
        cfg.max_num_data_block = bd;
        cfg.memcap_index = (size_t)bi << 22;
        cfg.memcap_data = (size_t)bd << 22;
        cfg.jemalloc_keep_db = true;
        dir = mk_scratch(g_root, "keep");
        char c[200];
        snprintf(c, sizeof c, "keep fam=%d blocks %d %d", kg.family, bi, bd);
        R.ctx = R.ctx + " " + c;
        R.trace.clear();
        R.op("open %s", c);
        w = open(wopt());
        if (!w) return;
        size_t cap = ((size_t)bd << 22) * (size_t)rng.range(2, 20) / 100, icap = ((size_t)bi << 22) / 100 * 18 / 500;
        for (int i = 0; i < rounds; i++) {
            nops++;
            int churn = (int)rng.pick(vector<int>{ 0, 5, 200, 2000, 6000 });
            R.op("churn %d", churn);
            size_t bytes = 0;
            for (auto& e : model) bytes += e.second.size() + 24;
            bool child = rng.chance(25);
            string log = dir + "/oplog";
            if (child) {
                // another process makes the updates and dies without closing the database
                w->Close(); delete w; w = nullptr;
                fflush(NULL);
                pid_t pid = fork();
                if (pid == 0) {
                    R.stop_on_viol = false;
                    FILE* f = fopen(log.c_str(), "w");
                    MBConfig cc = cfg;
                    cc.mbdir = dir.c_str(); cc.queue_dir = dir.c_str(); cc.options = wopt();
                    DB d(cc);
                    if (!d.is_open()) _exit(7);
                    if (d.Count() != (int64_t)model.size()) _exit(8);
                    for (int j = 0; j < churn; j++) {
                        bool add = model.size() < 10 || (rng.chance(50) && bytes < cap && model.size() < icap);
                        string k = add ? kg.next() : kg.pick(model), v;
                        if (add && (k.empty() || k.size() > 256)) continue;
                        if (add) {
                            v = make_value(rng, vid++, 1);
                            int rc = d.Add(k, v, true);
                            if (rc != MBError::SUCCESS) { fprintf(stderr, "child add: %s\n", es(rc)); _exit(9); }
                            if (model.count(k)) bytes -= model[k].size() + 24;
                            model[k] = v;
                            bytes += v.size() + 24;
                        } else {
                            int rc = d.Remove(k);
                            if (rc != MBError::SUCCESS) { fprintf(stderr, "child remove: %s\n", es(rc)); _exit(10); }
                            bytes -= model[k].size() + 24;
                            model.erase(k);
                        }
                        uint32_t h[2] = { (uint32_t)k.size(), (uint32_t)v.size() };
                        fwrite(h, sizeof h, 1, f); fwrite(k.data(), k.size(), 1, f); fwrite(v.data(), v.size(), 1, f);
                    }
                    fclose(f);
                    _exit(0);
                }
                int st = 0;
                waitpid(pid, &st, 0);
                if (!WIFEXITED(st) || WEXITSTATUS(st)) {
                    int e = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
                    R.viol("keep", e == 8 ? "keep_lost" : e == 9 || e == 10 ? "keep_space" : "keep_child", "the updating process ended with %d (8: entries missing after the restart, 9/10: an update failed)", e);
                    break;
                }
                FILE* f = fopen(log.c_str(), "r");
                uint32_t h[2];
                while (f && fread(h, sizeof h, 1, f) == 1) {
                    string k(h[0], 0), v(h[1], 0);
                    if (fread(&k[0], h[0], 1, f) != 1 || (h[1] && fread(&v[0], h[1], 1, f) != 1)) break;
                    if (h[1]) model[k] = v; else model.erase(k);
                    vid++;
                    R.stat("keep_killed_updates");
                }
                if (f) fclose(f);
                unlink(log.c_str());
                R.stat("keep_killed");
            } else {
                for (int j = 0; j < churn && R.viols == 0; j++) {
                    bool add = model.size() < 10 || (rng.chance(50) && bytes < cap && model.size() < icap);
                    if (add) {
                        string k = kg.next(), v = make_value(rng, vid++, 1);
                        if (k.empty() || k.size() > 256) continue;
                        int rc = add_rc(k, v);
                        if (rc != MBError::SUCCESS) { R.viol("keep", "keep_space", "Add with %zu entries, %zu bytes in %d+%d blocks: %s", model.size(), bytes, bi, bd, es(rc)); break; }
                        if (model.count(k)) bytes -= model[k].size() + 24;
                        bytes += v.size() + 24;
                        model[k] = v;
                    } else {
                        string k = kg.pick(model);
                        int rc = remove_rc(k);
                        if (rc != MBError::SUCCESS) { R.viol("keep", "keep_remove", "Remove(%s): %s", hex(k).c_str(), es(rc)); break; }
                        bytes -= model[k].size() + 24;
                        model.erase(k);
                    }
                    R.stat("keep_updates");
                }
                check_files();
                if (rng.chance(30)) full_check("before restart");
                if (r && rng.chance(50)) { r->Close(); delete r; r = nullptr; }
                w->Close(); delete w; w = nullptr;
            }
            if (R.viols) break;
            // other processes look up entries while the database is rebuilt, and some are killed
            struct Shm { volatile int stop; volatile long n; char msg[400]; };
            Shm* shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
            vector<pid_t> kids;
            int nkids = !model.empty() && rng.chance(50) ? rng.range(1, 3) : 0;
            vector<const string*> mk;
            if (nkids) for (auto& e : model) mk.push_back(&e.first);
            for (int j = 0; j < nkids; j++) {
                uint64_t s = rng.next();
                fflush(NULL);
                pid_t pid = fork();
                if (pid == 0) {
                    Rng cr(s);
                    MBConfig cc = cfg;
                    cc.mbdir = dir.c_str(); cc.queue_dir = dir.c_str(); cc.options = ropt(); cc.connect_id = cr.chance(50) ? 0 : 7 + j;
                    DB d(cc);
                    if (!d.is_open()) { snprintf(shm->msg, sizeof shm->msg, "a reader does not open: %s", d.StatusStr()); _exit(1); }
                    long n = 0;
                    while (!shm->stop) {
                        string k = *mk[cr.below(mk.size())];
                        if (cr.chance(15)) k += (char)cr.below(256);
                        if (k.size() > 256) k.resize(256);
                        MBData m;
                        bool lp = cr.chance(20);
                        int rc = lp ? d.FindLongestPrefix(k, m) : d.Find(k, m);
                        string want;
                        bool has = false;
                        for (int l = (int)k.size(); l >= (lp ? 1 : (int)k.size()) && !has; l--) {
                            auto it = model.find(k.substr(0, l));
                            if (it != model.end()) { has = true; want = it->second; }
                        }
                        if (has ? rc != MBError::SUCCESS || val_of(m) != want : rc != MBError::NOT_EXIST) {
                            snprintf(shm->msg, sizeof shm->msg, "%s(%s) of a reader during the restart: %s %s, expected %s", lp ? "FindLongestPrefix" : "Find", hex(k).c_str(), es(rc), hex(val_of(m)).c_str(),
                                has ? hex(want).c_str() : "nothing");
                            _exit(1);
                        }
                        if (++n % 64 == 0) __sync_fetch_and_add(&shm->n, 64);
                    }
                    _exit(0);
                }
                kids.push_back(pid);
            }
            pid_t killer = 0;
            if (nkids) {
                for (int t = 0; t < 400 && !shm->n && !shm->msg[0]; t++) usleep(1000);
                if (rng.chance(50)) {
                    int us = rng.range(0, 20000), sig = rng.chance(80) ? SIGKILL : SIGTERM;
                    killer = fork();
                    if (killer == 0) { usleep(us); kill(kids[0], sig); _exit(0); }
                    R.stat("keep_readers_killed");
                }
            }
            R.op("restart with %d readers%s", nkids, killer ? ", one is killed" : "");
            long n0 = shm->n;
            w = open(wopt());
            R.stat("keep_reads_during_restart", shm->n - n0);
            shm->stop = 1;
            if (killer) { int st; waitpid(killer, &st, 0); }
            for (auto p : kids) {
                int st = 0;
                waitpid(p, &st, 0);
                if (shm->msg[0]) R.viol("keep", "keep_reader", "%s", shm->msg);
                else if (WIFSIGNALED(st) && !(killer && p == kids[0])) R.viol("keep", "keep_reader_died", "a reader died with signal %d during the restart", WTERMSIG(st));
                R.stat("keep_readers");
            }
            munmap(shm, sizeof(Shm));
            if (!w || R.viols) break;
            if (!r && rng.chance(70)) r = open(ropt());
            R.stat("keep_restart");
            R.sig(hist * 31 + model.size() * 1000003 + (bytes << 20));
            full_check("after restart");
            check_files();
        }
        close_all();
        rm_tree(dir);
    }
    int add_rc(const string& k, const string& v)
    {
        try { return w->Add(k, v, true); } catch (int e) { R.viol("map", "add_throw", "Add(%s) threw %s", hex(k).c_str(), es(e)); return e; }
    }
    int remove_rc(const string& k)
    {
        try { return w->Remove(k); } catch (int e) { R.viol("map", "remove_throw", "Remove(%s) threw %s", hex(k).c_str(), es(e)); return e; }
    }
    void do_rc()
    {
        R.op("rc");
        int rc = (async ? u : w)->CollectResource(1, 1);
        R.stat("rc");
        if (async) wait_idle();
        if (rc != MBError::SUCCESS) R.viol("rc", "rc_err", "CollectResource = %s", es(rc));
    }
    // Many updates of one kind: more buffers of one size are free than a free list holds, or the data take several
    // blocks and a collection has to move nearly all, a little.
    void do_mass()
    {
        int kind = rng.chance(45) ? 0 : 1;
        string stem = rng.chance(50) ? kg.clip(kg.fresh()) : string("m");
        if (stem.size() > 100) stem.resize(100);
        int n = kind == 0 ? rng.range(270, 700) : rng.range(160, 420), shape = rng.range(0, 3), size = rng.range(1, rng.chance(60) ? 60 : 400);
        bool mixed = kind == 1 && rng.chance(50);
        if (mixed) n = rng.range(850, 1500) * (int)(cfg.block_size_data >> 22);
        int order = rng.range(0, 2), rmpct = kind == 0 || rng.chance(30) ? rng.range(50, 100) : 0;
        R.op("mass kind=%d n=%d shape=%d size=%d order=%d rm=%d stem=%s", kind, n, shape, size, order, rmpct, hex(stem).c_str());
        R.stat(kind ? "mass_big" : "mass_equal");
        vector<string> ks;
        auto put = [&](const string& k, const string& v) {
            int rc = w->Add(k, v, true);
            if (rc != MBError::SUCCESS) { R.viol("map", "mass_add", "Add(%s, %zu bytes) = %s", hex(k).c_str(), v.size(), es(rc)); return; }
            model[k] = v;
        };
        auto del = [&](const string& k) {
            int rc = w->Remove(k);
            if (rc != MBError::SUCCESS) { R.viol("map", "mass_remove", "Remove(%s) = %s", hex(k).c_str(), es(rc)); return; }
            model.erase(k);
        };
        auto val = [&] { return kind == 0 ? make_value(rng, vid++, 0).substr(0, size) + string(rng.chance(80) ? 0 : rng.below(9), 'm') + "." : make_value(rng, vid++, 0) + string(mixed && rng.chance(85) ? rng.range(50, 3000) : rng.range(shape == 0 ? 28000 : 5000, 32000), 'b'); };
        for (int i = 0; i < n; i++) {
            char b[40];
            if (shape == 0) snprintf(b, sizeof b, "%05d", i);
            else if (shape == 1) snprintf(b, sizeof b, "%c%c%c", (char)(i >> 6), (char)(i * 37), (char)i);
            else if (shape == 2) snprintf(b, sizeof b, "%x", i * 2654435u);
            else snprintf(b, sizeof b, "%d.%d", i % 17, i);
            string k = stem + (shape == 1 ? string({ (char)(i >> 6), (char)(i * 37), (char)i }) : string(b));
            ks.push_back(k);
            put(k, val());
        }
        if (order == 1) std::reverse(ks.begin(), ks.end());
        if (order == 2) for (size_t i = ks.size() - 1; i > 0; i--) std::swap(ks[i], ks[rng.below(i + 1)]);
        vector<string> left;
        int few = kind == 1 && !rmpct ? rng.range(1, 4) : 0;
        for (size_t i = 0; i < ks.size(); i++) {
            bool rm = few ? (i < (size_t)few || rng.chance(1)) : rng.chance(rmpct);
            if (rm) del(ks[i]); else left.push_back(ks[i]);
        }
        if (kind == 1 || rng.chance(30)) {
            if (P.w_rc && !jem) do_rc();
            fsck("after the burst", false);
        }
        for (int i = rng.range(50, 300); i--;) do_add(rng.chance(30));
        for (auto& k : left) if (rng.chance(20) && model.count(k)) { R.op("  again %s", hex(k).c_str()); put(k, val()); }
        fsck("after the burst and more updates", false);
        for (auto& k : ks) if (rng.chance(30)) q_find(k, rd(), "handle after the burst");
        int drop = rng.range(60, 100);
        for (auto& k : left) if (model.count(k) && rng.chance(drop)) del(k);
        if (P.w_rc && !jem && rng.chance(50)) { do_rc(); fsck("after the burst was collected", false); }
    }
    void do_offset(DB* h)
    {
        if (model.empty()) return;
        string k = kg.pick(model);
        MBData d, e;
        if (h->Find(k, d) != MBError::SUCCESS) return;
        size_t off = d.data_offset;
        int rc = h->ReadDataByOffset(off, e);
        R.stat("offset");
        if (rc != MBError::SUCCESS || val_of(e) != model[k]) R.viol("offset", "read_by_offset", "ReadDataByOffset(%zu) for %s = %s value %s expected %s", off, hex(k).c_str(), es(rc), hex(val_of(e)).c_str(), hex(model[k]).c_str());
        if (!async && rng.chance(50)) {
            // in-place rewrite of the same length
            string v = make_value(rng, vid++, 0);
            v.resize(model[k].size(), 'q');
            R.op("write_by_offset %s", hex(k).c_str());
            rc = w->WriteDataByOffset(off + DB::GetDataHeaderSize(), v.data(), (int)v.size());
            if (rc != MBError::SUCCESS) R.viol("offset", "write_by_offset", "WriteDataByOffset = %s", es(rc));
            else model[k] = v;
        }
    }
    int nbk = 0;
    bool backup_sync(const string& to)
    {
        int rc = (async ? u : w)->Backup(to.c_str());
        for (int t = 0; async && rc == MBError::TRY_AGAIN && t < 20000; t++) { usleep(100); rc = u->Backup(to.c_str()); }
        wait_idle();
        return rc == MBError::SUCCESS;
    }
    DB* open_at(const string& at, int opt)
    {
        string keep = dir;
        dir = at;
        DB* d = open(opt);
        dir = keep;
        return d;
    }
    void compare(DB* d, const std::map<string, string>& m, const char* key, const char* who)
    {
        for (auto& e : m) {
            MBData x;
            int rc = d->Find(e.first, x);
            if (rc != MBError::SUCCESS || val_of(x) != e.second) { R.viol("backup", key, "%s: Find(%s) = %s %s, expected %s", who, hex(e.first).c_str(), es(rc), hex(val_of(x)).c_str(), hex(e.second).c_str()); return; }
        }
        if (d->Count() != (int64_t)m.size()) R.viol("backup", key, "%s: Count() is %lld, expected %zu", who, (long long)d->Count(), m.size());
        size_t n = 0;
        for (auto it = d->begin(); it != d->end(); ++it) {
            n++;
            auto f = m.find(it.key);
            if (f == m.end() || f->second != val_of(it.value)) { R.viol("backup", key, "%s: iteration returns %s = %s", who, hex(it.key).c_str(), hex(val_of(it.value)).c_str()); return; }
        }
        if (n != m.size()) R.viol("backup", key, "%s: iteration returns %zu entries of %zu", who, n, m.size());
    }
    void do_backup()
    {
        string to = dir + "/bk" + std::to_string(nbk++);
        if (rng.chance(15)) {
            // impossible targets: an error, and neither the database nor the target suffers
            R.op("backup to a missing directory");
            int rc = (async ? u : w)->Backup((dir + "/nodir/x").c_str());
            wait_idle();
            if (!async && rc == MBError::SUCCESS) R.viol("backup", "backup_nodir", "Backup into a missing directory reports success");
            R.stat("backup_failed");
            return;
        }
        mkdir_or_die(to);
        R.op("backup %zu entries", model.size());
        bool ok = backup_sync(to);
        R.stat("backup");
        if (memonly) { if (ok && !async) R.viol("backup", "backup_memonly", "Backup of a memory-only database reports success"); rm_tree(to); return; }
        if (!ok) { R.viol("backup", "backup_rc", "Backup failed"); return; }
        std::map<string, string> at = model;
        if (rng.chance(50)) for (int i = 0; i < 10; i++) { do_add(true); if (rng.chance(30)) do_remove(); } // the copy must be independent
        wait_idle();
        DB* d = open_at(to, CONSTS::ACCESS_MODE_READER | (jem ? CONSTS::OPTION_JEMALLOC : 0));
        if (!d) return;
        compare(d, at, "backup_content", "the backup opened by a reader");
        if (rng.chance(50)) { d->Close(); delete d; d = nullptr; }
        if (!jem) {
            Fsck f;
            if (!f.load(to)) R.viol("backup", "backup_hdr", "the header of the backup is unreadable");
            else {
                f.walk();
                if (f.errs.empty()) f.check_overlap();
                for (auto& e : f.errs) R.viol("backup", "backup_fsck_" + e.first, "%s", e.second.c_str());
                if (f.kv != at) R.viol("backup", "backup_tree", "the tree in the files of the backup differs from the model");
            }
        }
        if (!jem || rng.chance(50)) {
            // a backup can be used like any database
            bool keep = cfg.jemalloc_keep_db;
            cfg.jemalloc_keep_db = true;
            if (jem && d) { d->Close(); delete d; d = nullptr; }
            if (async) { async = false; } // an async writer of another db would replace the one of this process
            bool was_async = P.async;
            DB* b = open_at(to, CONSTS::ACCESS_MODE_WRITER | (jem ? CONSTS::OPTION_JEMALLOC : 0));
            if (b) {
                compare(b, at, "backup_writer", "the backup opened by a writer");
                for (int i = 0; i < 60; i++) {
                    string k = rng.chance(50) && !at.empty() ? kg.pick(at) : kg.next();
                    if (rng.chance(70)) {
                        string v = make_value(rng, vid++, valprof);
                        int rc = b->Add(k, v, true);
                        if (rc != MBError::SUCCESS) { R.viol("backup", "backup_update", "Add to the backup: %s", es(rc)); break; }
                        at[k] = v;
                    } else {
                        int rc = b->Remove(k);
                        if (rc != (at.count(k) ? MBError::SUCCESS : MBError::NOT_EXIST)) { R.viol("backup", "backup_update", "Remove from the backup: %s", es(rc)); break; }
                        at.erase(k);
                    }
                }
                compare(b, at, "backup_updated", "the updated backup");
                if (d) compare(d, at, "backup_updated_reader", "a reader of the updated backup");
                b->Close();
                delete b;
                R.stat("backup_updated");
            }
            async = was_async;
            cfg.jemalloc_keep_db = keep;
        }
        if (d) { d->Close(); delete d; }
        // a second backup to the same place must not damage the first
        if (rng.chance(30)) {
            int rc = (async ? u : w)->Backup(to.c_str());
            wait_idle();
            if (!async && rc == MBError::SUCCESS) R.viol("backup", "backup_twice", "Backup over an existing database reports success");
            if (!jem) { d = open_at(to, CONSTS::ACCESS_MODE_READER); if (d) { compare(d, at, "backup_overwritten", "the backup after a second Backup to the same directory"); d->Close(); delete d; } }
        }
        full_check("after backup");
        rm_tree(to);
    }
    // -- eviction --------------------------------------------------------------------------------
    std::map<string, long long> upd; // key -> number of the update which wrote it
    std::map<string, long long> updmax; // the same for updates made during a resource collection: they are merged in any order
    long long nupd = 0; // updates since the database was created or emptied
    long long nupd_min = 0; // no update below is in the range of the eviction buckets
    bool dense = true; // every update so far added an entry, and nothing but eviction removed any
    bool ev_add(const string& k, bool ow)
    {
        string v = make_value(rng, vid++, valprof);
        bool had = model.count(k) != 0;
        int rc = w->Add(k, v, ow);
        int want = had && !ow ? MBError::IN_DICT : MBError::SUCCESS;
        if (rc != want) { R.viol("evict", "ev_add", "Add(%s) = %s", hex(k).c_str(), es(rc)); return false; }
        if (rc == MBError::SUCCESS) { model[k] = v; upd[k] = nupd++; if (had) dense = false; }
        return true;
    }
    // What is in the database, by iteration. Every entry must be one of the model.
    void ev_survivors(std::map<string, string>& left, DB* h)
    {
        for (auto it = h->begin(false); it != h->end(); ++it) {
            auto f = model.find(it.key);
            if (f == model.end()) R.viol("evict", "ev_phantom", "after an eviction there is an entry %s which was not there before", hex(it.key).c_str());
            else if (f->second != val_of(it.value)) R.viol("evict", "ev_value", "after an eviction the value of %s is %s, expected %s", hex(it.key).c_str(), hex(val_of(it.value)).c_str(), hex(f->second).c_str());
            left[it.key] = val_of(it.value);
        }
    }
    // newest: updates which were made after the eviction was requested
    void ev_judge(std::map<string, string>& left, long long asked, long long queued, bool over, const char* what)
    {
        long long epb = cfg.num_entry_per_bucket, hi_gone = -1, lo_left = LLONG_MAX;
        string kg_, kl;
        size_t gone = 0;
        for (auto& e : model) {
            long long n = upd[e.first];
            long long m = updmax.count(e.first) ? std::max(n, updmax[e.first]) : n;
            if (left.count(e.first)) { if (m < lo_left && m >= nupd_min) { lo_left = m; kl = e.first; } continue; }
            gone++;
            if (n > hi_gone) { hi_gone = n; kg_ = e.first; }
        }
        R.stat("ev_evicted", (long long)gone);
        if (gone) R.stat("ev_pruned");
        if (!over && gone) R.viol("evict", "ev_unasked", "%s: %zu of %zu entries were removed although no limit was exceeded, one is %s", what, gone, model.size(), hex(kg_).c_str());
        if (hi_gone >= queued) R.viol("evict", "ev_fresh", "%s: %s was removed although it was updated (update %lld) after the eviction was asked for (before update %lld)", what, hex(kg_).c_str(), hi_gone, queued);
        if (asked == queued && hi_gone >= 0 && hi_gone >= asked - epb) R.viol("evict", "ev_newest", "%s: %s was removed although it is one of the last %lld updates (update %lld of %lld)", what, hex(kg_).c_str(), epb, hi_gone, asked);
        if (gone && lo_left < hi_gone) R.viol("evict", "ev_order", "%s: %s (update %lld) was removed while %s, which is older (update %lld), was kept", what, hex(kg_).c_str(), hi_gone, hex(kl).c_str(), lo_left);
        for (auto it = model.begin(); it != model.end();) {
            if (left.count(it->first)) { ++it; continue; }
            upd.erase(it->first);
            updmax.erase(it->first);
            it = model.erase(it);
        }
        R.sig(fnvs(what, (uint64_t)gone * 1000003 + model.size() * 31 + (uint64_t)(asked / epb)));
    }
    void do_evict()
    {
        long long epb = cfg.num_entry_per_bucket, before = (long long)model.size();
        long long maxcnt = MAX_6B_OFFSET, maxsz = MAX_6B_OFFSET;
        bool over = false, by_count = false;
        int kind = (int)rng.below(5);
        if (kind <= 2) {
            int pct = rng.pick(vector<int>{ 20, 45, 60, 75, 90, 99, 100, 101, 150 });
            maxcnt = std::max<long long>(1, before * pct / 100);
            over = by_count = before > maxcnt;
        } else if (kind == 3) { maxsz = 1; over = true; }
        else { maxsz = 64ll * 8 << 20; }
        bool rc_too = rng.chance(20);
        R.op("evict max entries %lld max size %lld of %lld entries, %lld updates, defrag %d", maxcnt, maxsz, before, nupd, rc_too);
        bool d = dense; // the entries are exactly the last updates
        int rc = w->CollectResource(rc_too ? 1 : 0, rc_too ? 1 : 0, maxsz, maxcnt);
        R.stat("ev_calls");
        if (rc != MBError::SUCCESS) R.viol("evict", "ev_err", "CollectResource for eviction = %s", es(rc));
        std::map<string, string> left;
        ev_survivors(left, rd());
        long long gone = before - (long long)left.size();
        char what[200];
        snprintf(what, sizeof what, "eviction (limits %lld entries, %lld bytes) of a database with %lld entries, bucket %lld", maxcnt, maxsz, before, epb);
        ev_judge(left, nupd, nupd, over, what);
        if (d && over) {
            // every bucket is full: the excess decides how many buckets go, at most half of them
            double ratio = by_count ? std::min(0.5, (before - maxcnt) * 1.0 / maxcnt) : 0.5;
            if (gone > before / 2 + epb) R.viol("evict", "ev_too_many", "%s: %lld entries were removed", what, gone);
            if (by_count && gone > before * ratio + epb) R.viol("evict", "ev_too_many", "%s: %lld entries were removed", what, gone);
            if (gone < before * ratio * 0.8 - 2 * epb) R.viol("evict", "ev_too_few", "%s: only %lld entries were removed", what, gone);
            R.stat("ev_dense");
        }
        if (over) R.stat("ev_over"); else R.stat("ev_under");
        if (model.size() < 6000 || rng.chance(10)) full_check("evicted"); else q_count(rd(), "after eviction");
    }
    string ev_key(long long i) const { char b[40]; snprintf(b, sizeof b, "%s%lld", i % 3 ? "k" : "another-prefix/", (i * 7919) % 1000003); return b; }
    void run_evict(int rounds)
    {
        build_cfg();
        pfx = rng.chance(10);
        if (pfx) cfg.memcap_data = std::max<size_t>(cfg.memcap_data, cfg.block_size_data);
        valprof = 0;
        cfg.num_entry_per_bucket = rng.pick(vector<int>{ 8, 8, 9, 20, 64, 500 });
        bool wrap = rng.chance(15);
        if (wrap) cfg.num_entry_per_bucket = 8;
        dir = mk_scratch(g_root, "evict");
        char c[200];
        snprintf(c, sizeof c, "evict mode=%d pfx=%d bucket=%d wrap=%d memcap %zu %zu", mode, pfx, cfg.num_entry_per_bucket, wrap, cfg.memcap_index >> 20, cfg.memcap_data >> 20);
        R.ctx = R.ctx + " " + c;
        R.trace.clear();
        R.op("open %s", c);
        w = open(wopt());
        if (!w) return;
        r = open(ropt());
        long long base = 0;
        for (int i = 0; i < rounds; i++) {
            nops++;
            if (wrap && rng.chance(30)) {
                // many updates of few entries let the bucket numbers go round
                if (model.size() > 600) { int rc = w->RemoveAll(); if (rc) R.viol("evict", "ev_err", "RemoveAll = %s", es(rc)); model.clear(); upd.clear(); nupd = nupd_min = 0; dense = true; }
                int n = rng.range(100000, 350000), keys = rng.range(60, 600);
                R.op("%d updates of %d keys", n, keys);
                for (int j = 0; j < n; j++) if (!ev_add(ev_key(j % keys), true)) return;
                // entries out of the circle of 65535 buckets have no age
                nupd_min = std::max(nupd_min, nupd - 8ll * 60000);
                for (auto it = upd.begin(); it != upd.end();) {
                    if (it->second >= nupd_min) { ++it; continue; }
                    string k = it->first;
                    ++it;
                    if (!ev_add(k, true)) return;
                }
                R.stat("ev_wrap_updates", n);
            } else {
                int n = rng.range(50, 3000), mix = (int)rng.below(3);
                R.op("add %d, mix %d", n, mix);
                for (int j = 0; j < n; j++) {
                    if (mix == 1 && !model.empty() && rng.chance(50)) { if (!ev_add(ev_key((long long)rng.below((uint64_t)base + 1)), rng.chance(80))) return; }
                    else if (!ev_add(ev_key(base++), rng.chance(50))) return;
                }
            }
            if (rng.chance(30) && !model.empty()) {
                int n = rng.range(1, 400);
                R.op("remove up to %d", n);
                while (n-- > 0 && !model.empty()) {
                    string k = rng.chance(50) ? model.begin()->first : kg.pick(model);
                    int rc = remove_rc(k);
                    if (rc != MBError::SUCCESS) R.viol("evict", "ev_remove", "Remove(%s) = %s", hex(k).c_str(), es(rc));
                    model.erase(k);
                    upd.erase(k);
                    dense = false;
                }
            }
            if (rng.chance(8)) { R.op("removeall"); int rc = w->RemoveAll(); if (rc) R.viol("evict", "ev_err", "RemoveAll = %s", es(rc)); model.clear(); upd.clear(); nupd = nupd_min = 0; dense = true; }
            if (rng.chance(10) && !jem) reopen();
            if (!w) return;
            if (rng.chance(10)) do_rc();
            int n = rng.range(1, 3);
            while (n--) do_evict();
        }
        full_check("end");
        close_all();
        if (!memonly) fsck("after close", true);
        rm_tree(dir);
    }
    // One producer updates through the queue while the async writer evicts.
    void run_evict_async(int rounds)
    {
        P.async = true;
        build_cfg();
        async = true;
        pfx = false;
        valprof = 0;
        cfg.num_entry_per_bucket = rng.pick(vector<int>{ 8, 20, 64, 500 });
        dir = mk_scratch(g_root, "evasync");
        char c[200];
        snprintf(c, sizeof c, "evict async mode=%d bucket=%d", mode, cfg.num_entry_per_bucket);
        R.ctx = R.ctx + " " + c;
        R.trace.clear();
        R.op("open %s", c);
        w = open(wopt());
        if (!w) return;
        u = open(ropt());
        r = open(ropt());
        if (!u || !r) return;
        long long base = 0;
        for (int i = 0; i < rounds; i++) {
            nops++;
            std::atomic<long long> asked { LLONG_MAX }, queued { LLONG_MAX }, sent { nupd };
            int n = rng.range(2000, 12000), hot = rng.range(0, 90);
            long long at = rng.range(n / 4, n * 3 / 4);
            bool defrag = rng.chance(20);
            R.op("round %d: %d updates, hot %d, eviction at %lld, defrag %d", i, n, hot, at, defrag);
            long long maxcnt = std::max<long long>(1, ((long long)model.size() + n / 4) * rng.range(20, 70) / 100);
            std::thread ev;
            long long start = nupd;
            for (int j = 0; j < n; j++) {
                if (nupd - start == at) {
                    asked = nupd;
                    ev = std::thread([&] {
                        DB* d = open(ropt());
                        if (!d) return;
                        int rc = MBError::TRY_AGAIN;
                        for (int t = 0; t < 100000 && rc == MBError::TRY_AGAIN; t++) { rc = d->CollectResource(defrag ? 1 : 0, defrag ? 1 : 0, MAX_6B_OFFSET, maxcnt); if (rc) usleep(50); }
                        queued = sent.load() + 1; // the next update may be in the queue already
                        if (rc) R.viol("evict", "ev_err", "CollectResource for eviction = %s", es(rc));
                        d->Close();
                        delete d;
                    });
                }
                string k = ev_key(!model.empty() && rng.chance(hot) ? (long long)rng.below((uint64_t)base + 1) : base++);
                string v = make_value(rng, vid++, 0);
                int rc = MBError::TRY_AGAIN;
                for (int t = 0; t < 1000000 && rc == MBError::TRY_AGAIN; t++) { rc = u->Add(k, v, true); if (rc == MBError::TRY_AGAIN) usleep(5); }
                if (rc != MBError::SUCCESS) { R.viol("evict", "ev_add", "Add(%s) through the queue = %s", hex(k).c_str(), es(rc)); break; }
                model[k] = v;
                updmax.erase(k);
                upd[k] = nupd++;
                sent = nupd;
            }
            if (ev.joinable()) ev.join();
            wait_idle();
            std::map<string, string> left;
            ev_survivors(left, r);
            R.stat("ev_calls");
            R.stat("ev_async");
            char what[200];
            snprintf(what, sizeof what, "asynchronous eviction (limit %lld entries) between update %lld and %lld of %lld", maxcnt, (long long)asked, (long long)queued, nupd);
            ev_judge(left, asked, LLONG_MAX, true, what); // a later round of the eviction may take updates made meanwhile
            for (auto& e : model) q_find(e.first, r, "reader after the eviction");
            q_count(r, "reader after the eviction");
            fsck("evicted", false);
            if (defrag)
                for (auto& e : upd) if (e.second >= asked) { updmax[e.first] = nupd; e.second = asked; }
        }
        close_all();
        if (!memonly) fsck("after close", true);
        rm_tree(dir);
    }
    void run(int ops)
    {
        build_cfg();
        dir = mk_scratch(g_root, "seq");
        char c[200];
        snprintf(c, sizeof c, "seed mode=%d pfx=%d async=%d fam=%d valprof=%d bi=%u bd=%u memcap_i=%zu bucket=%d q=%u", mode, pfx, async, kg.family, valprof,
            cfg.block_size_index >> 20, cfg.block_size_data >> 20, cfg.memcap_index >> 20, cfg.num_entry_per_bucket, cfg.queue_size);
        R.ctx = R.ctx + " " + c;
        R.trace.clear();
        R.op("open %s", c);
        w = open(wopt());
        if (!w) return;
        if (async) u = open(ropt());
        if (async || rng.chance(70)) r = open(ropt());
        int tot = P.w_add + P.w_addow + P.w_remove + P.w_find + P.w_prefix + P.w_lower + P.w_indb + P.w_iter + P.w_iterp + P.w_count + P.w_rc + P.w_backup + P.w_removeall + P.w_reopen + P.w_rreopen + P.w_fsck + P.w_offset + P.w_flush;
        int grow = rng.range(0, 2); // bias: 0 balanced, 1 growing, 2 shrinking after half
        int mass_at = P.mass && !async && !(memonly && !jem) && rng.chance(P.mass) ? (int)rng.below((uint64_t)ops) : -1;
        for (int i = 0; i < ops; i++) {
            nops++;
            if (i == mass_at) do_mass();
            int x = (int)rng.below(tot);
            auto in = [&](int wgt) { if (x < wgt) return true; x -= wgt; return false; };
            DB* h = async ? r : rd();
            const char* who = h == w ? "writer" : "reader";
            if (in(P.w_add)) { if (grow == 2 && i > ops / 2) do_remove(); else do_add(false); }
            else if (in(P.w_addow)) do_add(true);
            else if (in(P.w_remove)) { if (grow == 1 && rng.chance(60)) do_add(false); else do_remove(); }
            else {
                wait_idle();
                if (in(P.w_find)) q_find(kg.probe(model), h, who);
                else if (in(P.w_prefix)) q_prefix(rng.chance(50) ? kg.clip(kg.probe(model) + kg.fresh()) : kg.probe(model), h, who);
                else if (in(P.w_lower)) q_lower(kg.probe(model), h, who);
                else if (in(P.w_indb)) q_indb(kg.probe(model), h, who);
                else if (in(P.w_iter)) q_iter("", h, who);
                else if (in(P.w_iterp)) { string p = kg.probe(model); p.resize(1 + rng.below(p.size())); q_iter(p, h, who); }
                else if (in(P.w_count)) q_count(h, who);
                else if (in(P.w_rc)) { do_rc(); if (rng.chance(60)) full_check("after rc"); }
                else if (in(P.w_backup)) { if (rng.chance(12)) do_backup(); }
                else if (in(P.w_removeall)) {
                    if (rng.chance(12)) {
                        R.op("removeall");
                        int rc = async ? u->RemoveAll() : w->RemoveAll();
                        for (int t = 0; async && rc == MBError::TRY_AGAIN && t < 100; t++) { usleep(100); rc = u->RemoveAll(); }
                        R.stat("removeall");
                        if (rc != MBError::SUCCESS) R.viol("map", "removeall_rc", "RemoveAll = %s", es(rc));
                        model.clear();
                        wait_idle();
                        full_check("after removeall");
                    }
                } else if (in(P.w_reopen)) reopen();
                else if (in(P.w_rreopen)) {
                    if (r) { R.op("reader reopen"); r->Close(); delete r; r = nullptr; }
                    rskip = pfx && rng.chance(30);
                    if (async || rng.chance(80)) r = open(ropt());
                } else if (in(P.w_fsck)) fsck("mid", false);
                else if (in(P.w_offset)) do_offset(h);
                else if (in(P.w_flush)) { R.op("flush"); w->Flush(); }
            }
        }
        wait_idle();
        full_check("end");
        close_all();
        if (!memonly) fsck("after close", true);
        if (!memonly && !jem && rng.chance(50)) {
            // persistence: reopen read-only after everything is closed
            r = open(ropt());
            if (r) { for (auto& e : model) q_find(e.first, r, "reopened reader"); q_count(r, "reopened reader"); q_iter("", r, "reopened reader"); R.stat("persist"); r->Close(); delete r; r = nullptr; }
        }
        R.sig(hist);
        rm_tree(dir);
    }
    void close_all()
    {
        R.op("close all");
        for (DB** p : { &r, &u, &w }) if (*p) { (*p)->Close(); delete *p; *p = nullptr; }
    }
    void reopen()
    {
        wait_idle();
        wskip = pfx && rng.chance(30);
        R.op("writer reopen%s", wskip ? " without the prefix cache" : "");
        bool keep_r = r && rng.chance(50) && !(memonly && pfx); // the new database may have its prefix cache elsewhere, or none
        if (!keep_r && r) { r->Close(); delete r; r = nullptr; }
        if (u) { u->Close(); delete u; u = nullptr; }
        w->Close(); delete w; w = nullptr;
        if (!memonly) fsck("closed", true);
        if (memonly) {
            // a memory-only database is new each time a writer opens it
            model.clear();
            cfg.jemalloc_keep_db = jem && rng.chance(50);
            upd.clear();
            nupd = nupd_min = 0;
            dense = true;
            R.stat("memory_reopen");
        } else if (jem && !async) {
            bool keep = rng.chance(60);
            cfg.jemalloc_keep_db = keep;
            R.op("jemalloc keep=%d", keep);
            if (!keep) model.clear();
        } else if (jem) { model.clear(); }
        if (rng.chance(30) && !jem && !P.full) { cfg.memcap_index = rng.chance(50) ? 64u << 20 : cfg.block_size_index; cfg.memcap_data = rng.chance(50) ? 64u << 20 : rng.chance(30) && mode == 0 ? 0 : cfg.block_size_data; }
        w = open(wopt());
        if (!memonly) R.stat("reopen");
        if (!w) { model.clear(); return; }
        if (async) u = open(ropt());
        if (!r && (async || rng.chance(60))) r = open(ropt());
        full_check("after reopen");
    }
};

int main(int argc, char** argv)
{
    Args a(argc, argv);
    R.init(a);
    g_root = a.s("root", "/tmp");
    quiet_lib();
    string p = a.s("profile", "map");
    Profile P;
    if (p == "map") { P.w_prefix = P.w_lower = 0; P.w_iterp = 0; P.pfx_pct = 0; }
    else if (p == "prefix") { P.w_prefix = 60; P.w_lower = 0; P.w_find = 2; P.w_iterp = 0; P.pfx_pct = 0; }
    else if (p == "lower") { P.w_lower = 60; P.w_prefix = 0; P.w_find = 2; P.w_iterp = 0; P.pfx_pct = 0; }
    else if (p == "iter") { P.w_iter = 8; P.w_iterp = 20; P.w_prefix = P.w_lower = 0; P.w_find = 2; P.pfx_pct = 0; }
    else if (p == "rc") { P.w_rc = 8; P.w_remove = 30; P.w_reopen = 0; P.modes = 1 | 2; P.pfx_pct = 0; }
    else if (p == "reopen") { P.w_reopen = 6; P.modes = 1; P.pfx_pct = 0; }
    else if (p == "jem") { P.w_reopen = 4; P.modes = 4 | 8; P.pfx_pct = 10; }
    else if (p == "pfx") { P.pfx_pct = 100; P.w_find = 40; P.w_removeall = 1; }
    else if (p == "async") { P.async = true; P.modes = 1 | 2; P.pfx_pct = 0; }
    else if (p == "removeall") { P.w_removeall = 30; P.w_reopen = 3; P.pfx_pct = 0; }
    else if (p == "backup") { P.w_backup = 20; P.w_reopen = 3; P.modes = 1 | 4; P.pfx_pct = 0; }
    else if (p == "full") { P.full = true; P.modes = 15; P.pfx_pct = 0; }
    else if (p == "keep") { P.keep = true; P.modes = 4; P.pfx_pct = 0; }
    else if (p == "evict") { P.evict = 1; P.modes = 1 | 2; }
    else if (p == "evasync") { P.evict = 2; P.modes = 1 | 2; }
    else if (p == "space") { P.valprof = 1; P.modes = 1; P.w_remove = 30; P.w_fsck = 4; P.w_reopen = 0; P.pfx_pct = 0; }
    else if (p == "all") { P.pfx_pct = 30; P.w_removeall = 3; }
    P.mass = p == "rc" || p == "space" ? 35 : p == "jem" || p == "all" ? 10 : p == "map" ? 10 : p == "reopen" || p == "removeall" || p == "backup" ? 4 : 0;
    if (a.has("mass")) P.mass = (int)a.n("mass", 0);
    if (a.has("modes")) P.modes = (int)a.n("modes", 1);
    if (a.has("valprof")) P.valprof = (int)a.n("valprof", 0);
    if (a.has("pfx")) P.pfx_pct = (int)a.n("pfx", 0);
    if (a.has("norc")) P.w_rc = 0;
    if (a.has("noreopen")) P.w_reopen = 0;
    uint64_t seed = (uint64_t)a.n("seed", 1);
    long long cases = a.n("cases", 10), ops = a.n("ops", 400), first = a.n("first", 0);
    if (a.has("keepgoing")) R.stop_on_viol = false;
    for (long long i = first; i < first + cases; i++) {
        uint64_t cs = seed * 1000003ull + (uint64_t)i;
        R.ctx = "case " + std::to_string(i);
        Case* c = new Case(cs, P);
        if (P.evict == 1) c->run_evict((int)ops);
        else if (P.evict == 2) c->run_evict_async((int)ops);
        else if (P.keep) c->run_keep((int)ops);
        else if (P.full) c->run_full((int)ops); else c->run((int)ops);
        R.stat("cases");
        R.stat("ops", (long long)c->nops);
        if (i < first + 2) R.sample(R.ctx);
        delete c;
    }
    R.flush();
    return R.viols ? 3 : 0;
}
