// Every public call with arguments, handles and configurations that are not valid, mixed with valid ones.
// Each must be refused without a crash, and nothing may change: the contents are compared with a model all the time.
#include "common.h"
#include <fstream>
#include <sstream>

using namespace vh;
static Report R;
static string g_root;

struct Case {
    Rng rng;
    const Args& a;
    string base, dir;
    int mode; // 1 mapped, 2 files, 4 memory-only, 8 jemalloc, 16 async
    int wopt = 0, ropt = 0;
    DB* w = nullptr;
    vector<DB*> rd;
    struct Dead { DB* d; string what; };
    vector<Dead> dead;
    std::map<string, string> m;
    vector<string> keys;
    Case(uint64_t s, const Args& args) : rng(s), a(args) { }

    MBConfig conf(int opt)
    {
        MBConfig c {};
        c.mbdir = dir.c_str();
        c.options = opt;
        c.block_size_index = c.block_size_data = 4u << 20;
        c.max_num_index_block = c.max_num_data_block = 4;
        c.memcap_index = c.memcap_data = mode & 2 ? 1u << 20 : 16u << 20;
        if (mode & 8) c.memcap_index = c.memcap_data = 16u << 20;
        c.num_entry_per_bucket = 32;
        c.queue_size = 16;
        c.queue_dir = base.c_str();
        return c;
    }
    DB* open(int opt) { MBConfig c = conf(opt); return new DB(c); }
    void drain(const char* after)
    {
        if (!(mode & 16)) return;
        for (int i = 0; i < 100000 && w->AsyncWriterBusy(); i++) usleep(50);
        if (w->AsyncWriterBusy()) R.viol("misuse", "mis_busy", "the async writer is still busy 5 s after %s", after);
    }
    // contents through every open handle that may look
    void check(const char* after)
    {
        drain(after);
        for (size_t h = 0; h <= rd.size(); h++) {
            DB* d = h ? rd[h - 1] : w;
            if (!h && (mode & 16)) continue;
            if (d->Count() != (int64_t)m.size()) R.viol("misuse", "mis_changed", "Count() is %lld, expected %zu, after %s", (long long)d->Count(), m.size(), after);
            size_t n = 0;
            for (auto it = d->begin(); it != d->end(); ++it) {
                auto f = m.find(it.key);
                if (f == m.end() || f->second != val_of(it.value)) R.viol("misuse", "mis_changed", "entry %s changed after %s", hex(it.key).c_str(), after);
                if (++n > m.size()) break;
            }
            if (n != m.size()) R.viol("misuse", "mis_changed", "%zu entries, expected %zu, after %s", n, m.size(), after);
        }
        R.stat("compared");
    }
    void refused(int rc, const char* what, const char* arg)
    {
        R.stat("refused");
        R.sig(fnvs(string(what) + arg, (uint64_t)rc));
        if (rc == MBError::SUCCESS) R.viol("misuse", "mis_accepted", "%s with %s succeeds", what, arg);
    }
    string newkey() { string k = rng.chance(70) ? rng.pick(keys) : string("k") + std::to_string(rng.below(1000)); return k; }
    static const char* desc(const char* k, int len) { return !k ? "a NULL key" : len < 0 ? "a negative key length" : len == 0 ? "an empty key" : len > 256 ? "a key longer than 256" : "a key"; }

    // ---- invalid keys and values on open handles
    void bad_args()
    {
        static const int blen[] = { 0, -1, -7, INT_MIN, 257, 258, 300, 512, 4096, 70000 };
        int len = blen[rng.below(10)];
        string mem = string(70001, (char)('a' + rng.below(3)));
        if (!m.empty() && rng.chance(50)) { const string& k = std::next(m.begin(), rng.below(m.size()))->first; mem.replace(0, k.size(), k); }
        KeyBuf kb(len > 0 ? mem.substr(0, len) : mem.substr(0, 1));
        bool null = rng.chance(20);
        const char* k = null ? nullptr : kb.p;
        if (null && rng.chance(50)) len = rng.range(1, 20);
        DB* d = rng.chance(40) || rd.empty() ? w : rd[rng.below(rd.size())];
        bool writer = d == w, async_w = writer && (mode & 16);
        string v = make_value(rng, rng.next(), 0);
        const char* s = desc(k, len);
        int op = (int)rng.below(16);
        R.op("bad_args op %d on %s: %s %d", op, writer ? "writer" : "reader", s, len);
        switch (op) {
        case 0: refused(d->Add(k, len, v.data(), v.size(), rng.chance(50)), "Add", s); break;
        case 1: refused(d->AddAsync(k, len, v.data(), v.size(), rng.chance(50)), "AddAsync", s); break;
        case 2: { MBData x; uint8_t* b = (uint8_t*)malloc(v.size()); memcpy(b, v.data(), v.size()); x.TransferValueFrom(b, v.size()); refused(d->Add(k, len, x, true), "Add(MBData)", s); break; }
        case 3: refused(d->Remove(k, len), "Remove", s); break;
        case 4: refused(d->RemoveAsync(k, len), "RemoveAsync", s); break;
        case 5: { MBData x; refused(d->Find(k, len, x), "Find", s); break; }
        case 6: {
            MBData x;
            int rc = d->FindLongestPrefix(k, len, x);
            if (!k || len <= 0 || async_w) { refused(rc, "FindLongestPrefix", s); break; }
            string q(k, len);
            drain("updates");
            x.Clear();
            rc = d->FindLongestPrefix(k, len, x);
            const string* best = nullptr;
            for (auto& e : m) if (q.compare(0, e.first.size(), e.first) == 0 && (!best || e.first.size() > best->size())) best = &e.first;
            if (!best ? rc == MBError::SUCCESS : rc != MBError::SUCCESS || x.match_len != (int)best->size() || val_of(x) != m[*best])
                R.viol("misuse", "mis_prefix", "FindLongestPrefix of a query of %d bytes returns %s match %d, expected %s", len, es(rc), x.match_len, best ? hex(*best).c_str() : "none");
            R.stat("long_queries");
            break;
        }
        case 7: {
            MBData x; string b;
            int rc = d->FindLowerBound(k, len, x, &b);
            if (!k || len <= 0 || async_w) { refused(rc, "FindLowerBound", s); break; }
            drain("updates");
            rc = d->FindLowerBound(k, len, x, &b);
            auto it = m.upper_bound(string(k, len));
            if (it == m.begin() ? rc == MBError::SUCCESS : rc != MBError::SUCCESS || b != std::prev(it)->first || val_of(x) != std::prev(it)->second)
                R.viol("misuse", "mis_lower", "FindLowerBound of a query of %d bytes returns %s %s", len, es(rc), hex(b).c_str());
            R.stat("long_queries");
            break;
        }
        case 8: { int e = 0; if (d->InDB(k, len, e)) R.viol("misuse", "mis_accepted", "InDB with %s is true", s); R.stat("refused"); break; }
        case 9: { // bad values
            static const int bl[] = { 0, -1, -100, INT_MIN, 32768, 32769, 65535, 65536, 65537 };
            int dl = bl[rng.below(9)];
            string kk = newkey();
            vector<char> buf(dl > 0 ? dl : 1, 'x');
            const char* t = dl < 0 ? "a negative value length" : dl == 0 ? "an empty value" : "a value longer than 32767";
            R.op("  value length %d key %s", dl, hex(kk).c_str());
            if (rng.chance(50)) refused(d->Add(kk.data(), kk.size(), buf.data(), dl, true), "Add", t);
            else refused(d->AddAsync(kk.data(), kk.size(), buf.data(), dl, true), "AddAsync", t);
            break;
        }
        case 10: { // no value
            string kk = newkey();
            if (rng.chance(50)) refused(d->Add(kk.data(), kk.size(), nullptr, rng.range(1, 100), true), "Add", "a NULL value");
            else { MBData x; x.data_len = rng.chance(50) ? 0 : 10; refused(d->Add(kk.data(), kk.size(), x, true), "Add", "an empty MBData"); }
            break;
        }
        case 11: { string e; refused(d->Add(e, v, true), "Add", "an empty string"); refused(d->Remove(e), "Remove", "an empty string"); string kk = newkey(); refused(d->Add(kk, e, true), "Add", "an empty value"); break; }
        case 12: { // iteration of a prefix nothing has
            if (async_w) break;
            string p = string(rng.range(257, 600), (char)(rng.below(256)));
            for (auto it = d->begin(p); it != d->end(); ++it) R.viol("misuse", "mis_accepted", "iteration of a prefix of %zu bytes yields %s", p.size(), hex(it.key).c_str());
            R.stat("refused");
            break;
        }
        case 13: { // binary keys with zero bytes given as string
            string kk = string("\0z\0", 3) + std::to_string(rng.below(5));
            if (async_w || d != w) break;
            int rc = d->Add(kk, v, true);
            if (rc != MBError::SUCCESS) R.viol("misuse", "mis_valid", "Add of a binary key returns %s", es(rc));
            m[kk] = v;
            break;
        }
        case 14: // not allowed for a reader
            if (writer) break;
            refused(d->RemoveAllSync(), "RemoveAllSync", "a reader handle");
            if (d->GetDictPtr()) R.viol("misuse", "mis_accepted", "GetDictPtr of a reader handle is not NULL");
            if (!(mode & 16)) { // nobody takes it from the queue: it must not be executed here
                int rc = d->CollectResource(0, 0);
                (void)rc;
            }
            break;
        default: // not allowed for an async writer
            if (!async_w) break;
            { MBData x; string kk = newkey(); refused(d->Find(kk, x), "Find", "an async writer handle"); int e = 0; if (d->InDB(kk.data(), kk.size(), e)) R.viol("misuse", "mis_accepted", "InDB of an async writer handle is true"); refused(d->FindLongestPrefix(kk, x), "FindLongestPrefix", "an async writer handle"); }
            break;
        }
        R.stat("bad_args");
    }
    // ---- any call on a handle which is not open
    void bad_handle()
    {
        if (dead.empty()) return;
        Dead& z = dead[rng.below(dead.size())];
        DB* d = z.d;
        const char* s = z.what.c_str();
        string k = newkey(), v = "value";
        int op = (int)rng.below(24);
        R.op("bad_handle op %d: %s", op, s);
        switch (op) {
        case 0: refused(d->Add(k, v, true), "Add", s); break;
        case 1: refused(d->AddAsync(k.data(), k.size(), v.data(), v.size(), true), "AddAsync", s); break;
        case 2: refused(d->Remove(k), "Remove", s); break;
        case 3: refused(d->RemoveAsync(k.data(), k.size()), "RemoveAsync", s); break;
        case 4: refused(d->RemoveAll(), "RemoveAll", s); break;
        case 5: refused(d->RemoveAllSync(), "RemoveAllSync", s); break;
        case 6: { MBData x; refused(d->Find(k, x), "Find", s); break; }
        case 7: { MBData x; refused(d->FindLongestPrefix(k, x), "FindLongestPrefix", s); break; }
        case 8: { MBData x; string b; refused(d->FindLowerBound(k, x, &b), "FindLowerBound", s); break; }
        case 9: { int e = 0; if (d->InDB(k.data(), k.size(), e)) R.viol("misuse", "mis_accepted", "InDB of %s is true", s); break; }
        case 10: refused(d->CollectResource(0, 0), "CollectResource", s); break;
        case 11: { string b = base + "/bk.dead"; mkdir(b.c_str(), 0755); refused(d->Backup(b.c_str()), "Backup", s); break; }
        case 12: if (d->Count() >= 0) R.viol("misuse", "mis_accepted", "Count of %s is %lld", s, (long long)d->Count()); break;
        case 13: for (auto it = d->begin(); it != d->end(); ++it) R.viol("misuse", "mis_accepted", "iteration of %s yields an entry", s); break;
        case 14: for (auto it = d->begin(k); it != d->end(); ++it) R.viol("misuse", "mis_accepted", "iteration of %s yields an entry", s); break;
        case 15: { MBData x; refused(d->ReadDataByOffset(rng.below(10000), x), "ReadDataByOffset", s); break; }
        case 16: refused(d->WriteDataByOffset(rng.below(10000), "xx", 2), "WriteDataByOffset", s); break;
        case 17: if (d->GetDataPtrByOffset(rng.below(10000))) R.viol("misuse", "mis_accepted", "GetDataPtrByOffset of %s", s); break;
        case 18: { std::ostringstream o; d->PrintStats(o); d->PrintHeader(o); d->DumpPrefixCacheStats(o); break; }
        case 19: d->Flush(); d->Purge(); break;
        case 20: (void)d->AsyncWriterBusy(); (void)d->AsyncWriterEnabled(); break;
        case 21: (void)d->GetPendingDataBufferSize(); (void)d->GetPendingIndexBufferSize(); (void)d->StatusStr(); (void)d->GetDBOptions(); (void)d->GetDBDir(); (void)d->GetReaderGuardFastSlotCount(); { MBConfig c; d->GetDBConfig(c); } break;
        case 22: if (d->Lock() == 0) { d->UnLock(); R.viol("misuse", "mis_accepted", "Lock of %s succeeds", s); } (void)d->ClearLock(); break;
        case 23: d->Close(); if (d->is_open()) R.viol("misuse", "mis_accepted", "%s is open after Close", s); break;
        }
        R.stat("bad_handle");
    }
    // ---- opens which must fail, or must not hurt
    void bad_open()
    {
        MBConfig c = conf(rng.chance(60) ? wopt : ropt);
        string what, p;
        int op = (int)rng.below(14);
        bool disk = !(mode & 4);
        switch (op) {
        case 0: c.mbdir = nullptr; what = "a handle opened with a NULL directory"; break;
        case 1: c.mbdir = ""; what = "a handle opened with an empty directory"; break;
        case 2: p = base + "/missing"; c.mbdir = p.c_str(); if (!disk) return; what = "a handle opened with a missing directory"; break;
        case 3: p = base + "/file"; { std::ofstream f(p); f << "x"; } c.mbdir = p.c_str(); if (!disk) return; what = "a handle opened with a file as directory"; break;
        case 4: c.options = wopt; c.block_size_index = 4194304 + rng.range(1, 3); what = "a handle opened with a bad index block size"; break;
        case 5: c.options = wopt; c.block_size_data = 4194304 - rng.range(1, 3); what = "a handle opened with a bad data block size"; break;
        case 6: c.options = wopt; c.num_entry_per_bucket = rng.range(1, 7); what = "a handle opened with a bad bucket size"; break;
        case 7: if (!(mode & 8)) return; c.options = wopt; c.memcap_index = rng.below(1u << 24); what = "a jemalloc handle opened with a bad memcap"; break;
        case 8: if (!(mode & 8)) return; c.options = wopt; c.memcap_data = 1 + rng.below(1u << 24); what = "a jemalloc handle opened with a bad memcap"; break;
        case 9: c.options = ropt; c.block_size_index = 8u << 20; if (!disk) return; what = "a reader opened with another index block size"; break;
        case 10: c.options = ropt; c.block_size_data = 8u << 20; if (!disk) return; what = "a reader opened with another data block size"; break;
        case 11: { // a reader of a directory without database
            p = base + "/empty"; mkdir(p.c_str(), 0755); c.mbdir = p.c_str(); c.options = ropt; what = "a reader of an empty directory"; break;
        }
        case 12: c.options = wopt; what = "a second writer"; break;
        default: { // a database whose header has another version or is cut must not be opened by a reader
            if (!disk || (mode & 8)) return;
            p = base + "/corrupt";
            mkdir(p.c_str(), 0755);
            std::ofstream f(p + "/_mabain_h", std::ios::binary | std::ios::trunc);
            string s(rng.chance(50) ? rng.below(200) : 4096 * 4, (char)rng.below(256));
            f << s;
            f.close();
            c.mbdir = p.c_str();
            c.options = ropt;
            what = "a reader of a corrupted header";
        }
        }
        R.op("bad_open op %d: %s", op, what.c_str());
        bool writer = c.options & CONSTS::ACCESS_MODE_WRITER;
        bool live = rng.chance(60) || !disk || (mode & 8); // a jemalloc database is reset by an open
        if (!live && writer && op >= 4 && op <= 8) { // the invalid open happens while no writer is open
            for (auto r : rd) { r->Close(); dead.push_back({ r, "a closed handle" }); }
            rd.clear();
            w->Close();
            dead.push_back({ w, "a closed handle" });
            w = nullptr;
        }
        // the short constructor has the default block sizes: a writer would create the database again
        DB* d = rng.chance(80) || (writer && op > 3) ? new DB(c) : new DB(c.mbdir, c.options, c.memcap_index, c.memcap_data, 0, c.queue_size);
        if (d->is_open()) {
            // the short constructor has no block sizes
            if (op >= 4 && op <= 6 && (w == nullptr)) { delete d; }
            else if ((op == 9 || op == 10 || op == 7 || op == 8) && !writer) delete d;
            else { R.viol("misuse", "mis_accepted", "%s is open", what.c_str()); delete d; }
        } else dead.push_back({ d, what });
        if (!w) {
            w = open(wopt);
            if (!w->is_open()) R.viol("misuse", "mis_lost", "the database cannot be opened after %s: %s", what.c_str(), w->StatusStr());
            add_reader();
        }
        if (dead.size() > 12) { delete dead[0].d; dead.erase(dead.begin()); }
        R.stat("bad_open");
        R.stat("refused");
    }
    void add_reader()
    {
        DB* d = open(ropt);
        if (!d->is_open()) R.viol("misuse", "mis_lost", "a reader cannot be opened: %s", d->StatusStr());
        rd.push_back(d);
    }
    // ---- values by their offset: places where no value is
    void bad_offset()
    {
        const size_t cap = 16u << 20, block = 4u << 20;
        DB* d = rng.chance(50) || rd.empty() ? w : rd[rng.below(rd.size())];
        static const size_t far[] = { 0, 1, 2, 7, 4095, 4096, (1u << 20) - 1, (4u << 20) - 4, (4u << 20) - 1 };
        size_t off = far[rng.below(9)];
        bool beyond = true;
        switch (rng.below(5)) {
        case 0: off += cap + block * rng.below(3); break;
        case 1: off += (size_t)block << (32 + rng.below(10)); break; // a block number beyond 32 bits
        case 2: off = (size_t)-1 - rng.below(40000); break;
        case 3: off = ((size_t)1 << 63) + off; break;
        default: off += block * rng.below(4); beyond = false; // possibly a place inside
        }
        int op = (int)rng.below(3);
        string what = beyond ? "an offset beyond the database" : "an offset";
        R.op("bad_offset op %d on %s: %zu", op, d == w ? "writer" : "reader", off);
        switch (op) {
        case 0: {
            MBData x;
            int rc = d->ReadDataByOffset(off, x);
            if (beyond) refused(rc, "ReadDataByOffset", what.c_str());
            else if (rc == MBError::SUCCESS) { volatile unsigned sum = 0; for (int i = 0; i < x.data_len; i++) sum += x.buff[i]; R.stat("offset_read"); }
            break;
        }
        case 1: {
            uint8_t* q = d->GetDataPtrByOffset(off);
            if (beyond && q) R.viol("misuse", "mis_accepted", "GetDataPtrByOffset of %s is not NULL", what.c_str());
            R.stat("refused");
            break;
        }
        default: {
            if (mode & 16) break;
            vector<char> buf(rng.range(1, 200), 'w');
            int len = (int)buf.size();
            const char* p = buf.data();
            if (!beyond) {
                off = rng.below(64);
                switch (rng.below(2)) {
                case 0: len = rng.chance(50) ? -1 : -(int)rng.range(2, 1 << 30); what = "a negative length"; break;
                default: p = nullptr; what = "no data"; break;
                }
            }
            refused(w->WriteDataByOffset(off, p, len), "WriteDataByOffset", what.c_str());
        } }
        R.stat("bad_offset");
    }
    void bad_backup()
    {
        string p;
        const char* what;
        switch (rng.below(5)) {
        case 0: what = "a NULL directory"; if ((mode & 16) || !rng.chance(50)) { refused(w->Backup(nullptr), "Backup", what); return; } refused(w->Backup(nullptr), "Backup", what); return;
        case 1: p = base + "/nodir/x"; what = "a missing directory"; break;
        case 2: p = dir; what = "the directory of the database"; break;
        case 3: p = base + "/file2"; { std::ofstream f(p); f << "x"; } what = "a file"; break;
        default: p = string(40000, 'x'); what = "a path of 40000 bytes"; break;
        }
        R.op("bad_backup %s", what);
        int rc = w->Backup(p.c_str());
        if (!(mode & 16)) refused(rc, "Backup", what);
        R.stat("bad_backup");
    }
    void good()
    {
        string k = newkey();
        bool viareader = (mode & 16) && rng.chance(50) && !rd.empty();
        DB* d = viareader ? rd[0] : w;
        int x = (int)rng.below(100);
        if (x < 55) {
            string v = make_value(rng, rng.next(), rng.chance(95) ? 0 : 2);
            R.op("add %s %zu", hex(k).c_str(), v.size());
            int rc;
            do rc = d->Add(k, v, true); while (rc == MBError::TRY_AGAIN && (usleep(100), true));
            if (rc != MBError::SUCCESS) R.viol("misuse", "mis_valid", "Add(%s) returns %s", hex(k).c_str(), es(rc));
            m[k] = v;
        } else if (x < 80) {
            R.op("remove %s", hex(k).c_str());
            int rc;
            do rc = d->Remove(k); while (rc == MBError::TRY_AGAIN && (usleep(100), true));
            bool had = m.erase(k);
            if (rc != (had || (mode & 16) ? MBError::SUCCESS : MBError::NOT_EXIST)) R.viol("misuse", "mis_valid", "Remove(%s) returns %s", hex(k).c_str(), es(rc));
        } else if (x < 82) {
            DB* r = rd.empty() ? nullptr : rd.back();
            if (r) { rd.pop_back(); r->Close(); dead.push_back({ r, "a closed handle" }); DB* c = new DB(*r); // a copy of a closed handle is a new reader
                if (c->is_open()) rd.push_back(c); else R.viol("misuse", "mis_lost", "the copy of a closed reader cannot be opened: %s", c->StatusStr()); }
            else add_reader();
        } else if (x < 84 && rd.size() < 4) add_reader();
        R.stat("good");
    }
    void run(int ops)
    {
        base = mk_scratch(g_root, "mis");
        dir = base + "/db";
        mkdir(dir.c_str(), 0755);
        int modes = (int)a.n("modes", 31);
        do mode = 1 << rng.below(4); while (!(modes & mode));
        if ((modes & 16) && rng.chance(30) && !(mode & 8)) mode |= 16;
        wopt = CONSTS::ACCESS_MODE_WRITER | (mode & 4 ? CONSTS::MEMORY_ONLY_MODE : 0) | (mode & 8 ? CONSTS::OPTION_JEMALLOC : 0) | (mode & 16 ? CONSTS::ASYNC_WRITER_MODE : 0) | (rng.chance(20) ? CONSTS::OPTION_PREFIX_CACHE : 0);
        ropt = CONSTS::ACCESS_MODE_READER | (mode & 4 ? CONSTS::MEMORY_ONLY_MODE : 0);
        int fam = (int)rng.below(KeyGen::NFAM);
        KeyGen g(fam, &rng, 256);
        for (int i = 0; i < 60; i++) keys.push_back(g.next());
        R.trace.clear();
        R.op("mode %d", mode);
        w = open(wopt);
        if (!w->is_open()) { R.viol("misuse", "mis_lost", "the database cannot be opened: %s", w->StatusStr()); return; }
        add_reader();
        if (rng.chance(50)) { // handles that were never valid
            DB* d = new DB(nullptr, rng.chance(50) ? wopt : ropt);
            dead.push_back({ d, "a handle opened with a NULL directory" });
            DB* c = new DB(*d);
            dead.push_back({ c, "a copy of a handle opened with a NULL directory" });
            if (c->is_open()) R.viol("misuse", "mis_accepted", "the copy of a handle without database is open");
        }
        for (int i = 0; i < ops && !R.viols; i++) {
            int x = (int)rng.below(100);
            if (x < 30) good();
            else if (x < 65) bad_args();
            else if (x < 85) bad_handle();
            else if (x < 91) bad_open();
            else if (x < 95) bad_offset();
            else bad_backup();
            if (rng.chance(8)) check("invalid calls");
        }
        check("the last call");
        for (auto r : rd) delete r;
        delete w;
        for (auto& z : dead) delete z.d;
        if (!(mode & 12)) { // a new handle sees the same
            w = open(CONSTS::ACCESS_MODE_WRITER);
            if (!w->is_open()) R.viol("misuse", "mis_lost", "the database cannot be opened again: %s", w->StatusStr());
            rd.clear();
            mode &= ~16;
            check("reopen");
            delete w;
        }
        rm_tree(base);
    }
};

int main(int argc, char** argv)
{
    Args a(argc, argv);
    R.init(a);
    quiet_lib();
    int null = ::open("/dev/null", O_WRONLY);
    dup2(null, 1);
    g_root = a.s("root", "/dev/shm");
    uint64_t seed = (uint64_t)a.n("seed", 1);
    long long cases = a.n("cases", 10), ops = a.n("ops", 300), first = a.n("first", 0);
    for (long long i = first; i < first + cases && !R.viols; i++) {
        R.ctx = "case " + std::to_string(i);
        Case* c = new Case(seed * 1000003ull + (uint64_t)i, a);
        c->run((int)ops);
        R.stat("cases");
        if (i < first + 2) R.sample(R.ctx + " mode " + std::to_string(c->mode));
        delete c;
    }
    R.flush();
    return R.viols ? 3 : 0;
}
