// The system refuses what the library asks for: opening, allocating or mapping a file, a read or a write. Each call is judged
// by what it returns, and when the system gives again, the contents are compared with a map.
#include "common.h"
#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/syscall.h>

using namespace vh;
static Report R;
static string g_root;

// ------------------------------------------------------------------------------------------------ the faults
enum { F_OPEN = 1, F_ALLOC = 2, F_MAP = 4, F_STDIO = 8, F_WRITE = 16, F_READ = 32 };
static struct { bool armed; unsigned mask; int skip, count, err; long long hits, seen; string base; } F;
static bool fault(unsigned kind)
{
    if (!F.armed || !(F.mask & kind)) return false;
    F.seen++;
    if (F.skip > 0) { F.skip--; return false; }
    if (F.count == 0) return false;
    if (F.count > 0) F.count--;
    F.hits++;
    errno = F.err;
    return true;
}
// the library waits seconds for this one
static bool mine(const char* p) { return p && !F.base.empty() && strncmp(p, F.base.c_str(), F.base.size()) == 0 && !strstr(p, "/_mbh_lock"); }
static bool minefd(int fd)
{
    if (!F.armed) return false;
    char l[64], b[512];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(l, b, sizeof b - 1);
    if (n <= 0) return false;
    b[n] = 0;
    return mine(b);
}
extern "C" {
int open(const char* p, int fl, ...)
{
    va_list ap;
    va_start(ap, fl);
    mode_t m = fl & (O_CREAT | O_TMPFILE) ? va_arg(ap, mode_t) : 0;
    va_end(ap);
    if (F.armed && mine(p) && fault(F_OPEN)) return -1;
    return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m);
}
int open64(const char* p, int fl, ...) __attribute__((alias("open")));
FILE* fopen(const char* p, const char* m)
{
    static auto real = (FILE * (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
    if (F.armed && mine(p) && fault(F_STDIO)) return nullptr;
    return real(p, m);
}
size_t fwrite(const void* d, size_t s, size_t n, FILE* f)
{
    static auto real = (size_t(*)(const void*, size_t, size_t, FILE*))dlsym(RTLD_NEXT, "fwrite");
    if (F.armed && minefd(fileno(f)) && fault(F_STDIO)) return 0;
    return real(d, s, n, f);
}
int fallocate(int fd, int m, off_t o, off_t l)
{
    if (F.armed && minefd(fd) && fault(F_ALLOC)) return -1;
    return (int)syscall(SYS_fallocate, fd, m, o, l);
}
int fallocate64(int fd, int m, off_t o, off_t l) __attribute__((alias("fallocate")));
int ftruncate(int fd, off_t l)
{
    if (F.armed && minefd(fd) && fault(F_ALLOC)) return -1;
    return (int)syscall(SYS_ftruncate, fd, l);
}
int ftruncate64(int fd, off_t l) __attribute__((alias("ftruncate")));
int posix_fallocate(int fd, off_t o, off_t l)
{
    if (F.armed && minefd(fd) && fault(F_ALLOC)) return F.err;
    return syscall(SYS_fallocate, fd, 0, o, l) ? errno : 0;
}
void* mmap(void* a, size_t l, int pr, int fl, int fd, off_t o)
{
    if (F.armed && (fl & MAP_SHARED) && (fd < 0 || minefd(fd)) && fault(F_MAP)) return MAP_FAILED;
    return (void*)syscall(SYS_mmap, a, l, pr, fl, fd, o);
}
void* mmap64(void* a, size_t l, int pr, int fl, int fd, off_t o) __attribute__((alias("mmap")));
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    if (F.armed && minefd(fd) && fault(F_WRITE)) return -1;
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) __attribute__((alias("pwrite")));
ssize_t pread(int fd, void* b, size_t n, off_t o)
{
    if (F.armed && minefd(fd) && fault(F_READ)) return -1;
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pread64(int fd, void* b, size_t n, off_t o) __attribute__((alias("pread")));
}

static const char* mname[] = { "mapped", "files", "memory", "jemalloc" };
struct Case {
    Rng rng;
    const Args& a;
    int mode;
    string base, dir;
    std::map<string, string> m;
    vector<string> keys;
    DB *w = nullptr, *r = nullptr;
    bool lost_writer = false;
    Case(uint64_t s, const Args& x) : rng(s), a(x) { }
    MBConfig conf(bool writer)
    {
        MBConfig c {};
        c.mbdir = dir.c_str();
        c.queue_dir = dir.c_str();
        c.options = (writer ? CONSTS::ACCESS_MODE_WRITER : CONSTS::ACCESS_MODE_READER) | (mode == 2 ? CONSTS::MEMORY_ONLY_MODE : 0) | (mode == 3 && writer ? CONSTS::OPTION_JEMALLOC : 0);
        c.block_size_index = c.block_size_data = 4u << 20;
        c.max_num_index_block = c.max_num_data_block = 16;
        c.memcap_index = c.memcap_data = mode == 1 ? 4u << 20 : 64u << 20;
        c.num_entry_per_bucket = 500;
        c.jemalloc_keep_db = mode == 3;
        return c;
    }
    DB* open_db(bool writer) { MBConfig c = conf(writer); return new DB(c); }
    void arm(const char* forwhat)
    {
        static const int errs[] = { ENOSPC, EMFILE, ENOMEM, EIO, EACCES, EINTR };
        int k = rng.below(mode == 1 ? 6 : 4);
        unsigned mask = k == 0 ? F_OPEN : k == 1 ? F_ALLOC : k == 2 ? F_MAP : k == 3 ? (unsigned)(F_OPEN | F_ALLOC | F_MAP | F_STDIO) : k == 4 ? F_WRITE : F_READ;
        if (rng.chance(10)) mask = F_STDIO;
        mask &= (unsigned)a.n("kinds", 63);
        F.mask = mask;
        F.skip = rng.chance(40) ? 0 : rng.below(rng.chance(50) ? 4 : 40);
        F.count = rng.chance(40) ? 1 : rng.chance(50) ? rng.range(2, 5) : -1;
        F.err = errs[rng.below(6)];
        F.hits = F.seen = 0;
        F.armed = true;
        R.op("faults of kind %u for %s: skip %d, count %d, error %d", F.mask, forwhat, F.skip, F.count, F.err);
    }
    bool disarm()
    {
        F.armed = false;
        bool h = F.hits > 0;
        if (h) { R.stat("faulted"); R.stat("faults", F.hits); for (int i = 0; i < 6; i++) if (F.mask & (1u << i)) R.stat("faulted_kind_" + std::to_string(1 << i)); R.op("  %lld faults", F.hits); }
        F.hits = 0;
        return h;
    }
    void compare(DB* d, const char* who, const char* after)
    {
        if (d->Count() != (int64_t)m.size()) R.viol("fault", "flt_count", "%s: Count() of the %s is %lld, expected %zu, after %s", mname[mode], who, (long long)d->Count(), m.size(), after);
        for (auto& e : m) {
            MBData x;
            int rc = d->Find(e.first, x);
            if (rc != MBError::SUCCESS) { R.viol("fault", "flt_missing", "%s: Find(%s) of the %s returns %s after %s", mname[mode], hex(e.first).c_str(), who, es(rc), after); return; }
            if (val_of(x) != e.second) { R.viol("fault", "flt_value", "%s: Find(%s) of the %s returns another value after %s", mname[mode], hex(e.first).c_str(), who, after); return; }
        }
        size_t n = 0;
        for (auto it = d->begin(); it != d->end(); ++it) {
            auto f = m.find(it.key);
            if (f == m.end() || f->second != val_of(it.value)) { R.viol("fault", "flt_iter", "%s: the iteration of the %s shows entry %s which is not there, after %s", mname[mode], who, hex(it.key).c_str(), after); return; }
            if (++n > m.size()) break;
        }
        if (n != m.size()) R.viol("fault", "flt_iter", "%s: %zu entries in the iteration of the %s, expected %zu, after %s", mname[mode], n, who, m.size(), after);
        R.stat("compared");
    }
    void check(const char* after)
    {
        if (w && w->is_open()) compare(w, "writer", after);
        if (r && r->is_open()) compare(r, "reader", after);
    }
    bool big = false;
    string value()
    {
        if (big && rng.chance(80)) { string v(rng.range(8000, 32767), (char)rng.next()); uint64_t x = rng.next(); memcpy(&v[0], &x, 8); memcpy(&v[v.size() - 8], &x, 8); return v; }
        return make_value(rng, rng.next(), rng.chance(60) ? 2 : 0);
    }
    void update()
    {
        string k = rng.pick(keys);
        int x = rng.below(100);
        bool had = m.count(k) > 0;
        long long h0 = F.hits;
        if (x < 75) {
            string v = value();
            R.op("add %s %zu", hex(k).c_str(), v.size());
            int rc = w->Add(k, v, true);
            if (rc == MBError::SUCCESS) m[k] = v;
            else if (F.hits == h0 && !full(rc)) R.viol("fault", "flt_valid", "%s: Add returns %s", mname[mode], es(rc));
            if (rc != MBError::SUCCESS) { R.stat("refused_add"); R.sig(fnvs("add", (uint64_t)(rc * 64 + (int)F.mask) * 8 + (uint64_t)mode)); probe(k, "Add", rc, &v); }
        } else {
            R.op("remove %s", hex(k).c_str());
            int rc = w->Remove(k);
            if (rc == MBError::SUCCESS && had) m.erase(k);
            else if (rc == MBError::SUCCESS && !had) R.viol("fault", "flt_valid", "Remove of an absent key succeeds");
            else if (rc == MBError::NOT_EXIST && !had) { }
            else { if (F.hits == h0) R.viol("fault", "flt_valid", "%s: Remove returns %s", mname[mode], es(rc)); R.stat("refused_remove"); probe(k, "Remove", rc, nullptr); }
        }
        R.stat("updates");
    }
    static bool full(int rc) { return rc == MBError::NO_RESOURCE || rc == MBError::NO_MEMORY || rc == MBError::OUT_OF_BOUND; }
    // an update which meets an I/O error half way is done or not
    void probe(const string& k, const char* what, int rc, const string* v)
    {
        bool ar = F.armed;
        F.armed = false;
        MBData x;
        int q = w->Find(k, x);
        if (F.hits && (F.mask & (F_WRITE | F_READ))) {
            if (v ? q == MBError::SUCCESS && val_of(x) == *v : q == MBError::NOT_EXIST) { if (v) m[k] = *v; else m.erase(k); R.stat("done_though_refused"); }
        }
        auto f = m.find(k);
        if (f == m.end() ? q != MBError::NOT_EXIST : q != MBError::SUCCESS || val_of(x) != f->second)
            R.viol("fault", "flt_half", "%s: %s(%s) fails with %s, and then Find returns %s, expected %s", mname[mode], what, hex(k).c_str(), es(rc), q == MBError::SUCCESS ? "another value" : es(q), f == m.end() ? "NOT_EXIST" : "the previous value");
        F.armed = ar;
    }
    void reads()
    {
        DB* d = rng.chance(50) && r && r->is_open() ? r : w;
        for (int i = 0; i < 20; i++) {
            string k = rng.pick(keys);
            MBData x;
            long long h0 = F.hits;
            int rc = d->Find(k, x);
            auto f = m.find(k);
            bool hit = F.hits > h0;
            if (rc == MBError::SUCCESS) { if (f == m.end() || val_of(x) != f->second) R.viol("fault", "flt_read", "%s: Find(%s) returns a wrong value while the system refuses", mname[mode], hex(k).c_str()); }
            else if (rc == MBError::NOT_EXIST) { if (f != m.end()) R.viol("fault", "flt_read", "%s: Find(%s) returns NOT_EXIST %s", mname[mode], hex(k).c_str(), hit ? "while the system refuses" : ""); }
            else if (!hit && !F.armed) R.viol("fault", "flt_read", "%s: Find(%s) returns %s", mname[mode], hex(k).c_str(), es(rc));
            else R.stat("refused_find");
        }
        R.stat("reads");
    }
    void reopen_writer()
    {
        bool f = rng.chance(60);
        if (mode == 2) return;
        delete w;
        w = nullptr;
        if (rng.chance(50)) { delete r; r = nullptr; DB::ClearResources(dir); }
        if (f) arm("opening the writer");
        R.op("open writer");
        w = open_db(true);
        bool hit = disarm();
        if (!w->is_open()) {
            if (!hit) { R.viol("fault", "flt_open", "%s: the writer cannot be opened: %s", mname[mode], w->StatusStr()); return; }
            R.stat("refused_writer");
            delete w;
            if (!r && rng.chance(50)) DB::ClearResources(dir);
            R.op("open writer again");
            w = open_db(true);
            if (!w->is_open()) { R.viol("fault", "flt_open", "%s: the writer cannot be opened once the system gives again: %s", mname[mode], w->StatusStr()); return; }
        } else R.stat("opened_writer");
        // a rebuild that fails starts the database anew
        if (hit && mode == 3 && w->Count() == 0 && !m.empty()) { R.stat("jemalloc_fresh"); m.clear(); }
        if (!r) { r = open_db(false); if (!r->is_open()) R.viol("fault", "flt_open", "%s: the reader cannot be opened: %s", mname[mode], r->StatusStr()); }
        check(hit ? "a refused opening of the writer" : "reopening");
    }
    void open_reader()
    {
        bool f = rng.chance(70);
        if (f) arm("opening a reader");
        R.op("open reader");
        DB* d = open_db(false);
        bool hit = disarm();
        if (d->is_open()) { compare(d, "new reader", "opening it"); R.stat("opened_reader"); delete r; r = d; }
        else { if (!hit) R.viol("fault", "flt_open", "%s: the reader cannot be opened: %s", mname[mode], d->StatusStr()); R.stat("refused_reader"); delete d; }
    }
    void backup()
    {
        if (mode == 2) return;
        string b = base + "/bk";
        mkdir(b.c_str(), 0755);
        arm("a backup");
        R.op("backup");
        int rc = w->Backup(b.c_str());
        bool hit = disarm();
        if (rc == MBError::SUCCESS) {
            MBConfig c = conf(false);
            string keep = dir;
            c.mbdir = b.c_str();
            DB d(c);
            if (!d.is_open()) R.viol("fault", "flt_backup", "%s: the backup cannot be opened after a successful Backup%s: %s", mname[mode], hit ? " with refusals" : "", d.StatusStr());
            else compare(&d, "backup", hit ? "a Backup with refusals" : "a Backup");
            R.stat("backups");
        } else { if (!hit) R.viol("fault", "flt_backup", "%s: Backup returns %s", mname[mode], es(rc)); R.stat("refused_backup"); }
        DB::ClearResources(b);
        rm_tree(b);
    }
    void run(int ops)
    {
        base = mk_scratch(g_root, "flt");
        F.base = base;
        dir = base + "/db";
        mkdir_or_die(dir);
        int modes = (int)a.n("modes", 15);
        do mode = (int)rng.below(4); while (!(modes & (1 << mode)));
        KeyGen g((int)rng.below(KeyGen::NFAM), &rng, 256);
        big = rng.chance(75);
        int nk = rng.range(20, big ? 1000 : 400);
        for (int i = 0; i < nk; i++) keys.push_back(g.next());
        R.trace.clear();
        R.op("mode %s", mname[mode]);
        if (rng.chance(30) && mode != 2) { // the very creation
            arm("creating the database");
            w = open_db(true);
            bool hit = disarm();
            if (!w->is_open()) {
                if (!hit) { R.viol("fault", "flt_open", "%s: the database cannot be created: %s", mname[mode], w->StatusStr()); return; }
                R.stat("refused_creation");
                delete w;
                if (rng.chance(50)) DB::ClearResources(dir);
                w = open_db(true);
            }
        } else w = open_db(true);
        if (!w->is_open()) { R.viol("fault", "flt_open", "%s: the database cannot be created: %s", mname[mode], w->StatusStr()); return; }
        r = open_db(false);
        if (!r->is_open()) { R.viol("fault", "flt_open", "%s: the reader cannot be opened: %s", mname[mode], r->StatusStr()); return; }
        if (mode == 1 && rng.chance(20)) { // the index is beyond the memory cap
            R.op("index of two blocks");
            vector<string> ks;
            for (int i = 0; i < 45000; i++) {
                uint64_t x = rng.next();
                string k((const char*)&x, rng.range(4, 8)), v((const char*)&x, 3);
                if (w->Add(k, v, true) != MBError::SUCCESS) { R.viol("fault", "flt_valid", "%s: Add fails", mname[mode]); return; }
                m[k] = v;
                ks.push_back(k);
            }
            keys.clear();
            for (int i = 0; i < 500; i++) keys.push_back(rng.chance(70) ? rng.pick(ks) : rng.pick(ks) + "x");
            ops = ops / 5;
            R.stat("wide_index");
        }
        int left = 0;
        for (int i = 0; i < ops && !R.viols; i++) {
            if (left > 0 && (--left == 0 || F.hits > 3)) { bool h = disarm(); left = 0; if (h) check("updates with refusals"); }
            int x = rng.below(1000);
            if (left) { if (x < 900) update(); else reads(); continue; }
            if (x < 880) update();
            else if (x < 920) reads();
            else if (x < 940) { arm("updates"); left = rng.range(20, 200); }
            else if (x < 950) open_reader();
            else if (x < 960) reopen_writer();
            else if (x < 968) backup();
            else if (x < 984) {
                bool f = rng.chance(70);
                if (f) arm("a collection");
                R.op("collect");
                w->CollectResource(1, 1, MAX_6B_OFFSET, 0xFFFFFFFFFFFF);
                bool h = disarm();
                R.stat("collections");
                if (mode != 2 || !h || 1) check(h ? "a collection with refusals" : "a collection");
            } else if (x < 988) {
                arm("RemoveAll");
                R.op("removeall");
                int rc = w->RemoveAll();
                bool h = disarm();
                if (rc == MBError::SUCCESS) m.clear();
                else if (!h) R.viol("fault", "flt_valid", "%s: RemoveAll returns %s", mname[mode], es(rc));
                else { // emptied or not, and can be done again
                    R.stat("refused_removeall");
                    rc = w->RemoveAll();
                    if (rc != MBError::SUCCESS) R.viol("fault", "flt_valid", "%s: RemoveAll returns %s after one that was refused", mname[mode], es(rc));
                    m.clear();
                }
                check("RemoveAll");
            }
        }
        disarm();
        check("the last call");
        delete r;
        delete w;
        DB::ClearResources(dir);
        if (mode != 2 && !R.viols) {
            w = open_db(true);
            if (!w->is_open()) R.viol("fault", "flt_open", "%s: the database cannot be opened again: %s", mname[mode], w->StatusStr());
            else compare(w, "writer", "the last reopening");
            delete w;
            DB::ClearResources(dir);
        }
        rm_tree(base);
    }
};

int main(int argc, char** argv)
{
    Args a(argc, argv);
    R.init(a);
    quiet_lib();
    int null = ::open("/dev/null", O_WRONLY);
    if (a.has("out")) dup2(null, 1);
    if (!getenv("VH_ECHO") && !getenv("VH_LOG")) dup2(null, 2);
    g_root = a.s("root", "/dev/shm");
    uint64_t seed = (uint64_t)a.n("seed", 1);
    long long cases = a.n("cases", 10), ops = a.n("ops", 1500), first = a.n("first", 0);
    for (long long i = first; i < first + cases && !R.viols; i++) {
        R.ctx = "case " + std::to_string(i);
        Case* c = new Case(seed * 1000003ull + (uint64_t)i, a);
        c->run((int)ops);
        R.stat("cases");
        R.stat(string("cases_") + mname[c->mode]);
        if (i < first + 2) R.sample(R.ctx + " mode " + mname[c->mode]);
        delete c;
    }
    R.flush();
    return R.viols ? 3 : 0;
}
