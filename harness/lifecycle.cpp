// Handles of several processes on several databases are opened, copied, assigned, used, closed (also twice), destroyed and killed.
// At most one writer per database is open at any moment, whoever asks; a failed attempt changes nothing;
// every open handle sees exactly what the writers wrote.
#include "common.h"
#include <pthread.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/wait.h>

using namespace vh;
static Report R;
static string g_root;

enum { C_OPEN, C_PAROPEN, C_CLOSE, C_DELETE, C_ADD, C_REMOVE, C_REMOVEALL, C_FIND, C_INDB, C_COUNT, C_ITER, C_COPY, C_ASSIGN, C_WAIT, C_CLEAR, C_PFX, C_BAD, C_EXIT, C_QUIT };
static const char* cname[] = { "open", "paropen", "close", "delete", "add", "remove", "removeall", "find", "indb", "count", "iter", "copy", "assign", "wait", "clear", "prefix", "failing open", "exit", "quit" };
enum { NH = 6 };
struct Cmd { int op, h, h2, opt, n, kind; unsigned q; char dir[160]; char k[64]; char v[64]; };
struct Rep { int rc, open, rc2, n; long long count; uint64_t hash; char v[80]; };

static string cat(const string& k, const string& v) { return k + "=" + v + ";"; }

// ---------------------------------------------------------------- worker
struct Worker {
    DB* h[NH] = {};
    vector<DB*> junk;
    static MBConfig conf(const Cmd& c)
    {
        MBConfig m {};
        m.mbdir = c.dir;
        m.options = c.opt;
        m.block_size_index = m.block_size_data = 4u << 20;
        m.memcap_index = m.memcap_data = 8u << 20;
        m.max_num_index_block = m.max_num_data_block = 16;
        m.num_entry_per_bucket = 64;
        m.queue_size = c.q;
        m.queue_dir = c.dir;
        if (c.opt & CONSTS::OPTION_JEMALLOC) {
            m.memcap_index = m.memcap_data = 16ull * (4u << 20);
            m.jemalloc_keep_db = c.kind == 2;
        }
        if (c.kind == 1) m.data_size = 1 << 20; // larger than any value
        return m;
    }
    struct Par { const Cmd* c; DB* d; pthread_barrier_t* b; };
    static void* par(void* p)
    {
        Par* x = (Par*)p;
        MBConfig m = conf(*x->c);
        pthread_barrier_wait(x->b);
        x->d = new DB(m);
        return nullptr;
    }
    Rep exec(const Cmd& c)
    {
        Rep r;
        memset(&r, 0, sizeof r);
        DB*& d = h[c.h];
        switch (c.op) {
        case C_OPEN: {
            MBConfig m = conf(c);
            d = new DB(m);
            r.rc = d->Status(); r.open = d->is_open();
            break;
        }
        case C_PAROPEN: {
            vector<Par> ps(c.n);
            vector<pthread_t> ts(c.n);
            pthread_barrier_t b;
            pthread_barrier_init(&b, nullptr, c.n);
            for (int i = 0; i < c.n; i++) { ps[i] = { &c, nullptr, &b }; pthread_create(&ts[i], nullptr, par, &ps[i]); }
            for (int i = 0; i < c.n; i++) pthread_join(ts[i], nullptr);
            for (int i = 0; i < c.n; i++) {
                if (ps[i].d->is_open()) { r.open++; if (d) junk.push_back(ps[i].d); else d = ps[i].d; }
                else { r.rc2 += ps[i].d->Status() != MBError::WRITER_EXIST; if (r.rc2 && !r.rc) r.rc = ps[i].d->Status(); delete ps[i].d; }
            }
            pthread_barrier_destroy(&b);
            break;
        }
        case C_CLOSE: r.rc = d->Close(); r.open = d->is_open(); break;
        case C_DELETE: delete d; d = nullptr; break;
        case C_ADD: r.rc = d->Add(c.k, strlen(c.k), c.v, strlen(c.v), true); break;
        case C_REMOVE: r.rc = d->Remove(c.k, strlen(c.k)); break;
        case C_REMOVEALL: r.rc = d->RemoveAll(); break;
        case C_FIND: { MBData x; r.rc = d->Find(c.k, strlen(c.k), x); if (r.rc == MBError::SUCCESS) { r.n = x.data_len; memcpy(r.v, x.buff, std::min(x.data_len, 79)); } break; }
        case C_PFX: { MBData x; r.rc = d->FindLongestPrefix(c.k, strlen(c.k), x); if (r.rc == MBError::SUCCESS) { r.n = x.data_len; memcpy(r.v, x.buff, std::min(x.data_len, 79)); } break; }
        case C_INDB: { int e = 0; r.n = d->InDB(c.k, strlen(c.k), e); r.rc = e; break; }
        case C_COUNT: r.count = d->Count(); break;
        case C_ITER:
            for (auto it = d->begin(); it != d->end(); ++it) {
                r.hash += fnvs(cat(it.key, string((char*)it.value.buff, it.value.data_len)), 7);
                if (++r.count > 100000) break;
            }
            break;
        case C_COPY: h[c.h2] = new DB(*d); r.rc = h[c.h2]->Status(); r.open = h[c.h2]->is_open(); break;
        case C_ASSIGN: *h[c.h2] = *d; r.rc = h[c.h2]->Status(); r.open = h[c.h2]->is_open(); break;
        case C_WAIT: for (int i = 0; i < 200000 && d->AsyncWriterBusy(); i++) usleep(50); r.rc = d->AsyncWriterBusy(); break;
        case C_CLEAR: DB::ClearResources(c.dir); break;
        case C_BAD: { // an open which fails; the handle is destroyed, closed or used again
            MBConfig m = conf(c);
            DB* b = new DB(m);
            r.rc = b->Status(); r.open = b->is_open();
            if (c.n == 1) b->Close();
            if (c.n == 2) { b->Close(); b->Close(); }
            if (c.n == 3) { MBConfig x = conf(c); x.mbdir = "/nonexistent-database"; x.options = CONSTS::ACCESS_MODE_READER; DB o(x); *b = o; }
            if (c.n == 4) r.rc2 = b->Add(c.k, strlen(c.k), "x", 1, true);
            delete b;
            break;
        }
        case C_EXIT: _exit(0);
        case C_QUIT: for (auto& x : h) delete x; for (auto x : junk) delete x; _exit(0);
        }
        return r;
    }
    void loop(int fd)
    {
        Cmd c;
        while (read(fd, &c, sizeof c) == sizeof c) {
            Rep r = exec(c);
            if (write(fd, &r, sizeof r) != sizeof r) _exit(5);
        }
        _exit(0);
    }
};

// ---------------------------------------------------------------- controller
struct HS { int st = 0; int db = -1; bool writer = false, async = false; int opt = 0; }; // st 0 none, 1 open, 2 not open
struct DBS { string dir; bool exists = false; int hw = -1, hh = -1; bool async = false; bool pfx = false; std::map<string, string> m; unsigned q; };
struct Case {
    Rng rng;
    const Args& a;
    vector<int> fds;
    vector<pid_t> pids;
    vector<vector<HS>> hs;
    vector<DBS> dbs;
    string base;
    int vid = 0;
    Case(uint64_t s, const Args& args) : rng(s), a(args) { }
    static const char* es(int rc) { return MBError::get_error_str(rc); }

    void spawn(int w)
    {
        int sp[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, sp)) { perror("socketpair"); _exit(2); }
        fflush(NULL);
        pid_t p = fork();
        if (p == 0) {
            for (int f : fds) if (f >= 0) close(f);
            close(sp[0]);
            Worker k;
            k.loop(sp[1]);
        }
        close(sp[1]);
        fds[w] = sp[0];
        pids[w] = p;
        hs[w].assign(NH, HS());
    }
    Cmd mk(int op, int h, int db)
    {
        Cmd c;
        memset(&c, 0, sizeof c);
        c.op = op; c.h = h;
        if (db >= 0) {
            static const char* sp[] = { "", "/", "/.", "//", "/./", "-link", "-link/" };
            snprintf(c.dir, sizeof c.dir, "%s%s", dbs[db].dir.c_str(), op != C_OPEN && op != C_PAROPEN ? "" : rng.chance(60) ? "" : sp[rng.below(7)]);
            c.q = dbs[db].q;
        }
        return c;
    }
    void send(int w, const Cmd& c)
    {
        R.op("w%d h%d %s%s%s %s %s opt=%x", w, c.h, cname[c.op], c.op == C_COPY || c.op == C_ASSIGN ? " -> h" : "", c.op == C_COPY || c.op == C_ASSIGN ? std::to_string(c.h2).c_str() : "", c.dir[0] ? c.dir + base.size() : "", c.k, c.opt);
        if (write(fds[w], &c, sizeof c) != sizeof c) R.viol("life", "life_crash", "worker %d is gone before %s", w, cname[c.op]);
    }
    Rep recv(int w, const char* what)
    {
        Rep r;
        memset(&r, 0, sizeof r);
        pollfd p { fds[w], POLLIN, 0 };
        int n = poll(&p, 1, 60000);
        if (n == 0) { R.viol("life", "life_hang", "%s does not return within 60 s", what); return r; }
        if (read(fds[w], &r, sizeof r) != sizeof r) {
            int st = 0;
            waitpid(pids[w], &st, 0);
            R.viol("life", "life_crash", "the process died in %s (status %x)", what, st);
        } else if (a.has("log")) R.op("   = %s (%d) open %d n %d count %lld", es(r.rc), r.rc, r.open, r.n, r.count);
        return r;
    }
    Rep call(int w, const Cmd& c) { send(w, c); R.stat(string("op_") + cname[c.op]); return recv(w, cname[c.op]); }

    int wopt(int db, bool async) { return CONSTS::ACCESS_MODE_WRITER | (async ? CONSTS::ASYNC_WRITER_MODE : 0) | (dbs[db].pfx ? CONSTS::OPTION_PREFIX_CACHE : 0); }
    void gone(int w)
    {
        for (auto& d : dbs) if (d.hw == w) d.hw = d.hh = -1;
        hs[w].assign(NH, HS());
    }
    string handles(int db)
    {
        string s;
        for (size_t w = 0; w < hs.size(); w++) for (int h = 0; h < NH; h++) if (hs[w][h].db == db) s += " w" + std::to_string(w) + "h" + std::to_string(h) + (hs[w][h].st == 1 ? hs[w][h].writer ? ":writer" : ":reader" : ":closed");
        return s;
    }
    // the handle is compared with the model
    void verify(int w, int h)
    {
        HS& s = hs[w][h];
        DBS& d = dbs[s.db];
        Cmd c = mk(C_COUNT, h, s.db);
        Rep r = call(w, c);
        if (r.count != (long long)d.m.size()) R.viol("life", "life_count", "Count() of w%dh%d is %lld, expected %zu", w, h, r.count, d.m.size());
        if (s.writer && s.async) return;
        r = call(w, mk(C_ITER, h, s.db));
        uint64_t hash = 0;
        for (auto& e : d.m) hash += fnvs(cat(e.first, e.second), 7);
        if (r.count != (long long)d.m.size() || r.hash != hash) R.viol("life", "life_content", "w%dh%d (%s) iterates %lld entries which are not the %zu expected ones", w, h, s.writer ? "writer" : "reader", r.count, d.m.size());
        R.stat("verified");
    }
    // A writer which fails to open leaves nothing behind: the next one opens, in whichever process.
    void failing(int w)
    {
        int h = -1, w2 = (int)rng.below(fds.size()), h2 = -1;
        for (int j = 0; j < NH; j++) { if (!hs[w][j].st) h = j; }
        for (int j = 0; j < NH; j++) { if (!hs[w2][j].st) h2 = j; }
        if (h < 0 || h2 < 0) return;
        Cmd c = mk(C_BAD, h, -1);
        snprintf(c.dir, sizeof c.dir, "%s/x%d", base.c_str(), vid++);
        mkdir(c.dir, 0755);
        c.q = 16;
        c.n = (int)rng.below(5);
        bool jem = rng.chance(50);
        string v;
        if (jem) {
            v = "v" + std::to_string(vid++);
            Cmd o = c;
            o.op = C_OPEN; o.opt = CONSTS::ACCESS_MODE_WRITER | CONSTS::OPTION_JEMALLOC; o.kind = 2;
            Rep r = call(w, o);
            if (!r.open) R.viol("life", "life_exclusive", "the writer of a new jemalloc database does not open: %s", es(r.rc));
            Cmd u = mk(C_ADD, h, -1);
            strcpy(u.k, "key"); strcpy(u.v, v.c_str());
            call(w, u);
            call(w, mk(C_DELETE, h, -1));
            c.opt = o.opt | CONSTS::ASYNC_WRITER_MODE; // an existing one is not opened this way
            c.kind = 2;
        } else { c.opt = CONSTS::ACCESS_MODE_WRITER; c.kind = 1; }
        strcpy(c.k, "other");
        int attempts = rng.range(1, 2);
        for (int i = 0; i < attempts && !R.viols; i++) {
            Rep r = call(w, c);
            if (r.open) { R.stat("bad_open_succeeds"); return; }
            if (r.rc == MBError::WRITER_EXIST) R.viol("life", "life_exclusive", "opening a writer with an unusable configuration fails with %s though no writer has the database", es(r.rc));
            if (c.n == 4 && r.rc2 == MBError::SUCCESS) R.viol("life", "life_closed_use", "an update of a handle which failed to open succeeds");
        }
        Cmd o = c;
        o.op = C_OPEN; o.h = h2; o.opt = CONSTS::ACCESS_MODE_WRITER | (jem ? CONSTS::OPTION_JEMALLOC : 0); o.kind = jem ? 2 : 0;
        Rep r = call(w2, o);
        if (!r.open) R.viol("life", "life_exclusive", "after a writer failed to open in %s process, no writer opens: %s", w == w2 ? "the same" : "another", es(r.rc));
        else {
            Cmd f = mk(C_FIND, h2, -1);
            strcpy(f.k, "key");
            r = call(w2, f);
            if (jem && (r.rc != MBError::SUCCESS || string(r.v, r.n) != v)) R.viol("life", "life_content", "after a writer failed to open, the database does not have its entry any more: %s", es(r.rc));
            if (!jem && r.rc != MBError::NOT_EXIST) R.viol("life", "life_content", "lookup in the new database: %s", es(r.rc));
            strcpy(f.k, "other");
            r = call(w2, f);
            if (r.rc != MBError::NOT_EXIST) R.viol("life", "life_content", "lookup of a key never added: %s", es(r.rc));
        }
        call(w2, mk(C_DELETE, h2, -1));
        R.stat(jem ? "failed_open_jemalloc" : "failed_open_size");
        R.stat("failed_open");
    }
    void one(int step)
    {
        if (rng.chance(2)) { failing((int)rng.below(fds.size())); return; }
        int w = (int)rng.below(fds.size()), h = (int)rng.below(NH), db = (int)rng.below(dbs.size());
        HS& s = hs[w][h];
        DBS& d = dbs[db];
        int x = (int)rng.below(100);
        if (x < 30) { // open
            if (s.st == 2 && rng.chance(70)) { call(w, mk(C_DELETE, h, -1)); s = HS(); }
            if (s.st) return;
            bool writer = rng.chance(65), async = writer && rng.chance(30);
            if (writer && rng.chance(15)) { // several threads or several processes at the same moment
                bool held = d.hw >= 0;
                if (rng.chance(50)) {
                    Cmd c = mk(C_PAROPEN, h, db);
                    c.opt = wopt(db, async);
                    c.n = rng.range(2, 4);
                    Rep r = call(w, c);
                    R.stat("paropen");
                    if (r.open != (held ? 0 : 1)) R.viol("life", "life_exclusive", "%d of %d threads opened a writer at the same moment%s", r.open, c.n, held ? " though there is one already" : "");
                    if (r.rc2) R.viol("life", "life_status", "an attempt to open a second writer fails with %s", es(r.rc));
                    if (r.open == 1) { s.st = 1; s.db = db; s.writer = true; s.async = async; s.opt = c.opt; d.hw = w; d.hh = h; d.async = async; d.exists = true; }
                } else {
                    int got = 0;
                    vector<int> slot(fds.size(), -1);
                    Cmd c = mk(C_OPEN, h, db);
                    c.opt = wopt(db, async);
                    for (size_t i = 0; i < fds.size(); i++)
                        for (int j = 0; j < NH && slot[i] < 0; j++) if (!hs[i][j].st) slot[i] = j;
                    vector<int> rd(fds.size(), 0);
                    bool mixed = rng.chance(50);
                    for (size_t i = 0; i < fds.size(); i++) if (slot[i] >= 0) {
                        rd[i] = mixed && rng.chance(60);
                        c.h = slot[i];
                        c.opt = rd[i] ? CONSTS::ACCESS_MODE_READER : wopt(db, async);
                        send((int)i, c);
                    }
                    c.opt = wopt(db, async);
                    int nwr = 0;
                    R.stat("racing_opens");
                    bool existed = d.exists;
                    for (size_t i = 0; i < fds.size(); i++) if (slot[i] >= 0) {
                        Rep r = recv((int)i, "open");
                        HS& t = hs[i][slot[i]];
                        if (rd[i]) {
                            t.st = r.open ? 1 : 2; t.db = db; t.writer = t.async = false; t.opt = 0;
                            if (existed && !r.open) R.viol("life", "life_reader", "opening a reader while a writer opens fails: %s", es(r.rc));
                            R.stat(r.open ? "racing_reader_opened" : "racing_reader_refused");
                            continue;
                        }
                        nwr++;
                        t.st = r.open ? 1 : 2; t.db = db; t.writer = true; t.async = async; t.opt = c.opt;
                        if (r.open) { got++; d.hw = (int)i; d.hh = slot[i]; d.async = async; d.exists = true; }
                        else if (r.rc != MBError::WRITER_EXIST) R.viol("life", "life_status", "an attempt to open a second writer fails with %s", es(r.rc));
                    }
                    for (size_t i = 0; i < fds.size(); i++) if (slot[i] >= 0 && hs[i][slot[i]].st == 1) verify((int)i, slot[i]);
                    if (got != (held || !nwr ? 0 : 1)) R.viol("life", "life_exclusive", "%d processes opened a writer at the same moment%s", got, held ? " though there is one already" : "");
                }
                return;
            }
            Cmd c = mk(C_OPEN, h, db);
            c.opt = writer ? wopt(db, async) : CONSTS::ACCESS_MODE_READER;
            Rep r = call(w, c);
            s.st = r.open ? 1 : 2; s.db = db; s.writer = writer; s.async = async; s.opt = c.opt;
            bool want = writer ? d.hw < 0 : d.exists;
            if ((r.open != 0) != want) R.viol("life", writer ? "life_exclusive" : "life_reader", "opening a %s %s (%s); handles:%s", writer ? "writer" : "reader", r.open ? "succeeds" : "fails", es(r.rc), handles(db).c_str());
            if (writer && !r.open && r.rc != MBError::WRITER_EXIST) R.viol("life", "life_status", "opening a second writer fails with %s", es(r.rc));
            if (!writer && !r.open && r.rc != MBError::NO_DB) R.viol("life", "life_status", "opening a reader of a database which does not exist fails with %s", es(r.rc));
            R.stat(writer ? r.open ? "writer_opened" : "writer_refused" : r.open ? "reader_opened" : "reader_refused");
            if (writer && r.open) { d.hw = w; d.hh = h; d.async = async; d.exists = true; }
            R.sig(fnvs(handles(db), (uint64_t)w * 64 + h));
            if (r.open) verify(w, h);
        } else if (x < 42) { // close, sometimes twice, sometimes racing with an open
            if (!s.st) return;
            bool was = s.st == 1 && s.writer;
            Cmd c = mk(C_CLOSE, h, -1);
            if (was && rng.chance(30) && fds.size() > 1) {
                int w2 = (w + 1) % (int)fds.size(), h2 = -1;
                for (int j = 0; j < NH && h2 < 0; j++) if (!hs[w2][j].st) h2 = j;
                if (h2 >= 0) {
                    DBS& e = dbs[s.db];
                    Cmd o = mk(C_OPEN, h2, s.db);
                    o.opt = wopt(s.db, false);
                    send(w, c);
                    send(w2, o);
                    Rep r = recv(w, "close"), r2 = recv(w2, "open");
                    (void)r;
                    HS& t = hs[w2][h2];
                    s.st = 2; e.hw = e.hh = -1;
                    t.st = r2.open ? 1 : 2; t.db = s.db; t.writer = true; t.async = false; t.opt = o.opt;
                    if (r2.open) { e.hw = w2; e.hh = h2; e.async = false; verify(w2, h2); }
                    else if (r2.rc != MBError::WRITER_EXIST) R.viol("life", "life_status", "opening a writer while another one closes fails with %s", es(r2.rc));
                    R.stat("close_race");
                    return;
                }
            }
            Rep r = call(w, c);
            if (s.st == 1 && r.rc != MBError::SUCCESS) R.viol("life", "life_close", "Close() returns %s", es(r.rc));
            if (r.open) R.viol("life", "life_close", "is_open() after Close()");
            if (s.st == 2) R.stat("closed_again");
            if (was) { DBS& e = dbs[s.db]; e.hw = e.hh = -1; }
            s.st = 2;
        } else if (x < 48) { // destroy
            if (!s.st) return;
            call(w, mk(C_DELETE, h, -1));
            if (s.st == 1 && s.writer) { DBS& e = dbs[s.db]; e.hw = e.hh = -1; }
            s = HS();
        } else if (x < 54) { // copy
            int h2 = (int)rng.below(NH);
            if (!s.st || hs[w][h2].st || h2 == h || s.db < 0) return;
            Cmd c = mk(C_COPY, h, -1);
            c.h2 = h2;
            Rep r = call(w, c);
            HS& t = hs[w][h2];
            t = HS();
            t.st = r.open ? 1 : 2; t.db = s.db;
            if (s.st == 1 && !r.open) R.viol("life", "life_copy", "the copy of an open handle is not open: %s", es(r.rc));
            R.stat("copies");
            if (r.open) verify(w, h2);
        } else if (x < 58) { // assign
            int h2 = (int)rng.below(NH);
            HS& t = hs[w][h2];
            if (!s.st || !t.st || h2 == h || s.db < 0) return;
            bool was = t.st == 1 && t.writer;
            Cmd c = mk(C_ASSIGN, h, -1);
            c.h2 = h2;
            Rep r = call(w, c);
            if (was) { DBS& e = dbs[t.db]; e.hw = e.hh = -1; }
            t = s;
            t.st = r.open ? 1 : 2;
            DBS& e = dbs[s.db];
            bool want = s.writer ? e.hw < 0 : e.exists;
            if ((r.open != 0) != want) R.viol("life", s.writer ? "life_exclusive" : "life_reader", "assigning a %s %s (%s); handles:%s", s.writer ? "writer" : "reader", r.open ? "opens it" : "does not open it", es(r.rc), handles(s.db).c_str());
            if (r.open && s.writer) { e.hw = w; e.hh = h2; e.async = s.async; e.exists = true; }
            R.stat("assigns");
            if (r.open) verify(w, h2);
        } else if (x < 61) { // a process ends
            int how = (int)rng.below(3);
            if (how == 0) { kill(pids[w], SIGKILL); }
            else { Cmd c = mk(how == 1 ? C_EXIT : C_QUIT, 0, -1); send(w, c); }
            int st;
            waitpid(pids[w], &st, 0);
            if (how == 2 && (!WIFEXITED(st) || WEXITSTATUS(st))) R.viol("life", "life_crash", "the process died while its handles were destroyed (status %x)", st);
            close(fds[w]);
            fds[w] = -1;
            gone(w);
            spawn(w);
            R.stat(how == 0 ? "killed" : how == 1 ? "exited" : "quit");
        } else if (x < 63) {
            bool any = false;
            for (auto& t : hs[w]) any |= t.st && dbs[t.db].dir.compare(0, d.dir.size(), d.dir) == 0; // also clears what is below the path
            if (!any) call(w, mk(C_CLEAR, 0, db));
        } else { // use
            if (!s.st || s.db < 0) return;
            DBS& e = dbs[s.db];
            Cmd c = mk(C_FIND, h, -1);
            snprintf(c.k, sizeof c.k, "%c%s%d", 'a' + (int)rng.below(3), rng.chance(50) ? "long-common-part/" : "", (int)rng.below(12));
            snprintf(c.v, sizeof c.v, "v%d-%d-%d", s.db, vid++, w);
            int y = (int)rng.below(100);
            if (s.st == 2) { // not open: refused, and nothing happens
                c.op = y < 30 ? C_ADD : y < 50 ? C_REMOVE : y < 60 ? C_REMOVEALL : y < 80 ? C_FIND : y < 90 ? C_PFX : C_INDB;
                Rep r = call(w, c);
                if ((c.op == C_INDB ? r.n != 0 : r.rc == MBError::SUCCESS)) R.viol("life", "life_closed_use", "%s of a handle which is not open succeeds", cname[c.op]);
                R.stat("closed_use");
                return;
            }
            bool upd = s.writer || (e.hw >= 0 && e.async);
            if (y < 55 && upd) {
                c.op = y < 38 ? C_ADD : y < 53 ? C_REMOVE : C_REMOVEALL;
                if (c.op == C_REMOVE && !e.m.empty() && rng.chance(70)) { auto it = e.m.begin(); std::advance(it, rng.below(e.m.size())); snprintf(c.k, sizeof c.k, "%s", it->first.c_str()); }
                bool had = e.m.count(c.k);
                bool queued = !s.writer || (s.async && c.op != C_ADD);
                Rep r = call(w, c);
                int want = c.op == C_REMOVE && !had && !queued ? MBError::NOT_EXIST : MBError::SUCCESS;
                if (r.rc != want) R.viol("life", "life_update", "%s(%s) of a %s returns %s, expected %s", cname[c.op], c.k, s.writer ? "writer" : "client", es(r.rc), es(want));
                if (c.op == C_ADD) e.m[c.k] = c.v;
                else if (c.op == C_REMOVE) e.m.erase(c.k);
                else e.m.clear();
                if (s.async || !s.writer) {
                    Rep q = call(e.hw, mk(C_WAIT, e.hh, -1));
                    if (q.rc) R.viol("life", "life_queue", "the async writer is still busy after 10 s");
                }
                R.stat("updates");
            } else if (s.writer && s.async) return;
            else if (y < 85) {
                c.op = y < 72 ? C_FIND : C_INDB;
                if (!e.m.empty() && rng.chance(60)) { auto it = e.m.begin(); std::advance(it, rng.below(e.m.size())); snprintf(c.k, sizeof c.k, "%s", it->first.c_str()); }
                Rep r = call(w, c);
                auto it = e.m.find(c.k);
                bool ok = c.op == C_INDB ? (r.n != 0) == (it != e.m.end()) && !r.rc : it == e.m.end() ? r.rc == MBError::NOT_EXIST : r.rc == MBError::SUCCESS && string(r.v, r.n) == it->second;
                if (!ok) R.viol("life", "life_content", "%s(%s) of w%dh%d (%s) returns %s %s, expected %s", cname[c.op], c.k, w, h, s.writer ? "writer" : "reader", es(r.rc), r.v, it == e.m.end() ? "nothing" : it->second.c_str());
                R.stat("lookups");
            } else verify(w, h);
        }
        (void)step;
    }
    void run(int steps)
    {
        base = mk_scratch(g_root, "life");
        int nw = rng.range(2, 4), nd = rng.range(1, 3);
        for (int i = 0; i < nd; i++) {
            DBS d;
            d.dir = base + (i == 0 ? "/db" : i == 1 ? "/db2" : "/db/sub"); // one path is the prefix of another
            d.pfx = rng.chance(15);
            d.q = rng.range(4, 64);
            mkdir(d.dir.c_str(), 0755);
            if (symlink(d.dir.c_str(), (d.dir + "-link").c_str())) { perror("symlink"); _exit(2); }
            dbs.push_back(d);
        }
        fds.assign(nw, -1); pids.assign(nw, 0); hs.resize(nw);
        R.trace.clear();
        for (int i = 0; i < nw; i++) spawn(i);
        for (int i = 0; i < steps && !R.viols; i++) one(i);
        // at the end: everything is closed and each database can be opened by a new process
        for (int i = 0; i < nw; i++) {
            if (R.viols) kill(pids[i], SIGKILL);
            else { Cmd c = mk(C_QUIT, 0, -1); send(i, c); }
            int st;
            waitpid(pids[i], &st, 0);
            if (!R.viols && (!WIFEXITED(st) || WEXITSTATUS(st))) R.viol("life", "life_crash", "the process died while its handles were destroyed (status %x)", st);
            close(fds[i]);
            fds[i] = -1;
            gone(i);
        }
        if (!R.viols) {
            spawn(0);
            for (int i = 0; i < nd; i++) {
                Cmd c = mk(C_OPEN, i, i);
                c.opt = wopt(i, false);
                Rep r = call(0, c);
                if (!r.open) { R.viol("life", "life_exclusive", "no writer can be opened after all handles are gone: %s", es(r.rc)); continue; }
                hs[0][i].st = 1; hs[0][i].db = i; hs[0][i].writer = true;
                verify(0, i);
            }
            Cmd c = mk(C_QUIT, 0, -1);
            send(0, c);
            int st;
            waitpid(pids[0], &st, 0);
            close(fds[0]);
        }
        rm_tree(base);
    }
};

int main(int argc, char** argv)
{
    Args a(argc, argv);
    R.init(a);
    quiet_lib();
    signal(SIGPIPE, SIG_IGN);
    g_root = a.s("root", "/dev/shm");
    uint64_t seed = (uint64_t)a.n("seed", 1);
    long long cases = a.n("cases", 10), ops = a.n("ops", 200), first = a.n("first", 0);
    for (long long i = first; i < first + cases && !R.viols; i++) {
        R.ctx = "case " + std::to_string(i);
        Case* c = new Case(seed * 1000003ull + (uint64_t)i, a);
        c->run((int)ops);
        R.stat("cases");
        if (i < first + 2) R.sample(R.ctx);
        delete c;
    }
    R.flush();
    return R.viols ? 3 : 0;
}
