// The command line tool: the expression parser against an independent reading of its grammar, and whole command lines,
// scripts and interactive input against a map. The code of the tool is linked into this program (its main is mbc_main)
// and runs in a process of its own.
#include "common.h"
#include <iostream>
#include <poll.h>
#include "../binaries/expr_parser.h"

using namespace vh;
int mbc_main(int argc, char** argv);
static Report R;
static string g_root;

// ------------------------------------------------------------------------------------------------ the grammar
struct Ref {
    const string& s;
    size_t p = 0;
    bool big = false; // beyond the buffer of the parser: may be refused
    bool lone_hex = false; // a number outside of bin(): the grammar says nothing about it
    explicit Ref(const string& t) : s(t) { }
    static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
    bool list(string& out, int depth, bool in_bin)
    {
        out.clear();
        while (p < s.size()) {
            char c = s[p];
            if (c == ')') return depth > 0;
            if (c == '\'' || c == '"') {
                size_t e = s.find(c, p + 1);
                if (e == string::npos) return false;
                out += s.substr(p + 1, e - p - 1);
                p = e + 1;
            } else if (c == '0') {
                size_t q = p + 1;
                if (q >= s.size() || (s[q] != 'x' && s[q] != 'X')) return false;
                size_t e = ++q;
                while (e < s.size() && hexv(s[e]) >= 0) e++;
                if (e == q) return false;
                if (!in_bin) lone_hex = true;
                out += s.substr(p, e - p);
                p = e;
            } else if (s.compare(p, 4, "bin(") == 0 || s.compare(p, 4, "hex(") == 0) {
                bool bin = c == 'b';
                p += 4;
                string in, r;
                if (!list(in, depth + 1, bin) || p >= s.size() || s[p] != ')') return false;
                p++;
                if (bin) {
                    if (in.compare(0, 2, "0x") == 0 || in.compare(0, 2, "0X") == 0) in = in.substr(2);
                    if (in.size() % 2) return false;
                    for (size_t i = 0; i < in.size(); i += 2) {
                        int a = hexv(in[i]), b = hexv(in[i + 1]);
                        if (a < 0 || b < 0) return false;
                        r.push_back((char)(a * 16 + b));
                    }
                    if (r.size() > 1024) big = true;
                } else {
                    for (unsigned char x : in) { char b[4]; snprintf(b, 4, "%02x", x); r += b; }
                    if (r.size() >= 1024) big = true;
                }
                out += r;
            } else return false;
        }
        return true;
    }
};

static string hexstr(Rng& r, const string& v)
{
    string o;
    bool up = r.chance(30);
    for (unsigned char c : v) { char b[4]; snprintf(b, 4, up ? "%02X" : "%02x", c); o += b; }
    return o;
}
static bool plain(const string& v) { for (unsigned char c : v) if (c < 32 || c > 126 || c == '\'' || c == '"') return false; return true; }
// an expression for this value
static string expr_for(Rng& r, const string& v, int depth)
{
    if (depth <= 0 || r.chance(30)) {
        if (plain(v) && r.chance(70)) { char q = r.chance(50) ? '\'' : '"'; return q + v + q; }
        if (v.empty()) return r.chance(50) ? "''" : "bin('')";
        if (r.chance(50)) return "bin(0x" + hexstr(r, v) + ")";
        return "bin('" + string(r.chance(20) ? "0x" : "") + hexstr(r, v) + "')";
    }
    switch (r.below(3)) {
    case 0: { size_t at = r.below(v.size() + 1); return expr_for(r, v.substr(0, at), depth - 1) + expr_for(r, v.substr(at), depth - 1); }
    case 1: return "bin(hex(" + expr_for(r, v, depth - 1) + "))";
    default: return "bin(" + expr_for(r, hexstr(r, v), depth - 1) + ")";
    }
}
static string bytes(Rng& r, int kind)
{
    string v;
    int n = r.chance(80) ? r.range(1, 12) : r.range(1, 300);
    for (int i = 0; i < n; i++)
        v.push_back(kind == 0 ? (char)r.range(32, 126) : kind == 1 ? "abh0x()'\":,in"[r.below(13)] : kind == 2 ? (char)('a' + r.below(3)) : (char)r.below(256));
    return v;
}
static string mutate(Rng& r, string s)
{
    static const string alpha = "bin(hex()'\"0xX19afz ),:";
    for (int n = r.range(1, 3); n--;) {
        size_t at = r.below(s.size() + 1);
        switch (r.below(5)) {
        case 0: s.insert(at, 1, alpha[r.below(alpha.size())]); break;
        case 1: if (!s.empty()) s.erase(at % s.size(), 1); break;
        case 2: if (!s.empty()) s[at % s.size()] = alpha[r.below(alpha.size())]; break;
        case 3: s = s.substr(0, at); break;
        default: { // the name of a function spoilt
            size_t f = s.find(r.chance(50) ? "bin(" : "hex(");
            if (f != string::npos) for (int i = 1; i < 4; i++) if (r.chance(60)) s[f + i] = alpha[r.below(alpha.size())];
        } }
    }
    return s;
}
static void parser(Rng& r, int n)
{
    for (int i = 0; i < n; i++) {
        string v = bytes(r, (int)r.below(4)), e = expr_for(r, v, r.range(0, 6));
        bool valid = true;
        if (r.chance(60)) { e = mutate(r, e); valid = false; }
        Ref ref(e);
        string want, got;
        bool ok = ref.list(want, 0, false);
        if (valid && (!ok || want != v)) { R.viol("shell", "harness", "the generator and the reference disagree on %s", hex(e, 300).c_str()); return; }
        R.op("evaluate %s", hex(e, 500).c_str());
        ExprParser p(e);
        int rc = p.Evaluate(got);
        R.stat("expressions");
        if (ref.big) { R.stat("expr_big"); if (ok && rc >= 0 && got != want) R.viol("shell", "expr_value", "%s evaluates to %s expected %s", hex(e, 300).c_str(), hex(got).c_str(), hex(want).c_str()); continue; }
        if (ok && ref.lone_hex) { R.stat("expr_lone"); continue; }
        R.stat(ok ? "expr_valid" : "expr_invalid");
        if (ok && rc < 0) R.viol("shell", "expr_refused", "%s is refused, expected %s", hex(e, 300).c_str(), hex(want).c_str());
        if (!ok && rc >= 0) R.viol("shell", "expr_accepted", "%s is not an expression but evaluates to %s", hex(e, 300).c_str(), hex(got).c_str());
        if (ok && got != want) R.viol("shell", "expr_value", "%s evaluates to %s expected %s", hex(e, 300).c_str(), hex(got).c_str(), hex(want).c_str());
        R.sig(fnvs(e));
    }
}

// ------------------------------------------------------------------------------------------------ the tool
static string shown(const string& v)
{
    string o;
    bool q = false;
    for (unsigned char c : v) {
        if (c >= 32 && c <= 126) { if (!q) o += '"'; q = true; o += (char)c; }
        else { if (q) o += '"'; q = false; char b[12]; snprintf(b, sizeof b, "bin(0x%02X)", c); o += b; }
    }
    if (q) o += '"';
    return o;
}

struct Cmd { string text; string want; int any = 0; std::multiset<string> lines; int list = 0; };

struct Shell {
    Rng rng;
    string dir;
    std::map<string, string> model;
    vector<string> keys;
    vector<string> trailers;
    DB* aw = nullptr;
    DB* ar = nullptr;
    string out;
    Shell(uint64_t s, const string& d) : rng(s), dir(d)
    {
        for (int i = 0; i < 40; i++) {
            string k = bytes(rng, rng.chance(60) ? 2 : rng.chance(50) ? 0 : 3);
            if (k.size() <= 256) keys.push_back(k);
        }
    }
    MBConfig conf(int opt)
    {
        MBConfig c {};
        c.mbdir = dir.c_str();
        c.options = opt;
        c.block_size_index = c.block_size_data = 4u << 20;
        c.memcap_index = c.memcap_data = 1u << 20;
        c.num_entry_per_bucket = 500;
        c.queue_dir = nullptr;
        return c;
    }
    string q(const string& v)
    {
        string e = expr_for(rng, v, rng.range(0, v.size() > 60 ? 1 : 3)); // within the buffers of the parser
        for (auto& c : e) if (c == '"') c = '\'';
        return e;
    }
    // what a user may type for the same command
    string typed(const string& t, bool tabs)
    {
        string o;
        bool quo = false;
        for (char c : t) {
            if (c == '\'') { quo = !quo; o += rng.chance(50) ? '"' : '\''; continue; }
            if (!quo && rng.chance(5)) o += tabs && rng.chance(50) ? '\t' : ' '; // a tab completes a name in the line editor
            o += c;
        }
        return o;
    }
    string es(int rc) { return MBError::get_error_str(rc); }
    string key() { return rng.chance(85) ? rng.pick(keys) : rng.pick(keys) + "zz"; }
    string show(const string& k, const string& v) { return shown(k) + ": " + shown(v); }
    string hexout(const string& v)
    {
        string o, h;
        size_t n = v.size();
        if (2 * n + 1 > 256) { o = "display the first 127 bytes\n"; n = 127; }
        for (size_t i = 0; i < n; i++) { char b[4]; snprintf(b, 4, "%02x", (unsigned char)v[i]); h += b; }
        return o + h;
    }
    static bool clean(const string& v) { for (char c : v) if (c == '"') return false; return true; }
    Cmd make(bool update, bool writer)
    {
        Cmd c;
        string k = key();
        auto it = model.find(k);
        int w = update ? (int)rng.below(14) : 6 + (int)rng.below(8);
        if (rng.chance(12)) return bad();
        switch (w) {
        case 0: case 1: case 2: case 3: {
            bool over = rng.chance(40);
            string v = bytes(rng, (int)rng.below(4));
            c.text = string(over ? "replace(" : "insert(") + q(k) + ":" + q(v) + ")";
            Ref a(c.text);
            if (k.size() > 256) { c.any = 1; break; }
            bool put = over || it == model.end();
            c.want = es(put || !writer ? MBError::SUCCESS : MBError::IN_DICT);
            if (put) model[k] = v;
            R.stat("sh_add");
            break;
        }
        case 4:
            c.text = "delete(" + q(k) + ")";
            c.want = es(it != model.end() || !writer ? MBError::SUCCESS : MBError::NOT_EXIST);
            if (it != model.end()) model.erase(it);
            R.stat("sh_delete");
            break;
        case 5:
            if (rng.chance(20)) { c.text = "deleteAll"; c.want = es(MBError::SUCCESS); model.clear(); R.stat("sh_deleteall"); }
            else { c.text = rng.chance(50) ? "reclaimResources(1,1)" : "reclaimResources(" + std::to_string(rng.below(100)) + ")"; c.any = 2; R.stat("sh_reclaim"); }
            break;
        case 6: case 7: case 8:
            c.text = "find(" + q(k) + ")";
            if (rng.chance(25)) { c.text += ".hex()"; c.want = it == model.end() ? es(MBError::NOT_EXIST) : hexout(it->second); }
            else c.want = it == model.end() ? es(MBError::NOT_EXIST) : show(k, it->second);
            R.stat("sh_find");
            break;
        case 9: case 10: {
            bool hx = rng.chance(25);
            c.text = "findPrefix(" + q(k) + ")" + (hx ? ".hex()" : "");
            c.want = es(MBError::NOT_EXIST);
            for (size_t n = k.size(); n >= 1; n--) {
                auto p = model.find(k.substr(0, n));
                if (p != model.end()) { c.want = "key length matched: " + std::to_string(n) + "\n" + (hx ? hexout(p->second) : show(k, p->second)); break; }
            }
            R.stat("sh_prefix");
            break;
        }
        case 11: {
            c.text = "findLower(" + q(k) + ")";
            auto p = model.upper_bound(k);
            if (p == model.begin()) c.want = es(MBError::NOT_EXIST);
            else { --p; c.want = show(p->first, p->second); }
            R.stat("sh_lower");
            break;
        }
        case 12: {
            string p = rng.chance(30) ? "" : k.substr(0, rng.range(1, 2));
            c.text = "findAll(" + (p.empty() && rng.chance(50) ? string() : q(p)) + ")";
            for (auto e = model.lower_bound(p); e != model.end() && e->first.compare(0, p.size(), p) == 0; ++e) c.lines.insert(show(e->first, e->second));
            c.list = 1;
            R.stat("sh_list");
            break;
        }
        default: {
            static const char* s[] = { "show", "help", "printHeader" };
            c.text = s[rng.below(3)];
            c.any = 2;
            break;
        } }
        return c;
    }
    // a line which is not a command
    Cmd bad()
    {
        Cmd c;
        c.any = 1;
        R.stat("sh_bad");
        static const vector<string> fixed = { "find(", "find()", "()", ")", "f", "fi", "finds('a')", "find'a'", "find('a'", "find('a'))", "insert('a')", "insert('a':)", "insert(:'a')", "insert()", "insert('a''b')",
            "insert('a':'b':'c')", "replace()", "delete()", "delete", "deleteall", "deleteAll()", "reclaimResources()", "reclaimResources(abc)", "reclaimResources(1,)", "reclaimResources(,1)",
            "reclaimResources(99999999999999999999)", "reclaimResources(1,x)", "reclaimResources(", ".hex()", "f.hex()", "find('a').hex", "find('a').hex().hex()", "quitt", "q", "Quit", "bin('61')", "'a'", "\\", "find(bin('6'))",
            "find(bin(0x6))", "find(bin('zz'))", "insert(bin(0x):'a')", "insert('':'a')", "insert('a':'')", "delete('')", "findLower()", "findPrefix()", "findPrefix('')", "findLower('')", "%s%n%x", "insert('%n%s':" };
        string k = key();
        switch (rng.below(4)) {
        case 0: case 1: c.text = rng.pick(fixed); break;
        case 2: { // one quote too few, so that it cannot be whole
            c.text = "insert(" + q(k) + ":'x)";
            break;
        }
        default: { // a value which is no expression
            string e = q(k);
            do e = mutate(rng, e); while ([&] { Ref a(e); string o; return a.list(o, 0, false) || e.find(':') != string::npos || e.find('"') != string::npos || e.find('\n') != string::npos; }());
            c.text = (rng.chance(50) ? "delete(" : "find(") + e + ")";
        } }
        return c;
    }
    void run(const vector<string>& av, const string& input)
    {
        int pi[2], po[2];
        if (pipe2(pi, O_CLOEXEC) || pipe2(po, O_CLOEXEC)) { perror("pipe"); _exit(2); }
        fflush(nullptr);
        pid_t p = fork();
        if (p == 0) {
            dup2(pi[0], 0);
            dup2(po[1], 1);
            alarm(60);
            vector<char*> a;
            string self = "/proc/self/exe", m = "--mbc";
            a.push_back(&self[0]);
            a.push_back(&m[0]);
            for (auto& x : av) a.push_back(const_cast<char*>(x.c_str()));
            a.push_back(nullptr);
            setenv("TERM", "dumb", 1);
            execv("/proc/self/exe", a.data());
            _exit(126);
        }
        close(pi[0]);
        close(po[1]);
        signal(SIGPIPE, SIG_IGN);
        size_t done = 0;
        out.clear();
        for (;;) {
            if (done >= input.size() && pi[1] >= 0) { close(pi[1]); pi[1] = -1; }
            struct pollfd f[2] = { { po[0], POLLIN, 0 }, { pi[1], POLLOUT, 0 } };
            poll(f, pi[1] >= 0 ? 2 : 1, 1000);
            if (pi[1] >= 0 && (f[1].revents & (POLLOUT | POLLERR))) {
                ssize_t n = write(pi[1], input.data() + done, std::min<size_t>(input.size() - done, 4096));
                if (n < 0) { close(pi[1]); pi[1] = -1; } else done += n;
            }
            if (f[0].revents) {
                char b[4096];
                ssize_t n = read(po[0], b, sizeof b);
                if (n <= 0) break;
                out.append(b, n);
            }
        }
        if (pi[1] >= 0) close(pi[1]);
        close(po[0]);
        int st = 0;
        waitpid(p, &st, 0);
        R.stat("processes");
        if (!WIFEXITED(st)) R.viol("shell", "sh_crash", "the tool ended with signal %d; output %s", WTERMSIG(st), hex(out, 300).c_str());
        else if (WEXITSTATUS(st) != 0) R.viol("shell", "sh_exit", "the tool ended with status %d; output %s", WEXITSTATUS(st), hex(out, 300).c_str());
    }
    // the prompts of the pager stand at the beginning of a line
    static string unprompt(string l)
    {
        static const string p = "Press 'y' for displaying more: ";
        while (l.compare(0, p.size(), p) == 0) l = l.substr(p.size());
        return l;
    }
    void check(const Cmd& c, const string& got, size_t pages)
    {
        if (c.any) return;
        if (c.list) {
            std::multiset<string> have;
            size_t at = 0, n = 0;
            while (at < got.size()) {
                size_t e = got.find('\n', at);
                if (e == string::npos) e = got.size();
                string l = unprompt(got.substr(at, e - at));
                if (!l.empty()) { have.insert(l); n++; }
                at = e + 1;
            }
            if (pages != (size_t)-1 && c.lines.size() > pages * 20) {
                if (n != pages * 20) R.viol("shell", "sh_page", "%s: %zu entries were shown after %zu pages", hex(c.text, 200).c_str(), n, pages);
                for (auto& l : have) if (!c.lines.count(l)) R.viol("shell", "sh_list", "%s: %s is shown", hex(c.text, 200).c_str(), hex(l, 200).c_str());
                R.stat("sh_paged");
                return;
            }
            if (have != c.lines) R.viol("shell", "sh_list", "%s: %zu entries are shown, expected %zu", hex(c.text, 200).c_str(), have.size(), c.lines.size());
            return;
        }
        string w = c.want.empty() ? "" : c.want + "\n";
        if (got != w) R.viol("shell", "sh_answer", "%s: answer %s expected %s", hex(c.text, 300).c_str(), hex(got, 400).c_str(), hex(w, 400).c_str());
        R.stat("sh_compared");
    }
    void contents(const char* when)
    {
        if (aw) for (int i = 0; i < 400000 && aw->AsyncWriterBusy(); i++) usleep(20);
        MBConfig cf = conf(CONSTS::ACCESS_MODE_READER);
        DB* d = ar;
        if (!d) { d = new DB(cf); if (!d->is_open()) { if (model.empty()) { delete d; return; } R.viol("shell", "sh_open", "%s: the database does not open: %s", when, d->StatusStr()); return; } }
        std::map<string, string> got;
        for (auto it = d->begin(); it != d->end(); ++it) got[it.key] = string((char*)it.value.buff, it.value.data_len);
        if (got != model) {
            for (auto& e : model) { auto g = got.find(e.first); if (g == got.end()) R.viol("shell", "sh_contents", "%s: %s is missing", when, hex(e.first).c_str()); else if (g->second != e.second) R.viol("shell", "sh_contents", "%s: %s has %s expected %s", when, hex(e.first).c_str(), hex(g->second).c_str(), hex(e.second).c_str()); }
            for (auto& e : got) if (!model.count(e.first)) R.viol("shell", "sh_contents", "%s: %s should not be there", when, hex(e.first).c_str());
        }
        R.stat("sh_contents");
        R.sig(fnvs(when, got.size() * 131 + rng.s % 1000003));
        if (d != ar) { delete d; DB::ClearResources(dir); }
    }
    void go()
    {
        mkdir_or_die(dir);
        int phases = rng.range(3, 7);
        string bs = std::to_string(4 << 20);
        for (int ph = 0; ph < phases; ph++) {
            // who is the tool: the writer, a reader with nobody else, a client of an async writer, an async writer itself
            int who = ph == 0 ? 0 : (int)rng.below(4);
            if (who == 2) {
                MBConfig cf = conf(CONSTS::ACCESS_MODE_WRITER | CONSTS::ASYNC_WRITER_MODE);
                aw = new DB(cf);
                MBConfig cr = conf(CONSTS::ACCESS_MODE_READER);
                ar = new DB(cr);
                if (!aw->is_open() || !ar->is_open()) { R.viol("shell", "sh_open", "the async writer does not open: %s %s", aw->StatusStr(), ar->StatusStr()); return; }
            }
            vector<string> av = { "-d", dir, "--index-block-size", bs, "--data-block-size", bs };
            if (who == 0) av.push_back("-w");
            else if (rng.chance(30) && who == 1) av.push_back("-r");
            static const char* wn[] = { "writer", "reader", "client", "again" };
            if (who == 3) { av.push_back("-w"); }
            bool writer = who == 0 || who == 3, update = who != 1;
            int n = rng.range(1, 40);
            int way = who == 2 ? 1 : (int)rng.below(3); // (a client whose queue is full is refused) // script, one command per process, standard input
            if (way == 1) n = rng.range(1, 8);
            R.op("-- %s way %d", wn[who], way);
            vector<Cmd> cs;
            string text;
            string yes;
            for (int i = 0; i < 200; i++) yes += "y\n";
            for (int i = 0; i < n; i++) {
                Cmd c = make(update, writer);
                if (way == 2 && c.list) { c = Cmd(); c.text = "find(" + q("no such key") + ")"; c.want = es(model.count("no such key") ? MBError::SUCCESS : MBError::NOT_EXIST); }
                string t = typed(c.text, way != 2);
                R.op("%s", hex(t, 600).c_str());
                cs.push_back(c);
                if (way == 1) {
                    auto a = av;
                    a.push_back("-e");
                    a.push_back(t);
                    size_t pages = c.list && rng.chance(30) ? rng.range(1, 2) : (size_t)-1;
                    string in;
                    if (pages != (size_t)-1) { for (size_t k = 1; k < pages; k++) in += "y\n"; in += rng.chance(50) ? "n\n" : "\n"; }
                    else in = yes;
                    run(a, in);
                    if (aw) for (int k = 0; k < 400000 && aw->AsyncWriterBusy(); k++) usleep(20);
                    Cmd d = c;
                    check(d, out, pages);
                } else text += t + "\n";
            }
            if (way == 0) {
                string f = dir + ".script";
                FILE* o = fopen(f.c_str(), "w");
                fwrite(text.data(), 1, text.size(), o);
                fclose(o);
                auto a = av;
                a.push_back("-s");
                a.push_back(f);
                run(a, yes);
                unlink(f.c_str());
                // the answer of each command follows its echo
                size_t at = 0;
                for (size_t i = 0; i < cs.size(); i++) {
                    string echo = echoed(cs[i].text) + ": ";
                    size_t b = out.find(echo, at);
                    if (b == string::npos || (i && b != at && !cs[i - 1].any && !cs[i - 1].list)) { R.viol("shell", "sh_script", "the answer of %s is not found in %s", hex(cs[i].text, 200).c_str(), hex(out.substr(std::min(at, out.size())), 300).c_str()); break; }
                    b += echo.size();
                    size_t e = i + 1 < cs.size() ? out.find(echoed(cs[i + 1].text) + ": ", b) : out.size();
                    if (e == string::npos) e = out.size();
                    string ans = out.substr(b, e - b);
                    // what the parser says about a line comes before the echo of the line
                    if (i + 1 < cs.size() && cs[i + 1].any == 1 && !cs[i].list && ans.compare(0, cs[i].want.size() + 1, cs[i].want + "\n") == 0) ans = cs[i].want + "\n";
                    if (cs[i].any == 0 && !(cs[i].list && i + 1 < cs.size() && cs[i + 1].any == 1)) check(cs[i], ans, (size_t)-1);
                    at = e;
                }
            } else if (way == 2) {
                if (rng.chance(50)) text += "quit\n";
                run(av, text);
                // the answers follow the echo of the line
                size_t at = 0;
                for (auto& c : cs) {
                    if (c.any || c.list || c.want.empty()) continue;
                    size_t b = out.find(c.want + "\n", at);
                    if (b == string::npos) { R.viol("shell", "sh_interactive", "the answer %s of %s is missing in %s", hex(c.want, 200).c_str(), hex(c.text, 200).c_str(), hex(out.substr(at), 600).c_str()); break; }
                    at = b + c.want.size();
                    R.stat("sh_interactive");
                }
            }
            contents(wn[who]);
            if (aw) { delete ar; delete aw; ar = aw = nullptr; DB::ClearResources(dir); }
            R.stat(string("sh_") + wn[who]);
        }
    }
    // a script is echoed without the suffix for the output
    static string echoed(const string& t)
    {
        string n = norm(t);
        if (n.size() >= 6 && n[0] == 'f' && n.compare(n.size() - 6, 6, ".hex()") == 0) n.resize(n.size() - 6);
        return n;
    }
    static string norm(const string& t)
    {
        string o;
        bool quo = false;
        for (char c : t) {
            if (c == '\'' || c == '"') { quo = !quo; o += '\''; }
            else if (quo || !isspace((unsigned char)c)) o += c;
        }
        return o;
    }
};

int main(int argc, char** argv)
{
    if (argc > 1 && string(argv[1]) == "--mbc") return mbc_main(argc - 1, argv + 1);
    Args a(argc, argv);
    R.init(a);
    quiet_lib();
    std::cout.rdbuf(nullptr);
    g_root = a.s("root", "/dev/shm");
    uint64_t seed = (uint64_t)a.n("seed", 1);
    long long cases = a.n("cases", 10), first = a.n("first", 0), exprs = a.n("exprs", 2000);
    for (long long i = first; i < first + cases; i++) {
        R.ctx = "case " + std::to_string(i);
        R.trace.clear();
        Rng r(seed * 1000003ull + (uint64_t)i);
        parser(r, (int)exprs);
        string base = mk_scratch(g_root, "shell");
        R.trace.clear();
        { Shell s(r.next(), base + "/db"); s.go(); }
        rm_tree(base);
        R.stat("cases");
    }
    R.flush();
    return R.viols ? 3 : 0;
}
