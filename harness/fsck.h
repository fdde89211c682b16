// Offline oracle: parses the on-disk files of a mabain DB independently of the library
// (only the header struct definition is taken from drm_base.h) and checks structural integrity.
#pragma once
#include "common.h"
#include "drm_base.h"

namespace vh {

struct Extent {
    size_t off, len;
    char kind; // 'N' node, 'E' edge string, 'D' data, 'F' free
    bool operator<(const Extent& o) const { return off < o.off || (off == o.off && len > o.len); }
};

struct Fsck {
    string dir;
    vector<char> hbuf;
    const mabain::IndexHeader* h = nullptr;
    struct Blocks {
        string base;
        size_t bs = 0;
        std::map<size_t, std::pair<const uint8_t*, size_t>> m;
        const uint8_t* at(size_t off, size_t len)
        {
            size_t b = off / bs, o = off % bs;
            auto it = m.find(b);
            if (it == m.end()) {
                string p = base + std::to_string(b);
                int fd = open(p.c_str(), O_RDONLY);
                std::pair<const uint8_t*, size_t> v { nullptr, 0 };
                if (fd >= 0) {
                    struct stat st;
                    if (fstat(fd, &st) == 0 && st.st_size > 0) {
                        void* a = mmap(nullptr, st.st_size, PROT_READ, MAP_SHARED, fd, 0);
                        if (a != MAP_FAILED) v = { (const uint8_t*)a, (size_t)st.st_size };
                    }
                    close(fd);
                }
                it = m.emplace(b, v).first;
            }
            if (!it->second.first || o + len > it->second.second) return nullptr;
            return it->second.first + o;
        }
        void clear() { for (auto& e : m) if (e.second.first) munmap((void*)e.second.first, e.second.second); m.clear(); }
        ~Blocks() { clear(); }
    } idx, dat;
    std::map<string, string> kv;
    std::map<string, uint16_t> bucket;
    vector<Extent> iext, dext;
    vector<std::pair<string, string>> errs; // key, message
    size_t nodes = 0, edges = 0, root_edges = 0, matches = 0;
    size_t estr = 0;
    bool jem = false;
    size_t max_errs = 8;

    void err(const string& k, const char* fmt, ...) __attribute__((format(printf, 3, 4)))
    {
        char b[512];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        if (errs.size() < max_errs) errs.push_back({ k, b });
    }
    static size_t g6(const uint8_t* p)
    {
        uint64_t v = 0;
        // 6-byte: leading byte is the most significant, followed by 5 bytes; decoded via the library helper
        (void)v;
        return mabain::Get6BInteger(p);
    }
    bool load(const string& d)
    {
        dir = d;
        FILE* f = fopen((d + "/_mabain_h").c_str(), "rb");
        if (!f) return false;
        hbuf.resize(sizeof(mabain::IndexHeader) + 64);
        size_t n = fread(hbuf.data(), 1, sizeof(mabain::IndexHeader), f);
        fclose(f);
        if (n != sizeof(mabain::IndexHeader)) return false;
        h = (const mabain::IndexHeader*)hbuf.data();
        jem = (h->writer_options & CONSTS::OPTION_JEMALLOC) != 0;
        idx.clear(); dat.clear();
        idx.base = d + "/_mabain_i"; idx.bs = h->index_block_size;
        dat.base = d + "/_mabain_d"; dat.bs = h->data_block_size;
        return idx.bs && dat.bs;
    }
    void data(const string& key, size_t off)
    {
        const uint8_t* p = dat.at(off, 4);
        if (!p) { err("data_off", "data offset %zu of key %s not in file", off, hex(key).c_str()); return; }
        uint16_t len, b;
        memcpy(&len, p, 2);
        memcpy(&b, p + 2, 2);
        if (off < 1 || (!jem && off + 4 + len > h->m_data_offset)) { err("data_bound", "data buffer [%zu,+%d) of %s beyond m_data_offset %zu", off, len + 4, hex(key).c_str(), h->m_data_offset); return; }
        if (h->pfxcache_size && off < h->pfxcache_offset + h->pfxcache_size) { err("data_in_pfxcache", "data buffer %zu of %s inside prefix cache region", off, hex(key).c_str()); return; }
        if (off / dat.bs != (off + 3 + len) / dat.bs) err("data_cross", "data buffer %zu+%d crosses a block", off, len);
        const uint8_t* v = dat.at(off + 4, len);
        if (!v) { err("data_off", "data %zu+%d of %s not in file", off, len, hex(key).c_str()); return; }
        if (!kv.emplace(key, string((const char*)v, len)).second) err("dup_key", "key %s twice in tree", hex(key).c_str());
        bucket[key] = b;
        dext.push_back({ off, (size_t)len + 4, 'D' });
        matches++;
    }
    void edge(const string& prefix, uint8_t first, const uint8_t* e, int depth)
    {
        int len = e[EDGE_LEN_POS];
        if (len == 0) { err("edge_len0", "zero-length edge below node %s", hex(prefix).c_str()); return; }
        string k = prefix;
        k.push_back((char)first);
        if (len > LOCAL_EDGE_LEN) {
            size_t so = mabain::Get5BInteger(e);
            const uint8_t* s = idx.at(so, len - 1);
            if (!s || (!jem && so + len - 1 > h->m_index_offset)) { err("estr_off", "edge string %zu+%d of %s out of range", so, len - 1, hex(k).c_str()); return; }
            iext.push_back({ so, (size_t)len - 1, 'E' });
            estr += len - 1;
            k.append((const char*)s, len - 1);
        } else k.append((const char*)e, len - 1);
        if ((int)k.size() > 256) { err("key_too_long", "path longer than 256"); return; }
        uint8_t fl = e[EDGE_FLAG_POS];
        size_t o = mabain::Get6BInteger(e + EDGE_FLAG_POS + 1);
        if (fl & EDGE_FLAG_DATA_OFF) data(k, o);
        else node(k, o, depth + 1);
    }
    void node(const string& k, size_t off, int depth)
    {
        if (depth > 300) { err("depth", "tree deeper than 300"); return; }
        const uint8_t* p = idx.at(off, NODE_EDGE_KEY_FIRST);
        if (off == 0) { err("node_root", "edge %s points to root", hex(k).c_str()); return; }
        if (!p) { err("node_off", "node %zu of %s not in file", off, hex(k).c_str()); return; }
        int nt = p[1] + 1;
        size_t sz = NODE_EDGE_KEY_FIRST + nt + (size_t)nt * EDGE_SIZE;
        p = idx.at(off, sz);
        if (!p || (!jem && off + sz > h->m_index_offset)) { err("node_bound", "node %zu nt %d of %s beyond index end %zu", off, nt, hex(k).c_str(), h->m_index_offset); return; }
        iext.push_back({ off, sz, 'N' });
        nodes++;
        if (nodes > 3000000) { err("cycle", "too many nodes"); return; }
        if (p[0] & FLAG_NODE_MATCH) data(k, mabain::Get6BInteger(p + 2));
        std::set<int> seen;
        int prev = -1;
        for (int i = 0; i < nt; i++) {
            int c = p[NODE_EDGE_KEY_FIRST + i];
            if (!seen.insert(c).second) err("dup_edge", "node %s has two edges for byte %d", hex(k).c_str(), c);
            if ((p[0] & FLAG_NODE_SORTED) && c <= prev) err("unsorted", "node %s flagged sorted but is not", hex(k).c_str());
            prev = c;
            edges++;
            edge(k, (uint8_t)c, p + NODE_EDGE_KEY_FIRST + nt + (size_t)i * EDGE_SIZE, depth);
            if (errs.size() >= max_errs) return;
        }
    }
    // Walk the whole tree. Only meaningful at quiescent points.
    bool walk()
    {
        kv.clear(); bucket.clear(); iext.clear(); dext.clear(); errs.clear();
        nodes = edges = root_edges = matches = estr = 0;
        size_t rsz = NODE_EDGE_KEY_FIRST + 256 + 256 * EDGE_SIZE;
        const uint8_t* r = idx.at(0, rsz);
        if (!r) { err("root", "root node unreadable"); return false; }
        iext.push_back({ 0, rsz, 'N' });
        nodes = 1;
        for (int c = 0; c < 256; c++) {
            const uint8_t* e = r + NODE_EDGE_KEY_FIRST + 256 + (size_t)c * EDGE_SIZE;
            if (e[EDGE_LEN_POS] == 0) continue;
            root_edges++;
            edge("", (uint8_t)c, e, 0);
            if (errs.size() >= max_errs) break;
        }
        return errs.empty();
    }
    static bool overlap(vector<Extent>& v, string& msg)
    {
        std::sort(v.begin(), v.end());
        size_t end = 0;
        const Extent* prev = nullptr;
        for (auto& e : v) {
            if (prev && e.off < end) {
                char b[200];
                snprintf(b, sizeof b, "%c[%zu,+%zu) overlaps %c[%zu,+%zu)", e.kind, e.off, e.len, prev->kind, prev->off, prev->len);
                msg = b;
                return true;
            }
            if (e.off + e.len > end) { end = e.off + e.len; prev = &e; }
        }
        return false;
    }
    bool check_overlap()
    {
        string m;
        auto a = iext;
        if (overlap(a, m)) err("overlap_index", "index: %s", m.c_str());
        auto d = dext;
        if (h->pfxcache_size) d.push_back({ h->pfxcache_offset, h->pfxcache_size, 'P' });
        if (overlap(d, m)) err("overlap_data", "data: %s", m.c_str());
        return errs.empty();
    }
    static bool load_fl(const string& p, vector<Extent>& out)
    {
        FILE* f = fopen(p.c_str(), "rb");
        if (!f) return false;
        size_t bi; int64_t n;
        while (fread(&bi, 8, 1, f) == 1 && fread(&n, 8, 1, f) == 1) {
            for (int64_t i = 0; i < n; i++) {
                size_t o;
                if (fread(&o, 8, 1, f) != 1) break;
                out.push_back({ o, bi + 1, 'F' });
            }
        }
        fclose(f);
        return true;
    }
    size_t sum(const vector<Extent>& v) { size_t s = 0; for (auto& e : v) s += e.len; return s; }
};
} // namespace vh
