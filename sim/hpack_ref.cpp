#include "hpack_ref.h"

namespace sim {
#include "hpack_tables.inc"

const Hdr& static_entry(size_t i) {
    static std::vector<Hdr> v;
    if (v.empty())
        for (auto& s : STATIC_TAB) v.emplace_back(s.n, s.v);
    return v[i - 1];
}
void RefTable::insert(const Hdr& h) {
    size_t sz = h.first.size() + h.second.size() + 32;
    while (!e.empty() && size + sz > max) {
        size -= e.back().first.size() + e.back().second.size() + 32;
        e.pop_back();
        evictions++;
    }
    if (sz > max) {
        evictions++;
        return;
    }
    e.push_front(h);
    size += sz;
}
void RefTable::set_max(size_t m) {
    max = m;
    while (size > max) {
        size -= e.back().first.size() + e.back().second.size() + 32;
        e.pop_back();
        evictions++;
    }
}
void put_int(std::string& o, u64 v, int prefix, u8 top, bool nonmin) {
    u64 m = (1u << prefix) - 1;
    if (v < m) {
        o.push_back((char)(top | v));
        return;
    }
    o.push_back((char)(top | m));
    v -= m;
    while (v >= 128) {
        o.push_back((char)(v % 128 + 128));
        v /= 128;
    }
    if (nonmin) {
        o.push_back((char)(v | 128));
        o.push_back(0);
    } else
        o.push_back((char)v);
}
std::string huff_encode(std::string_view s) {
    std::string o;
    u64 acc = 0;
    int n = 0;
    for (unsigned char c : s) {
        acc = (acc << HUFF[c].len) | HUFF[c].code;
        n += HUFF[c].len;
        while (n >= 8) {
            o.push_back((char)(acc >> (n - 8)));
            n -= 8;
        }
        acc &= (1ull << n) - 1;
    }
    if (n) o.push_back((char)((acc << (8 - n)) | ((1u << (8 - n)) - 1)));
    return o;
}
struct HNode {
    int k[2] = {-1, -1};
    int sym = -1;
};
static const std::vector<HNode>& tree() {
    static std::vector<HNode> t;
    if (t.empty()) {
        t.emplace_back();
        for (int s = 0; s < 257; s++) {
            int cur = 0;
            for (int b = HUFF[s].len - 1; b >= 0; b--) {
                int bit = (HUFF[s].code >> b) & 1;
                if (t[cur].k[bit] < 0) {
                    int id = (int)t.size();
                    t.emplace_back();
                    t[cur].k[bit] = id;
                }
                cur = t[cur].k[bit];
            }
            t[cur].sym = s;
        }
    }
    return t;
}
bool huff_decode(std::string_view s, std::string& out) {
    auto& t = tree();
    int cur = 0, since = 0;
    bool ones = true;
    for (unsigned char c : s)
        for (int b = 7; b >= 0; b--) {
            int bit = (c >> b) & 1;
            cur = t[cur].k[bit];
            if (cur < 0) return false;
            since++;
            if (!bit) ones = false;
            if (t[cur].sym >= 0) {
                if (t[cur].sym == 256) return false;
                out.push_back((char)t[cur].sym);
                cur = 0;
                since = 0;
                ones = true;
            }
        }
    return since <= 7 && ones;
}
static bool get_int(std::string_view b, size_t& p, int prefix, u64& v) {
    if (p >= b.size()) return false;
    u64 m = (1u << prefix) - 1;
    v = (u8)b[p++] & m;
    if (v < m) return true;
    int sh = 0;
    while (true) {
        if (p >= b.size() || sh > 35) return false;
        u8 c = (u8)b[p++];
        v += (u64)(c & 127) << sh;
        sh += 7;
        if (!(c & 128)) return true;
    }
}
static bool get_str(std::string_view b, size_t& p, std::string& out) {
    if (p >= b.size()) return false;
    bool h = (u8)b[p] & 128;
    u64 n;
    if (!get_int(b, p, 7, n) || n > b.size() - p) return false;
    std::string_view raw = b.substr(p, n);
    p += n;
    if (!h) {
        out.assign(raw);
        return true;
    }
    return huff_decode(raw, out);
}
void RefDecoder::limit_acked(size_t v) {
    limit = v;
    if (v < t.max) {
        must_signal = true;
        pending_min = std::min(pending_min, v);
    } else if (must_signal)
        pending_min = std::min(pending_min, v);
}
std::string RefDecoder::decode(std::string_view b, Hdrs& out) {
    size_t p = 0;
    bool fields = false;
    size_t lowest = SIZE_MAX;
    while (p < b.size()) {
        u8 c = (u8)b[p];
        if ((c & 0xe0) == 0x20) {
            u64 v;
            if (fields) return "table size update after a header field";
            if (!get_int(b, p, 5, v)) return "truncated table size update";
            if (v > limit) return "table size update above the announced limit (" + std::to_string(v) + " > " + std::to_string(limit) + ")";
            t.set_max(v);
            lowest = std::min<size_t>(lowest, v);
            updates++;
            continue;
        }
        if (!fields && must_signal) {
            if (lowest > pending_min)
                return "table limit was reduced to " + std::to_string(pending_min) + " but the block does not start with a size update";
            must_signal = false;
            pending_min = SIZE_MAX;
        }
        fields = true;
        auto entry = [&](u64 i, Hdr& h) -> bool {
            if (i == 0) return false;
            if (i <= 61) {
                h = static_entry(i);
                return true;
            }
            if (i - 62 >= t.e.size()) return false;
            h = t.e[i - 62];
            dyn_hits++;
            return true;
        };
        if (c & 0x80) {
            u64 i;
            Hdr h;
            if (!get_int(b, p, 7, i)) return "truncated index";
            if (!entry(i, h)) return "index " + std::to_string(i) + " is not in the tables (dynamic entries: " + std::to_string(t.e.size()) + ")";
            if (i >= 127) big_index++;
            out.push_back(h);
            continue;
        }
        bool incr = (c & 0xc0) == 0x40;
        u64 i;
        if (!get_int(b, p, incr ? 6 : 4, i)) return "truncated name index";
        Hdr h;
        if (i) {
            Hdr e;
            if (!entry(i, e)) return "name index " + std::to_string(i) + " is not in the tables";
            if (i >= (incr ? 63u : 15u)) big_index++;
            h.first = e.first;
        } else if (!get_str(b, p, h.first))
            return "undecodable header name";
        if (!get_str(b, p, h.second)) return "undecodable value of header '" + h.first + "'";
        if (incr) t.insert(h);
        out.push_back(h);
    }
    if (must_signal && !fields && b.empty()) return "";
    return "";
}
void RefEncoder::table_update(size_t v) {
    put_int(pending_updates, v, 5, 0x20);
    t.set_max(v);
}
static void put_str(std::string& o, const std::string& s, bool huff, bool nonmin) {
    if (huff) {
        std::string h = huff_encode(s);
        put_int(o, h.size(), 7, 0x80, nonmin);
        o += h;
    } else {
        put_int(o, s.size(), 7, 0, nonmin);
        o += s;
    }
}
std::string RefEncoder::encode(const Hdrs& hs, const EncStyle& st, Rng g) {
    std::string o = pending_updates;
    pending_updates.clear();
    for (auto& h : hs) {
        std::vector<size_t> full, name;
        for (size_t i = 1; i <= 61; i++) {
            if (static_entry(i).first != h.first) continue;
            name.push_back(i);
            if (static_entry(i).second == h.second) full.push_back(i);
        }
        for (size_t k = 0; k < t.e.size(); k++) {
            if (t.e[k].first != h.first) continue;
            name.push_back(62 + k);
            if (t.e[k].second == h.second) full.push_back(62 + k);
        }
        bool nm = g.pm(st.p_nonmin);
        if (!full.empty() && g.pm(st.p_index)) {
            size_t i = full[g.below(full.size())];
            if (i > 61) dyn_hits++;
            put_int(o, i, 7, 0x80, nm);
            continue;
        }
        bool incr = g.pm(st.p_incr), never = !incr && g.pm(st.p_never);
        int prefix = incr ? 6 : 4;
        u8 top = incr ? 0x40 : never ? 0x10 : 0;
        size_t ni = !name.empty() && g.pm(st.p_nameidx) ? name[g.below(name.size())] : 0;
        if (ni > 61) dyn_hits++;
        put_int(o, ni, prefix, top, nm && ni);
        bool h1 = g.pm(st.p_huff), h2 = g.pm(st.p_huff);
        if (!ni) put_str(o, h.first, h1, nm);
        put_str(o, h.second, h2, nm);
        if (h1 || h2) huff++;
        if (incr) t.insert(h);
    }
    return o;
}
}  // namespace sim
