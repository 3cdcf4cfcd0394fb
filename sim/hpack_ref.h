// Reference HPACK (RFC 7541), independent of ion's. Strict decoder, style-driven encoder.
#pragma once
#include "core.h"

namespace sim {
using Hdr = std::pair<std::string, std::string>;
using Hdrs = std::vector<Hdr>;

struct RefTable {
    std::deque<Hdr> e;
    size_t size = 0, max = 4096;
    u64 evictions = 0;
    void insert(const Hdr& h);
    void set_max(size_t m);
};
struct RefDecoder {
    RefTable t;
    size_t limit = 4096;        // what we announced (and the server acknowledged)
    size_t pending_min = SIZE_MAX;  // smallest limit acknowledged since the last block: must be signalled
    bool must_signal = false;
    u64 dyn_hits = 0, updates = 0, big_index = 0;
    // empty string on success, else what is wrong
    std::string decode(std::string_view block, Hdrs& out);
    void limit_acked(size_t v);
};
struct EncStyle {
    int p_index = 700;      // use an exact table match
    int p_incr = 600;       // insert
    int p_never = 100;
    int p_nameidx = 800;
    int p_huff = 500;
    int p_nonmin = 0;       // non-minimal integers
};
struct RefEncoder {
    RefTable t;
    u64 dyn_hits = 0, huff = 0;
    std::string pending_updates;
    std::string encode(const Hdrs& h, const EncStyle& st, Rng g);
    void table_update(size_t v);  // emitted at the start of the next block
};
void put_int(std::string& o, u64 v, int prefix, u8 top, bool nonmin = false);
std::string huff_encode(std::string_view s);
bool huff_decode(std::string_view s, std::string& out);
const Hdr& static_entry(size_t i);  // 1-based
}  // namespace sim
