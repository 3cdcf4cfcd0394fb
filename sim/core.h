// Shared basics: keyed PRNG, scenario records, statistics, violations.
#pragma once
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

using i64 = int64_t;
using u64 = uint64_t;
using u8 = uint8_t;
using u32 = uint32_t;

constexpr i64 US = 1000, MS = 1000000, SEC = 1000000000;

// ---------- randomness: everything derives from one integer, by key, so that removing one
// part of a scenario does not change the choices made elsewhere.
inline u64 mix64(u64 z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline u64 hkey(u64 a) { return mix64(a); }
template <class... T>
u64 hkey(u64 a, u64 b, T... r) {
    return hkey(mix64(a) ^ (b * 0xd6e8feb86659fd93ull + 0x1234567), r...);
}
inline u64 hstr(std::string_view s) {
    u64 h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return mix64(h);
}
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 0) : s(seed) {}
    u64 next() { return mix64(s++ * 0x9e3779b97f4a7c15ull + 0x51ed2701); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return hi <= lo ? lo : lo + (i64)below((u64)(hi - lo + 1)); }
    bool pm(i64 permille) { return (i64)below(1000) < permille; }
    template <class T>
    const T& pick(const std::vector<T>& v) {
        return v[below(v.size())];
    }
    // log-uniform in [lo,hi]
    i64 logu(i64 lo, i64 hi);
};

// ---------- scenario
struct Rec {
    std::string kind;
    std::map<std::string, i64> i;
    std::map<std::string, std::string> s;
    i64 get(const std::string& k, i64 d = 0) const {
        auto it = i.find(k);
        return it == i.end() ? d : it->second;
    }
    std::string str(const std::string& k, const std::string& d = "") const {
        auto it = s.find(k);
        return it == s.end() ? d : it->second;
    }
    Rec& set(const std::string& k, i64 v) {
        i[k] = v;
        return *this;
    }
    Rec& sets(const std::string& k, const std::string& v) {
        s[k] = v;
        return *this;
    }
    std::string line() const;
    static bool parse(const std::string& l, Rec& out);
};
struct ClientScn {
    Rec c;
    std::vector<Rec> steps;
};
struct Scenario {
    std::string profile;
    u64 seed = 0;
    Rec g{"global", {}, {}};
    std::vector<ClientScn> clients;
    std::vector<Rec> faults;
    std::string text() const;
    static bool parse(const std::string& t, Scenario& out);
};
std::string hex(std::string_view s);
std::string unhex(std::string_view s);

// ---------- results
enum FaultKind {
    F_SHORT_WRITE,
    F_WRITE_EAGAIN,
    F_EINTR,
    F_ACCEPT_ERR,
    F_ACCEPT_GONE,
    F_CTL_FAIL,
    F_SPURIOUS,
    F_SUBSET,
    F_PERMUTE,
    F_SEGMENT,
    F_DELAY,
    F_PARTITION,
    F_CLIENT_RST,
    F_CLIENT_FIN,
    F_CLIENT_CLOSE,
    F_RST_BY_SERVER,
    F_SIGPIPE,
    F_STALL,
    F_CLOCK_JUMP,
    F_PEERNAME,
    F_SOCKOPT,
    F_READ_PAUSE,
    F_GARBAGE,
    F_BAD_FRAME,
    F_TLS_CORRUPT,
    F_TLS_ABANDON,
    F_HANDLER_THROW,
    F_FILE_OPEN,
    F_FILE_READ,
    F_FILE_SHORT,
    F_FILE_STAT,
    F_FILE_MUTATE,
    F_LOG_FAIL,
    F_SIGNAL,
    F_PIPE_BREAK,
    F_FCNTL,
    F_SSL_NEW,
    F_READ_ERR,
    F_POLL_ERR,
    F_SYMLINK,
    F_OVER_LIMIT,
    F_IDLE,
    F_HEADER_BOMB,
    F_FLOOD,
    F_ALLOC,
    F_NKINDS
};
extern const char* const FAULT_NAMES[F_NKINDS];

enum Probe {
    P_BLOCKED_WRITE,       // server write got EAGAIN
    P_PARTIAL_WRITE,       // server write accepted fewer bytes than offered
    P_RX_FULL,             // server left bytes in the kernel receive buffer
    P_FRAME_SPLIT,         // a read ended in the middle of a frame header or payload
    P_EOF_WITH_DATA,       // data and FIN available to one read burst
    P_AT_CAPACITY,         // 128 connections open
    P_OVERFLOW_CLOSED,     // a connection beyond the limit was closed
    P_IDLE_REAPED,         // idle close observed
    P_SLOT_REUSED,         // accept after capacity was freed
    P_FD_REUSED,           // an accepted fd number had been used before
    P_HUFF_REQ,
    P_DYN_REQ,
    P_EVICT_REQ,
    P_TABLE_UPDATE_REQ,
    P_CONTINUATION_REQ,
    P_PADDED_REQ,
    P_PRIORITY_REQ,
    P_DYN_RESP,
    P_EVICT_RESP,
    P_TABLE_UPDATE_RESP,
    P_CONTINUATION_RESP,
    P_BIG_INDEX_RESP,
    P_TLS13,
    P_TLS12,
    P_POLL_BACKEND,
    P_EPOLL_BACKEND,
    P_STOP_IN_SYSCALL,
    P_STOP_IN_HANDLER,
    P_STOP_BEFORE_START,
    P_STOP_DURING_BLOCKED,
    P_TLS_REFUSED,
    P_STATIC_200,
    P_STATIC_ERR,
    P_STATIC_HEAD,
    P_STATIC_ESCAPE_TRY,
    P_LOG_LINES,
    P_LOG_WEIRD,
    P_STATUS_PAGE,
    P_SERVER_STALE_ERR,    // a TLS failure left state behind (another connection active)
    P_WINDOW_EXCEEDED,
    P_GOAWAY,
    P_UPLOAD_WAITS,
    P_N
};
extern const char* const PROBE_NAMES[P_N];

struct Violation {
    char cls[48];
    char detail[1000];
    i64 t;
};
// Lives in memory shared with the parent so that a crash of the run loses nothing.
struct Result {
    u64 hash;        // every event with its time
    u64 shape;       // event kinds and connections, without times: the interleaving
    u64 events;
    u64 syscalls;
    i64 sim_ns;
    u64 faults[F_NKINDS];
    u64 probes[P_N];
    u64 requests, responses, conns, bytes_in, bytes_out;
    int nviol;
    Violation viol[8];
    int finished;
    char exit_note[256];
    u32 trace_len;
    char trace[1 << 18];
    bool trace_on;
};
extern Result* R;
extern Scenario* S;

void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void tracef(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline void fault(FaultKind k) { R->faults[k]++; }
inline void probe(Probe p) { R->probes[p]++; }
void ev_hash(const char* kind, u64 a, u64 b = 0, u64 c = 0);
[[noreturn]] void finish_run();  // write what there is and leave the process

}  // namespace sim
