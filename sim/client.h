// Simulated HTTP/2 clients: they sit at the far end of simulated connections, follow a
// scripted scenario, and check every byte the server sends them.
#pragma once
#include <openssl/err.h>
#include <openssl/ssl.h>

#include "hpack_ref.h"
#include "kernel.h"

namespace sim {

enum Expect { X_APP, X_404, X_400, X_STATIC, X_STATUS, X_FIXED, X_POISON, X_FUZZ };
enum Role { WB = 0, BAD = 1, FUZZ = 2 };

struct Client;
struct Req {
    i64 id = 0;
    std::string uid;
    Client* cl = nullptr;
    u32 stream = 0;
    const Rec* step = nullptr;
    Hdrs hdrs;
    std::string method, path, ua, referer;
    i64 t_sent = -1, t_arrived = -1, t_hdr_arrived = -1;
    Expect x = X_APP;
    // what the application answers
    int st = 200;
    size_t blen = 0;
    Hdrs rh;
    bool throws = false;
    int handled = 0;
    int target = -1;             // RouteTable
    std::vector<int> entered;    // middleware, in the order it was passed
    size_t own = SIZE_MAX;       // of the headers, the handler's own
    int passes = 0;              // how many pass it on
    int ran = -3;                // the route whose handler ran

    i64 t_handled = -1;
    u64 seq = 0;  // order in which requests reached the application
    size_t resp_size = 0;   // body bytes the application returned
    int resp_status = 0;
    // what the client got
    int got = 0;  // 0 nothing, 1 headers, 2 complete
    Hdrs ghdrs;
    int gst = 0;
    size_t gbody = 0;
    std::string gbytes;  // kept for kinds checked afterwards
    bool keep = false, cancelled = false;
    i64 t_first = -1, t_done = -1;
    bool bad = false;  // a violation about it has been reported
    u64 order_at_headers = 0;
};

u8 body_byte(const Req& r, size_t i);
void body_fill(const Req& r, std::string& out);
void build_request(Req& r);
const char* method_name(int m);
bool has_route(int p, int m);  // of /app/p   // header list and expectation from the step
// The server shares this thread's OpenSSL error queue: give it back exactly as it was.
struct ErrQueue {
    struct E {
        unsigned long e;
        const char *file, *func;
        int line;
    };
    std::vector<E> saved;
    ErrQueue() {
        const char *file, *func, *data;
        int line, flags;
        while (unsigned long e = ERR_get_error_all(&file, &line, &func, &data, &flags)) saved.push_back({e, "", "", line});
    }
    ~ErrQueue() {
        ERR_clear_error();
        for (auto& s : saved) {
            ERR_new();
            ERR_set_debug(s.file, s.line, s.func);
            ERR_set_error(ERR_GET_LIB(s.e), ERR_GET_REASON(s.e), nullptr);
        }
        if (!saved.empty()) probe(P_SERVER_STALE_ERR);
    }
};

Hdrs gen_headers(u64 seed, int n, int maxv, bool request, bool any = false);

struct Client : Peer {
    int idx = 0;
    Rec cfg;
    std::vector<Rec> steps;
    u64 odd_frames = 0;
    Role role = WB;
    bool tls = false;
    Conn* c = nullptr;
    Rng rng;

    // script
    size_t ip = 0;
    bool waited = false, steps_done = false, in_advance = false;
    bool paused = false;
    i64 t_act = 0;  // when its latest step was carried out
    i64 rate = 0, dchunk = 0;
    u32 next_stream = 1;
    // request bodies which wait for the server's windows
    struct Upload {
        Req* r;
        std::deque<std::pair<int, std::string>> frames;
        Hdrs trailers;
        EncStyle es;
        u64 tkey;
        int hold;  // so many requests come before its end
    };
    std::deque<Upload> ups;
    i64 swc = 65535, sw_init = 65535;  // what the server lets us send
    std::map<u32, i64> sws;
    void pump_uploads();
    void release();
    bool window_blocked() const { return !ups.empty() && !paused; }

    // sending
    std::string out;                                  // plaintext not yet handed to the network
    std::vector<std::pair<size_t, i64*>> out_marks;   // offsets in out
    std::vector<size_t> out_bounds;                   // frame ends in out
    std::deque<size_t> cuts;                          // segment sizes planned for the bytes being sent
    u64 wire = 0;                                     // bytes handed to the network so far
    u64 sent_small = 0;

    // TLS
    SSL* ssl = nullptr;
    BIO *rb = nullptr, *wb = nullptr;
    bool hs_done = false, tls_dead = false, corrupt_next = false;
    bool got_close_notify = false, key_updates = false;

    // protocol state
    RefEncoder enc;
    RefDecoder dec;
    std::string in;
    size_t in_off = 0;
    u64 frames = 0;
    bool got_settings = false, hello_sent = false;
    struct SentSettings {
        i64 hts, mfs, iws;
    };
    std::deque<SentSettings> unacked;
    i64 max_frame = 16384, iws = 65535;
    std::deque<std::string> pings;
    std::map<u32, Req*> streams;
    std::map<u32, i64> swin;
    i64 cwin = 65535;
    struct Grant {
        i64 t;  // when it arrived at the server
        u32 stream;
        i64 inc;
    };
    std::deque<Grant> grants;  // on their way, or counted when the next DATA is looked at
    void grant(u32 stream, i64 inc);
    u64 data_since_wu = 0;
    std::string hblock;
    u32 hstream = 0;
    bool hes = false;
    int outstanding = 0;
    std::vector<Req*> reqs;

    // ends
    bool ended = false;         // no more bytes will come
    bool self_killed = false;   // we reset or closed: nothing is owed to us
    bool said_goodbye = false;  // we half-closed or sent GOAWAY after our last request
    bool broken = false;        // received stream no longer parsable
    bool closing = false;
    i64 t_end = -1;
    i64 t_bad = -1;             // malformed bytes reached the server
    bool bad_sent = false, must_close = false;
    bool server_fin = false, server_rst = false;

    Client(int i, const ClientScn& s);
    ~Client() override;
    void start();
    void advance();
    bool exec(Rec& st);  // false: not possible yet
    void frame(int type, int flags, u32 stream, std::string_view payload);
    void flush();
    void send_wire(std::string_view b);
    void plan_cuts(size_t n, const std::vector<size_t>& bounds);
    void send_request(Rec& st);
    void send_bad(Rec& st);
    void send_bomb(Rec& st);
    void send_flood(Rec& st);
    void send_settings(Rec& st);
    void tls_pump();
    void on_plain(std::string_view b);
    bool parse_frame();
    void on_headers_complete();
    void complete(Req* r);
    void fail_stream(const char* cls, const std::string& why);
    void finish(bool rst);
    void maybe_done();
    bool settled() const;
    bool owed() const;  // acknowledgements
    bool calm() const;
    void check_response(Req* r);
    std::string name() const;

    // Peer
    void on_data(std::string_view b) override;
    void on_fin() override;
    void on_rst() override;
    bool reading() const override;
    i64 drain_rate() const override;
    i64 drain_chunk() override;
    i64 drain_latency() override;
    i64 pick_segment(size_t left) override;
    i64 seg_latency() override;
    int victim() const override { return (int)cfg.get("victim"); }
};

// The routing table of a scenario (property C21), and what it means
struct RouteTable {
    bool on = false;
    struct Route {
        std::string path, method;
    };
    std::vector<Route> routes;
    std::vector<std::string> prefixes;  // of the static mappings; none is the beginning of another
    std::vector<int> mws;           // 0: passes on, 1: adds a header, 2: answers some requests itself
    static constexpr int STATIC = -2, NONE = -1;
    int target(const std::string& path, const std::string& method) const;
    int stops(size_t mw, int req) const { return mws[mw] == 2 && (req * 7 + (int)mw * 3) % 5 == 0; }
};

struct World {
    RouteTable rt;
    std::vector<std::unique_ptr<Client>> clients;
    std::vector<std::unique_ptr<Req>> reqs;
    std::map<std::string, Req*> by_uid;
    i64 t_calm = 0, t_stop = -1, t_done = -1;
    bool app = false, server_tls = false, have_fuzz = false, stopping = false;
    u64 handled = 0;
    std::function<void(Client*)> on_settled;
    std::function<void(Req*)> on_resp_headers, on_resp_done;
};
extern World W;
Req* new_req(Client* c, const Rec* step);
SSL_CTX* client_ctx();

}  // namespace sim
