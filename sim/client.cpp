#include "client.h"

#include "world.h"

#include <errno.h>
#include <openssl/err.h>
#include <stdio.h>

#include <algorithm>

namespace sim {
World W;

static const int T_DATA = 0, T_HEADERS = 1, T_PRIORITY = 2, T_RST = 3, T_SETTINGS = 4, T_PUSH = 5, T_PING = 6, T_GOAWAY = 7,
                 T_WU = 8, T_CONT = 9;
static const char PREFACE[] = "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";

// ---------------------------------------------------------------- contents
static u64 body_key(const Req& r) { return hkey(0xb0d1, hstr(r.uid)); }
u8 body_byte(const Req& r, size_t i) { return (u8)(mix64(body_key(r) + i / 8) >> (8 * (i % 8))); }
void body_fill(const Req& r, std::string& out) {
    out.resize(r.blen);
    u64 k = body_key(r);
    size_t i = 0;
    for (; i + 8 <= r.blen; i += 8) {
        u64 w = mix64(k + i / 8);
        memcpy(out.data() + i, &w, 8);
    }
    for (; i < r.blen; i++) out[i] = (char)body_byte(r, i);
}
Hdrs gen_headers(u64 seed, int n, int maxv, bool request, bool any) {
    static const std::vector<std::string> reqn = {"accept", "accept-encoding", "accept-language", "cookie", "cache-control",
                                                  "if-none-match", "range", "authorization", "content-type", "via", "from"};
    static const std::vector<std::string> resn = {"content-type", "cache-control", "etag", "set-cookie", "vary", "location",
                                                  "last-modified", "age", "link", "allow", "www-authenticate", "expires", "accept-encoding", "content-language"};
    static const std::vector<std::string> shared = {"gzip, deflate", "text/html", "no-cache", "a", "", "0", "max-age=3600", "identity", "xyz", "en"};
    Rng g(hkey(seed, 0x4ead));
    Hdrs o;
    const auto& pool = request ? reqn : resn;
    for (int k = 0; k < n; k++) {
        std::string name, val;
        int t = (int)g.below(10);
        if (t < 4)
            name = g.pick(pool);
        else if (t < 8)
            name = "x-h" + std::to_string(g.below(12));
        else {
            static const char* tok = "abcdefghijklmnopqrstuvwxyz0123456789-_.!#$%&'*+^`|~";
            size_t l = (size_t)g.logu(1, 40);
            name = "x";
            for (size_t q = 0; q < l; q++) name.push_back(tok[g.below(51)]);
            if (any && !request && g.pm(300))  // what is a name is not the encoder's business
                for (size_t q = 1; q < name.size(); q++) name[q] = (char)g.below(256);
        }
        int v = (int)g.below(10);
        if (v < 4)
            val = g.pick(shared);
        else if (v < 6)
            val = "v" + std::to_string(g.below(30));
        else {
            size_t l = (size_t)g.logu(1, std::max(1, maxv));
            if (maxv > 200 && g.pm(80)) {
                static const std::vector<size_t> edge = {126, 127, 128, 254, 255, 256, 4094, 4095, 4096};
                l = edge[g.below(maxv >= 4000 ? 9 : 6)];
            }
            bool wide = g.pm(300);
            for (size_t q = 0; q < l; q++) {
                int ch;
                if (wide && any)
                    ch = (int)g.below(256);
                else if (wide) {
                    ch = (int)g.range(0x21, 0xff);
                    if (ch == 0x7f) ch = 'q';
                    if (g.pm(50) && q && q + 1 < l) ch = g.pm(500) ? ' ' : '\t';
                } else
                    ch = (int)g.range(0x21, 0x7e);
                val.push_back((char)ch);
            }
        }
        o.push_back({name, val});
    }
    return o;
}
const char* method_name(int m) {
    static const char* methods[] = {"GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "HEAD"};
    return methods[m % 7];
}
bool has_route(int p, int m) { return p < 6 || (p == 6 && m < 2) || (p == 7 && m != 0 && m != 6); }
int RouteTable::target(const std::string& path, const std::string& method) const {
    for (size_t i = 0; i < routes.size(); i++)
        if (routes[i].path == path && routes[i].method == method) return (int)i;
    if (method == "GET" || method == "HEAD")
        for (auto& prefix : prefixes)
            if (path.compare(0, prefix.size(), prefix) == 0) return STATIC;
    return NONE;
}
void build_request(Req& r) {
    const Rec& st = *r.step;
    int m = (int)(st.get("m") % 7);
    r.method = method_name(m);
    i64 p = st.get("p");
    std::string path = st.str("path");
    r.st = (int)st.get("st", 200);
    r.blen = (size_t)st.get("bl");
    r.throws = st.get("thr") != 0;
    r.rh = gen_headers((u64)st.get("rs"), (int)st.get("rn"), (int)st.get("rv", 20), false, st.get("any") != 0);
    if (st.get("xl")) r.rh.push_back({"x-fill", std::string((size_t)st.get("xl"), 'X')});  // eight bits each, encoded or not
    if (!path.empty()) {
        r.path = path;
        r.x = (Expect)st.get("x", X_STATIC);
        r.keep = true;
    } else if (p < 8) {
        r.path = "/app/" + std::to_string(p);
        r.x = has_route((int)p, m) ? X_APP : X_404;
    } else {
        r.path = "/nf/" + std::to_string(st.get("hs") & 0xffff);
        r.x = X_404;
    }
    if (W.rt.on) {
        r.target = W.rt.target(r.path, r.method);
        r.x = r.target >= 0 ? X_APP : r.target == RouteTable::STATIC ? X_STATIC : X_404;
        r.keep = r.x == X_STATIC;
    }
    if (r.x == X_404) {
        r.keep = false;
        r.st = 404;
        r.blen = 0;
        r.rh.clear();
        r.throws = false;
    }
    if (r.throws) {
        r.st = 500;
        r.blen = 0;
        r.rh.clear();
    }
    if (W.rt.on) {
        size_t stop = W.rt.mws.size();
        for (size_t k = 0; k < W.rt.mws.size() && stop == W.rt.mws.size(); k++)
            if (W.rt.stops(k, (int)r.id)) stop = k;
        if (stop < W.rt.mws.size()) {
            r.x = X_404;
            r.keep = r.throws = false;
            r.st = 403;
            r.blen = 0;
            r.rh.clear();
        }
        r.passes = (int)stop;
        r.own = r.rh.size();
        if (!r.throws)
            for (size_t k = stop; k-- > 0;)
                if (W.rt.mws[k] == 1) r.rh.push_back({"x-mw", std::to_string(k)});
    }
    int drop = (int)st.get("nopath");
    if (drop) {
        r.x = X_400;
        r.st = 400;
        r.blen = 0;
        r.rh.clear();
        r.throws = false;
    }
    if (st.get("poison")) {
        r.x = X_POISON;
        r.path = "/bad/" + std::to_string(r.id);
    }
    if (r.cl->role == FUZZ) r.x = X_FUZZ;
    auto with_uid = [&r](std::string v) {
        size_t q;
        while ((q = v.find("%U")) != std::string::npos) v.replace(q, 2, r.uid);
        return v;
    };
    r.path = with_uid(r.path);
    size_t q = r.path.find("%F");
    if (q != std::string::npos) r.path.replace(q, 2, "/proc/self/cwd");
    while ((q = r.path.find("%Z")) != std::string::npos) r.path.replace(q, 2, 1, '\0');
    r.ua = with_uid(st.str("ua", r.x == X_FUZZ ? "z" : "ua-%U"));
    Hdrs h;
    if (drop != 2) h.push_back({":method", r.method});
    h.push_back({":scheme", r.cl->tls ? "https" : "http"});
    if (st.get("hs") & 1) h.push_back({":authority", "example.test"});
    if (drop != 1) h.push_back({":path", r.path});
    Hdrs extra = gen_headers((u64)st.get("hs"), (int)st.get("nh"), (int)st.get("vl", 20), true, st.get("any") != 0);
    size_t total = 0;  // the server takes header blocks of 64 KB
    for (size_t i = 0; i < extra.size(); i++)
        if ((total += extra[i].first.size() + extra[i].second.size() + 8) > 60000) extra.resize(i);
    size_t at = extra.empty() ? 0 : (size_t)st.get("hs") % (extra.size() + 1);
    for (size_t i = 0; i <= extra.size(); i++) {
        if (i == at) {
            h.push_back({"x-uid", r.uid});
            if (!r.ua.empty()) h.push_back({"user-agent", r.ua});
            std::string rf = with_uid(st.str("ref"));
            r.referer = rf;
            if (!rf.empty()) h.push_back({"referer", rf});
        }
        if (i < extra.size()) h.push_back(extra[i]);
    }
    r.hdrs = h;
}
Req* new_req(Client* c, const Rec* step) {
    auto r = std::make_unique<Req>();
    r->id = step->get("id");
    r->cl = c;
    r->step = step;
    char b[64];
    const char* pre = step->get("poison") ? "bad" : c->role == FUZZ ? "z" : "q";
    snprintf(b, sizeof b, "%s%lld-%08llx", pre, (long long)r->id, (unsigned long long)(hkey(S->seed, 0x01d, (u64)r->id) & 0xffffffff));
    r->uid = b;
    build_request(*r);
    Req* p = r.get();
    W.by_uid[p->uid] = p;
    W.reqs.push_back(std::move(r));
    return p;
}

// ---------------------------------------------------------------- client life
SSL_CTX* client_ctx() {
    static SSL_CTX* ctx = nullptr;
    if (!ctx) {
        ctx = SSL_CTX_new(TLS_client_method());
        SSL_CTX_set_verify(ctx, SSL_VERIFY_NONE, nullptr);
        SSL_CTX_set_mode(ctx, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
    }
    return ctx;
}

Client::Client(int i, const ClientScn& s) : idx(i), cfg(s.c), steps(s.steps), rng(hkey(S->seed, 0xc11e, (u64)s.c.get("id", i))) {
    role = (Role)cfg.get("role");
    tls = cfg.get("tls");
    rate = cfg.get("rate");
    dchunk = cfg.get("dchunk");
    if (role == FUZZ) W.have_fuzz = true;
}
Client::~Client() {
    if (ssl) SSL_free(ssl);
}
std::string Client::name() const {
    return "client " + std::to_string(idx) + (c ? " (conn " + std::to_string(c->id) + ")" : "");
}
bool Client::calm() const { return K.now >= W.t_calm; }

void Client::start() {
    u32 ip = (10u << 24) | (u32)((hkey(S->seed, 0x1b, (u64)cfg.get("id", idx)) & 0xffff00) | (u32)(idx & 255));
    c = K.connect(this, ip, 20000 + idx);
    if (role != FUZZ && cfg.get("sid0")) next_stream = (u32)cfg.get("sid0") | 1;
    if (cfg.get("scap")) c->tx_cap = (size_t)cfg.get("scap");
    if (cfg.get("rcap")) c->rx_cap = (size_t)cfg.get("rcap");
    tracef("conn %d: client %d connects (%s%s)", c->id, idx, role == WB ? "well-behaved" : role == BAD ? "misbehaving" : "fuzz", tls ? ", TLS" : "");
    if (c->nowhere) {
        finish(true);
        return;
    }
    if (cfg.get("pl")) {
        i64 pt = cfg.get("pt") * US, pl = cfg.get("pl") * US;
        K.at(K.now + pt, [this, pl] {
            c->part_until = std::min(K.now + pl, std::max(W.t_calm, K.now));
            fault(F_PARTITION);
            ev_hash("partition", (u64)c->id);
            tracef("conn %d: network partition for %lld us", c->id, (long long)(pl / US));
        });
    }
    if (W.t_calm > K.now)
        K.at(W.t_calm, [this] {
            if (ended) return;
            c->part_until = std::min(c->part_until, K.now);
            if (!cfg.get("nr")) paused = false;
            K.schedule_flight(c);
            if (cfg.get("nr"))
                K.kick(c);
            else
                K.undelay(c);
        });
    if (tls && !cfg.get("plain")) {
        ErrQueue q;
        ssl = SSL_new(client_ctx());
        rb = BIO_new(BIO_s_mem());
        wb = BIO_new(BIO_s_mem());
        SSL_set_bio(ssl, rb, wb);
        if (cfg.get("tls12")) SSL_set_max_proto_version(ssl, TLS1_2_VERSION);
        static const std::string offers[] = {"\2h2", "\2h2\10http/1.1", "\10http/1.1\2h2", "\6spdy/3\10http/1.1\3h2c\2h2", "\2h3\2h2\2hq", "\3h2x\1h\2h2"};
        const std::string& offer = offers[cfg.get("alpn") % 6];
        SSL_set_alpn_protos(ssl, (const u8*)offer.data(), (unsigned)offer.size());
        SSL_set_tlsext_host_name(ssl, "example.test");
        SSL_set_connect_state(ssl);
    } else
        hs_done = true;
    if (ssl) tls_pump();
    advance();
}

static bool any_time(const std::string& k) {
    return k == "fin" || k == "rst" || k == "close" || k == "garbage" || k == "pause" || k == "resume" || k == "rate" || k == "sleep";
}
void Client::advance() {
    if (in_advance) return;
    in_advance = true;
    while (!ended && !self_killed && ip < steps.size()) {
        Rec& st = steps[ip];
        if (!waited && st.get("d") > 0) {
            waited = true;
            flush();
            i64 d = st.get("d") * US;
            K.at(K.now + d, [this] {
                if (waited) {
                    steps[ip].i["d"] = 0;
                    waited = false;
                    advance();
                }
            });
            in_advance = false;
            return;
        }
        if (waited) break;
        if (!hs_done && !any_time(st.kind)) break;
        static const std::set<std::string> between = {"req", "ping", "settings", "wu", "prio", "unk"};
        if (!between.count(st.kind)) release();
        if (!exec(st)) {
            release();
            break;
        }
        t_act = K.now;
        if (st.get("rep") > 0) {  // the same again
            st.set("rep", st.get("rep") - 1).set("d", st.get("every")).set("s", st.get("s") + 1);
            continue;
        }
        ip++;
    }
    if (!ended && !self_killed) {
        if (ip >= steps.size()) release();
        flush();
    }
    if (ip >= steps.size()) steps_done = true;
    in_advance = false;
    maybe_done();
}
void Client::maybe_done() {
    if (ended || self_killed || closing || !steps_done || role != WB || outstanding > 0 || owed() || !out.empty() || !ups.empty()) return;
    if (cfg.get("end") == 1 || said_goodbye) {
        if (W.on_settled) W.on_settled(this);
        return;
    }
    closing = true;
    K.at(K.now + cfg.get("ed", 100) * US, [this] {
        if (ended || self_killed) return;
        said_goodbye = true;
        if (ssl && hs_done && !tls_dead) {
            ErrQueue q;
            SSL_shutdown(ssl);
            tls_pump();
        }
        K.client_close(c);
        self_killed = true;
        t_end = K.now;
        if (W.on_settled) W.on_settled(this);
    });
}
bool Client::owed() const { return role == WB && hello_sent && !said_goodbye && !(unacked.empty() && pings.empty()); }
bool Client::settled() const {
    if (ended || self_killed) return true;
    if (role != WB) return !must_close || c->server_closed;
    return steps_done && outstanding == 0 && !owed() && out.empty() && ups.empty() && (cfg.get("end") == 1 || said_goodbye);
}
void Client::finish(bool rst) {
    if (ended) return;
    ended = true;
    t_end = K.now;
    tracef("%s: stream ended by the server (%s)", name().c_str(), rst ? "reset" : "FIN");
    if (W.on_settled) W.on_settled(this);
}

// ---------------------------------------------------------------- peer callbacks
bool Client::reading() const { return !paused; }
i64 Client::drain_rate() const { return calm() && !cfg.get("nr") ? 0 : rate; }
i64 Client::drain_chunk() {
    if (calm() || !dchunk) return 1 << 30;
    return rng.logu(1, dchunk);
}
i64 Client::drain_latency() {
    if (cfg.get("zl")) return 0;
    if (calm()) return 50 * US;
    return (cfg.get("lat", 100) + (i64)rng.below((u64)cfg.get("jit") + 1)) * US;
}
i64 Client::seg_latency() {
    if (calm()) return 50 * US;
    i64 j = (i64)rng.below((u64)cfg.get("jit") + 1);
    if (j > 1000) fault(F_DELAY);
    return (cfg.get("lat", 100) + j) * US;
}
i64 Client::pick_segment(size_t left) {
    if (calm()) {
        cuts.clear();
        return (i64)left;
    }
    if (!cuts.empty()) {
        size_t n = cuts.front();
        cuts.pop_front();
        return (i64)std::min(n, left);
    }
    switch (cfg.get("seg")) {
        case 1:
            return sent_small++ < 3000 ? 1 : rng.logu(1, (i64)left);
        case 2:
            return sent_small++ < 3000 ? rng.range(1, 24) : rng.logu(1, (i64)left);
        case 3:
            return rng.logu(1, (i64)left);
        default:
            return (i64)left;
    }
}
void Client::plan_cuts(size_t n, const std::vector<size_t>& bounds) {
    cuts.clear();
    if (cfg.get("seg") != 4 || calm()) return;
    size_t pos = 0;
    for (size_t b : bounds) {
        static const int off[] = {-9, -1, 0, 1, 5, 9, 10};
        i64 at = (i64)b + off[rng.below(7)];
        if (at > (i64)pos && at < (i64)n && rng.pm(700)) {
            cuts.push_back((size_t)at - pos);
            pos = (size_t)at;
        }
    }
    cuts.push_back(n - pos);
}
void Client::on_data(std::string_view b) {
    if (ended || self_killed) return;
    if (ssl) {
        ErrQueue q;
        BIO_write(rb, b.data(), (int)b.size());
        tls_pump();
    } else
        on_plain(b);
    if (!ended && !self_killed) advance();
}
void Client::on_fin() {
    server_fin = true;
    finish(false);
}
void Client::on_rst() {
    server_rst = true;
    finish(true);
}

// ---------------------------------------------------------------- TLS
void Client::send_wire(std::string_view b) {
    if (b.empty()) return;
    wire += b.size();
    K.client_send(c, b);
}
void Client::tls_pump() {
    ErrQueue q;
    if (tls_dead) return;
    auto push = [this] {
        char* p;
        long n = BIO_get_mem_data(wb, &p);
        if (n <= 0) return;
        std::string o(p, (size_t)n);
        (void)BIO_reset(wb);
        i64 lim = cfg.get("hslim");
        if (lim && !hs_done && (i64)(wire + o.size()) >= lim) {  // abandon the handshake part way
            o.resize((size_t)std::max<i64>(0, lim - (i64)wire));
            tls_dead = true;
            fault(F_TLS_ABANDON);
        }
        plan_cuts(o.size(), {});
        send_wire(o);
    };
    if (!hs_done) {
        int r = SSL_do_handshake(ssl);
        push();
        if (tls_dead) return;
        if (r == 1) {
            hs_done = true;
            probe(SSL_version(ssl) == TLS1_3_VERSION ? P_TLS13 : P_TLS12);
            ev_hash("hs", (u64)c->id);
            tracef("%s: TLS handshake complete", name().c_str());
            tlsconf_peer(ssl, name());
        } else if (ERR_peek_error()) {
            unsigned long e = ERR_peek_error();
            tls_dead = true;
            if (role == WB && !self_killed)
                violation("tls_corrupt", "%s: TLS handshake failed: %s", name().c_str(), ERR_reason_error_string(e) ? ERR_reason_error_string(e) : "?");
            return;
        } else
            return;
    }
    char buf[16384];
    while (true) {
        int n = SSL_read(ssl, buf, sizeof buf);
        if (n > 0) {
            on_plain({buf, (size_t)n});
            if (ended || self_killed) return;
            continue;
        }
        push();
        if (SSL_get_shutdown(ssl) & SSL_RECEIVED_SHUTDOWN) {
            got_close_notify = true;
            break;
        }
        if (ERR_peek_error()) {
            unsigned long e = ERR_peek_error();
            tls_dead = true;
            if (role == WB && !broken)
                violation("tls_corrupt", "%s: the encrypted stream is damaged: %s", name().c_str(), ERR_reason_error_string(e) ? ERR_reason_error_string(e) : "?");
        }
        break;
    }
}
void Client::flush() {
    if (out.empty() || !hs_done) return;
    if (ssl) {
        ErrQueue q;
        if (tls_dead) {
            out.clear();
            return;
        }
        size_t pos = 0, mi = 0, bi = 0;
        std::string all;
        std::vector<size_t> bounds;
        i64 mode = cfg.get("rec");
        std::vector<std::pair<u64, i64*>> marks;
        while (pos < out.size()) {
            size_t n = out.size() - pos;
            if (mode == 1) {
                while (bi < out_bounds.size() && out_bounds[bi] <= pos) bi++;
                if (bi < out_bounds.size()) n = std::min(n, out_bounds[bi] - pos);
            } else if (mode == 2)
                n = std::min<size_t>(n, (size_t)rng.logu(1, 400));
            n = std::min<size_t>(n, 16384);
            int w = SSL_write(ssl, out.data() + pos, (int)n);
            if (w <= 0) {
                tls_dead = true;
                break;
            }
            pos += (size_t)w;
            char* p;
            long k = BIO_get_mem_data(wb, &p);
            if (k > 0) {
                std::string rec(p, (size_t)k);
                (void)BIO_reset(wb);
                if (corrupt_next) {
                    corrupt_next = false;
                    size_t at = 5 + rng.below(rec.size() - 5);
                    rec[at] = (char)(rec[at] ^ (1 << rng.below(8)));
                    fault(F_TLS_CORRUPT);
                }
                all += rec;
                bounds.push_back(all.size());
            }
            while (mi < out_marks.size() && out_marks[mi].first <= pos) {
                marks.push_back({wire + all.size(), out_marks[mi].second});
                mi++;
            }
        }
        for (auto& m : marks) c->marks.push_back(m);
        out.clear();
        out_marks.clear();
        out_bounds.clear();
        plan_cuts(all.size(), bounds);
        send_wire(all);
    } else {
        std::string o;
        o.swap(out);
        for (auto& m : out_marks) c->marks.push_back({wire + m.first, m.second});
        out_marks.clear();
        plan_cuts(o.size(), out_bounds);
        out_bounds.clear();
        send_wire(o);
    }
}

// ---------------------------------------------------------------- sending
static std::string be(u64 v, int n) {
    std::string o;
    for (int i = n - 1; i >= 0; i--) o.push_back((char)(v >> (8 * i)));
    return o;
}
static std::string frame_bytes(int type, int flags, u32 stream, std::string_view payload) {
    std::string o = be(payload.size(), 3);
    o.push_back((char)type);
    o.push_back((char)flags);
    o += be(stream, 4);
    o += payload;
    return o;
}
void Client::frame(int type, int flags, u32 stream, std::string_view payload) {
    if (int odd = (int)cfg.get("odd"); odd && role == WB) {  // what has no meaning is to be ignored
        static const u8 defined[] = {0x09, 0x2d, 0, 0, 0x01, 0x0c, 0x01, 0, 0, 0x04};
        u64 h = hkey(S->seed, 0x0dd, (u64)cfg.get("id", idx), odd_frames++);
        if ((int)(h % 1000) < odd && type <= T_CONT) flags |= (int)(h >> 16) & 0xff & ~defined[type];
        if ((int)((h >> 32) % 1000) < odd) stream |= 0x80000000u;
    }
    out += frame_bytes(type, flags, stream, payload);
    out_bounds.push_back(out.size());
}
void Client::grant(u32 stream, i64 inc) {
    frame(T_WU, 0, stream, be((u64)inc, 4));
    grants.push_back({-1, stream, inc});
    out_marks.push_back({out.size(), &grants.back().t});
}
void Client::send_settings(Rec& st) {
    std::string p;
    auto put = [&](int id, i64 v) {
        p += be((u64)id, 2);
        p += be((u64)v, 4);
    };
    SentSettings ss{-1, -1, -1};
    if (st.i.count("hts0")) put(1, st.get("hts0"));  // a later value of the same frame replaces it
    if (st.i.count("hts")) put(1, ss.hts = st.get("hts"));
    if (st.i.count("push")) put(2, st.get("push"));
    if (st.i.count("iws")) put(4, ss.iws = st.get("iws"));
    if (st.i.count("mfs")) put(5, ss.mfs = st.get("mfs"));
    if (st.i.count("mhl")) put(6, st.get("mhl"));
    for (i64 k = 0; k < st.get("extra"); k++) put(0x4a4a + (int)k, k * 77);
    if (ss.iws >= 0) {  // a window the server may already count on
        if (ss.iws > iws) {
            for (auto& [s, w] : swin) w += ss.iws - iws;
            iws = ss.iws;
        }
    }
    if (ss.mfs > max_frame) max_frame = ss.mfs;
    unacked.push_back(ss);
    frame(T_SETTINGS, 0, 0, p);
}
void Client::send_request(Rec& st) {
    Req* r = new_req(this, &st);
    next_stream += 2 * (u32)st.get("skip");  // identifiers need not be used without gaps
    r->stream = next_stream;
    next_stream += 2;
    reqs.push_back(r);
    if (st.i.count("tsu")) {
        enc.table_update((size_t)st.get("tsu"));
        if (st.i.count("tsu2")) enc.table_update((size_t)st.get("tsu2"));
        probe(P_TABLE_UPDATE_REQ);
    }
    EncStyle es;
    i64 e = st.get("enc");
    if (e) {
        es.p_index = (int)(hkey((u64)e, 1) % 1001);
        es.p_incr = (int)(hkey((u64)e, 2) % 1001);
        es.p_never = (int)(hkey((u64)e, 3) % 1001);
        es.p_nameidx = (int)(hkey((u64)e, 4) % 1001);
        es.p_huff = (int)(hkey((u64)e, 5) % 1001);
    }
    u64 d0 = enc.dyn_hits, h0 = enc.huff, e0 = enc.t.evictions;
    RefEncoder before;
    size_t raw = 0;
    for (auto& h : r->hdrs) raw += h.first.size() + h.second.size();
    if (raw > 14000) before = enc;
    std::string block = enc.encode(r->hdrs, es, Rng(hkey((u64)e, (u64)st.get("hs"), 0xe4c)));
    if (block.size() > 65000) {  // Huffman coding can make a value four times as long
        enc = before;
        es.p_huff = 0;
        es.p_nonmin = 0;
        block = enc.encode(r->hdrs, es, Rng(hkey((u64)e, (u64)st.get("hs"), 0xe4c)));
    }
    if (enc.dyn_hits > d0) probe(P_DYN_REQ);
    if (enc.huff > h0) probe(P_HUFF_REQ);
    if (enc.t.evictions > e0) probe(P_EVICT_REQ);
    i64 dn = st.get("dn");
    bool trailers = st.get("tr");
    bool es_now = dn == 0 && !trailers;
    // the block, over one HEADERS and any number of CONTINUATION frames
    size_t nf = (size_t)std::max<i64>(0, st.get("fr"));
    while (block.size() / (nf + 1) > 15000) nf++;
    std::vector<size_t> cut = {0};
    Rng g(hkey((u64)st.get("hs"), 0xf4a6));
    for (size_t k = 0; k < nf; k++) cut.push_back(block.size() > 15000 * (nf + 1) ? (k + 1) * block.size() / (nf + 1) : g.below(block.size() + 1));
    if (block.size() > 15000)
        for (size_t k = 1; k <= nf; k++) cut[k] = k * block.size() / (nf + 1);
    cut.push_back(block.size());
    std::sort(cut.begin(), cut.end());
    for (size_t k = 0; k <= nf; k++) {
        std::string part = block.substr(cut[k], cut[k + 1] - cut[k]);
        bool last = k == nf;
        if (k == 0) {
            int fl = (last ? 4 : 0) | (es_now ? 1 : 0);
            std::string p;
            i64 pad = st.get("pad");
            if (pad > 0) {
                pad = std::min<i64>(pad - 1, 255);
                fl |= 8;
                p.push_back((char)pad);
                probe(P_PADDED_REQ);
            }
            if (st.get("prio")) {
                fl |= 0x20;
                p += be((u64)(st.get("prio") & 0x7fffffff), 4);
                p.push_back((char)(st.get("prio") & 255));
                probe(P_PRIORITY_REQ);
            }
            p += part;
            if (fl & 8) p.append((size_t)pad, '\0');
            frame(T_HEADERS, fl, r->stream, p);
        } else {
            frame(T_CONT, last ? 4 : 0, r->stream, part);
            probe(P_CONTINUATION_REQ);
        }
    }
    out_marks.push_back({out.size(), &r->t_hdr_arrived});
    for (auto& u : ups)
        if (u.hold > 0) u.hold--;
    Upload up{r, {}, {}, es, hkey((u64)e, 0x77a), (int)st.get("late")};
    if (dn > 0 || trailers) {
        i64 df = std::max<i64>(1, st.get("df", 1));
        for (i64 k = 0; dn > 0; k++) {
            i64 n = k + 1 >= df ? dn : std::min<i64>(dn, 1 + (i64)g.below((u64)dn));
            n = std::min<i64>(n, st.get("dfs", 16000));
            dn -= n;
            std::string p;
            int fl = 0;
            i64 pad = st.get("dpad");
            if (pad > 0) {
                fl |= 8;
                p.push_back((char)std::min<i64>(pad - 1, 200));
            }
            for (i64 q = 0; q < n; q++) p.push_back((char)g.next());
            if (pad > 0) p.append((size_t)std::min<i64>(pad - 1, 200), '\0');
            if (dn == 0 && !trailers) fl |= 1;
            up.frames.push_back({fl, p});
        }
        if (trailers) up.trailers = gen_headers((u64)st.get("tr"), (int)(st.get("tr") % 3) + 1, 20, true);
    }
    if (up.frames.empty() && up.trailers.empty())
        out_marks.push_back({out.size(), &r->t_arrived});
    else {
        sws[r->stream] = sw_init;
        ups.push_back(std::move(up));
    }
    if (!ups.empty()) pump_uploads();
    r->t_sent = K.now;
    streams[r->stream] = r;
    swin[r->stream] = iws;
    outstanding++;
    R->requests++;
    ev_hash("req", (u64)c->id, r->stream);
    tracef("%s: sends request %s (%s %s) on stream %u", name().c_str(), r->uid.c_str(), r->method.c_str(), r->path.c_str(), r->stream);
}
void Client::release() {
    bool any = false;
    for (auto& u : ups) any |= u.hold > 0, u.hold = 0;
    if (any) pump_uploads();
}
// sends what the server's windows allow
void Client::pump_uploads() {
    bool any = !ups.empty();
    for (auto it = ups.begin(); it != ups.end();) {
        if (it->hold > 0 && it->frames.size() <= 1) {  // the end comes later, other requests come first
            ++it;
            continue;
        }
        i64& w = sws[it->r->stream];
        while (it->frames.size() > (it->hold > 0 ? 1 : 0)) {
            auto& [fl, p] = it->frames.front();
            if (role == WB && ((i64)p.size() > w || (i64)p.size() > swc)) break;
            w -= (i64)p.size();
            swc -= (i64)p.size();
            frame(T_DATA, fl, it->r->stream, p);
            it->frames.pop_front();
        }
        if (!it->frames.empty()) {
            if (!it->hold) probe(P_UPLOAD_WAITS);
            ++it;
            continue;
        }
        if (!it->trailers.empty()) frame(T_HEADERS, 5, it->r->stream, enc.encode(it->trailers, it->es, Rng(it->tkey)));
        out_marks.push_back({out.size(), &it->r->t_arrived});
        it = ups.erase(it);
    }
    if (any && ups.empty() && !in_advance) advance();
}
static std::string bad_block(Rng& g, int k) {
    std::string o;
    switch (k % 12) {
        case 0:
            o = "\x80";  // index 0
            break;
        case 1:
            put_int(o, 62 + 4000 + g.below(1000), 7, 0x80);  // beyond both tables
            break;
        case 2:
            o = std::string("\x40\x05" "ab", 4);  // name cut short
            break;
        case 3:
            o = std::string("\x82\x84\x41\x05" "ab", 6);  // value cut short
            break;
        case 4:
            o = "\xff\xff\xff";  // integer without end
            break;
        case 5:
            o = "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f";  // integer overflow
            break;
        case 6: {
            o = "\x40";
            o += "\x01" "a";
            o += std::string("\x84\xff\xff\xff\xff", 5);  // Huffman string containing EOS
            break;
        }
        case 7:
            o = std::string("\x40\x01" "a" "\x81\x00", 5);  // Huffman padding that is not ones
            o[4] = (char)0x18;                               // 'a' is 00011, then 000
            break;
        case 8:
            o = "";
            put_int(o, 1u << 20, 5, 0x20);  // table larger than allowed
            break;
        case 9:
            o = std::string("\x40\x82\xff\xff\x01" "a", 6);  // Huffman name ending in more than 7 bits of padding
            break;
        case 10:
            put_int(o, 300, 6, 0x40);  // name index beyond the table
            o += "\x01" "a";
            break;
        default:
            o = std::string("\x0f\x80\x80\x80\x80\x80\x80\x01", 8);  // name index of 2^42
            o += "\x01" "a";
            break;
    }
    return o;
}
void Client::send_bad(Rec& st) {
    i64 b = st.get("b");
    Rng g(hkey(0xbad, (u64)st.get("s")));
    u32 sid = next_stream;
    fault(F_BAD_FRAME);
    auto rnd = [&](size_t n) {
        std::string o;
        for (size_t i = 0; i < n; i++) o.push_back((char)g.next());
        return o;
    };
    switch (b) {
        case 0: {  // wrong preface
            std::string p(PREFACE, 24);
            i64 how = st.get("s") % 4;
            if (how == 0)
                p[g.below(24)] ^= (char)(1 << g.below(7));
            else if (how == 1)
                p = "GET / HTTP/1.1\r\nHost: example.test\r\nUser-Agent: old\r\n\r\n";
            else if (how == 2)
                p = rnd(24 + g.below(40)), p[0] = 'Q';
            else
                p = p.substr(0, 18) + frame_bytes(T_SETTINGS, 0, 0, "");
            while (p.size() < 24) p.push_back('x');
            out += p;
            break;
        }
        case 1: {  // frame larger than the advertised maximum
            static const int types[] = {T_DATA, T_HEADERS, T_SETTINGS, T_PING, 0x40, T_CONT, T_GOAWAY};
            u64 len = (st.get("s") & 1) ? 16385 + g.below(40) : 16385 + g.below((1 << 24) - 16385);
            std::string h = be(len, 3);
            h.push_back((char)types[g.below(7)]);
            h.push_back((char)g.below(256));
            h += be(sid, 4);
            out += h + rnd((size_t)g.logu(1, 20000));
            break;
        }
        case 2: {  // SETTINGS whose length is not a multiple of six
            size_t n = 1 + g.below(60);
            if (n % 6 == 0) n++;
            frame(T_SETTINGS, 0, 0, rnd(n));
            break;
        }
        case 3: {  // WINDOW_UPDATE of impossible size
            size_t n = g.below(9);
            if (n == 4) n = 3;
            frame(T_WU, 0, g.pm(500) ? 0 : sid, rnd(n));
            break;
        }
        case 4: {  // PING of impossible size
            size_t n = g.below(20);
            if (n == 8) n = 7;
            frame(T_PING, 0, 0, rnd(n));
            break;
        }
        case 5: {  // RST_STREAM, PRIORITY or GOAWAY of impossible size
            if (g.pm(400)) {
                size_t n = g.below(9);
                if (n == 4) n = 5;
                frame(T_RST, 0, sid, rnd(n));
            } else if (g.pm(500)) {
                size_t n = g.below(12);
                if (n == 5) n = 6;
                frame(T_PRIORITY, 0, sid, rnd(n));
            } else
                frame(T_GOAWAY, 0, 0, rnd(g.below(8)));
            break;
        }
        case 6:  // HEADERS with a priority section that does not fit
            frame(T_HEADERS, 0x24 | (int)g.below(2), sid, rnd(g.below(5)));
            break;
        case 7: {  // padding longer than the payload
            size_t n = g.below(60);
            std::string p = rnd(n + 1);
            p[0] = (char)std::min<size_t>(255, n + 1 + g.below(100));
            if (n == 0 && g.pm(300)) p.clear();
            frame(g.pm(600) ? T_HEADERS : T_DATA, 0x0d, sid, p);
            break;
        }
        case 8: {  // undecodable header block
            Hdrs ok = {{":method", "GET"}, {":scheme", "http"}, {":path", "/bad/hb"}, {"x-uid", "bad"}};
            EncStyle es;
            std::string blk;
            int kind = (int)(st.get("s") % 19);
            if (kind != 8 && kind != 15 && g.pm(600)) blk = enc.encode(ok, es, g);
            // limits missed by one
            if ((kind == 12 || kind == 13) && enc.t.evictions) kind = 1;
            if (kind == 12)
                put_int(blk, 62 + enc.t.e.size(), 7, 0x80);
            else if (kind == 13) {
                bool six = g.pm(500);
                put_int(blk, 62 + enc.t.e.size(), six ? 6 : 4, six ? 0x40 : 0);
                blk += "\x01" "a";
            } else if (kind == 14) {
                std::string v(1 + g.below(300), 'v');
                blk += std::string("\x40\x01" "a", 3);
                put_int(blk, v.size() + 1, 7, 0);
                blk += v;
            } else if (kind == 15)
                put_int(blk, 65537, 5, 0x20);
            else if (kind == 17 || kind == 18) {
                static const char five[] = "012aceiost";  // codes of five bits
                static const int few[] = {1, 3, 4, 6};    // so many leave 3, 1, 4 and 2 bits
                int n = kind == 17 ? 8 * (1 + (int)g.below(6)) : few[g.below(4)];
                std::string v;
                for (int k = 0; k < n; k++) v.push_back(five[g.below(10)]);
                std::string h = huff_encode(v);
                if (kind == 17)
                    h.push_back((char)0xff);  // padding of a whole byte
                else {
                    int pad = 8 * (int)h.size() - 5 * n;  // padding which is not all ones
                    h.back() = (char)(((u8)h.back() & ~((1 << pad) - 1)) | (int)g.below((1u << pad) - 1));
                }
                blk += "\x40";
                bool name = g.pm(500);
                if (!name) blk += "\x01" "a";
                put_int(blk, h.size(), 7, 0x80);
                blk += h;
                if (name) blk += "\x01" "a";
            } else if (kind == 16)
                blk += g.pm(500) ? "\x40" : std::string("\x40\x01" "a", 3);
            else
                blk += bad_block(g, kind);
            if (blk.size() > 1 && g.pm(250)) {
                size_t at = 1 + g.below(blk.size() - 1);
                frame(T_HEADERS, 1, sid, blk.substr(0, at));
                frame(T_CONT, 4, sid, blk.substr(at));
            } else
                frame(T_HEADERS, 5, sid, blk);
            break;
        }
        case 9: {  // another frame in the middle of a header block
            int in = (int)g.below(3);  // how many frames of the block come before it
            frame(T_HEADERS, 1, sid, std::string("\x82\x84", 2));
            for (; in > 1; in--) frame(T_CONT, 0, sid, "");
            switch (g.below(10)) {
                case 0:
                case 1:
                    frame(T_PING, 0, 0, rnd(8));
                    break;
                case 2:
                case 3:
                    frame(T_CONT, 4, sid + 2, "\x86");
                    break;
                case 4:
                    frame(T_DATA, 1, sid, rnd(g.below(20)));
                    break;
                case 5:
                    frame(T_SETTINGS, 0, 0, "");
                    break;
                case 6:
                    frame(T_WU, 0, g.pm(500) ? 0 : sid, be(1 + g.below(1000), 4));
                    break;
                case 7:
                    frame(T_HEADERS, 5, g.pm(500) ? sid : sid + 2, std::string("\x82\x84\x86", 3));
                    break;
                case 8:
                    frame(T_PRIORITY, 0, sid, be(0, 4) + "\x10");
                    break;
                default:
                    frame(0x20 + (int)g.below(50), (int)g.below(256), g.pm(500) ? 0 : sid, rnd(g.below(20)));
            }
            frame(T_CONT, 4, sid, "\x86");
            break;
        }
        case 10:  // CONTINUATION without a header block
            frame(T_CONT, 4, sid, std::string("\x82\x84\x86", 3));
            break;
        case 11:  // corrupted TLS record
            flush();
            corrupt_next = true;
            frame(T_PING, 0, 0, rnd(8));
            break;
        case 12: {  // garbage in place of TLS records
            flush();
            std::string p = rnd(6 + g.below(300));
            p[0] = (char)0x17;
            p[1] = 9;
            send_wire(p);
            c->marks.push_back({wire, &t_bad});
            fault(F_GARBAGE);
            bad_sent = must_close = true;
            tls_dead = true;
            return;
        }
        case 13: {  // SETTINGS acknowledgement with a payload
            frame(T_SETTINGS, 1, 0, rnd(6 * (1 + g.below(3))));
            break;
        }
        default:
            break;
    }
    out_marks.push_back({out.size(), &t_bad});
    bad_sent = must_close = true;
    next_stream += 4;
    ev_hash("bad", (u64)c->id, (u64)b);
    tracef("%s: sends malformed input, kind %lld", name().c_str(), (long long)b);
}

// a header block which decodes to far more than it takes to send
void Client::send_bomb(Rec& st) {
    Rng g(hkey(0xb03b, (u64)st.get("s")));
    i64 k = st.get("k"), n = st.get("n", 1000), nl = st.get("nl", 3000), vl = st.get("vl", 900);
    std::string b;
    if (st.get("tsu")) put_int(b, (u64)st.get("tsu"), 5, 0x20);
    if (st.get("req")) {
        b += std::string("\x82\x84\x86", 3);
        b += std::string("\x40\x05x-uid\x03" "zip", 11);
    }
    auto str = [&](size_t len) {
        std::string o(len, 'a');
        if (st.get("huff")) {
            std::string h = huff_encode(o), r;
            put_int(r, h.size(), 7, 0x80);
            return r + h;
        }
        std::string r;
        put_int(r, o.size(), 7, 0);
        return r + o;
    };
    b += "\x40" + str((size_t)nl) + str((size_t)vl);
    for (i64 i = 0; i < n; i++) switch (k % 4) {
            case 0:
                b += "\xbe";  // the newest entry, again
                break;
            case 1:
                b += std::string("\x7e\x00", 2);  // its name, with an empty value, inserted
                break;
            case 2:
                b += std::string("\x0f\x2f\x00", 3);  // its name, with an empty value
                break;
            default:
                b += g.pm(500) ? "\xbe" : std::string("\x7e\x01" "x", 3);
        }
    size_t at = 0;
    u32 sid = next_stream;
    next_stream += 2;
    bool first = true;
    fault(F_HEADER_BOMB);
    do {
        size_t c2 = std::min<size_t>(b.size() - at, (size_t)st.get("fs", 16384));
        bool last = at + c2 == b.size() && !st.get("open");
        frame(first ? T_HEADERS : T_CONT, (last ? 4 : 0) | (first ? 1 : 0), sid, std::string_view(b).substr(at, c2));
        at += c2;
        first = false;
    } while (at < b.size());
    ev_hash("bomb", (u64)this->c->id, (u64)n);
    tracef("%s: sends a header block of %zu bytes, kind %lld", name().c_str(), b.size(), (long long)k);
}
// very many frames of a kind
void Client::send_flood(Rec& st) {
    Rng g(hkey(0xf100d, (u64)st.get("s")));
    i64 k = st.get("k"), n = st.get("n", 1000);
    size_t sz = (size_t)st.get("sz", 100);
    u32 sid = next_stream;
    next_stream += 2;
    fault(F_FLOOD);
    if (k == 0) frame(T_HEADERS, 1, sid, std::string("\x82\x84", 2));
    for (i64 i = 0; i < n; i++) switch (k) {
            case 0:
                frame(T_CONT, 0, sid, std::string(sz, '\x86'));
                break;
            case 1:
                frame(T_PING, 0, 0, be((u64)i, 8));
                break;
            case 2:
                frame(T_SETTINGS, 0, 0, be(1, 2) + be(g.next() & 0xffffffff, 4) + be(4, 2) + be(65535, 4));
                break;
            case 3:
                frame(T_WU, 0, sid + 2 * (u32)i, be(1 + g.below(100), 4));
                frame(T_PRIORITY, 0, sid + 2 * (u32)i, be(0, 4) + "\x10");
                frame(T_RST, 0, sid + 2 * (u32)i, be(8, 4));
                break;
            case 4:
                frame(0x30 + (int)g.below(100), (int)g.below(256), sid + 2 * (u32)g.below(1000), std::string(sz, 'u'));
                break;
            case 5:
                frame(T_HEADERS, 5, next_stream, std::string("\x82\x84\x86", 3));
                next_stream += 2;
                break;
            case 6:
                frame(T_DATA, 0, sid + 2 * (u32)g.below(1000), std::string(sz, 'd'));
                break;
            default: {  // a fresh header in the table with every request
                std::string b("\x82\x84\x86\x40", 4), v = std::to_string(g.next()) + std::string(sz, 'v');
                b += std::string("\x03" "x-f", 4);
                put_int(b, v.size(), 7, 0);
                frame(T_HEADERS, 5, next_stream, b + v);
                next_stream += 2;
            }
        }
    ev_hash("flood", (u64)c->id, (u64)k);
    tracef("%s: sends %lld frames, kind %lld", name().c_str(), (long long)n, (long long)k);
}

bool Client::exec(Rec& st) {
    const std::string& k = st.kind;
    if (k == "hello") {
        hello_sent = true;
        out.append(PREFACE, 24);
        out_bounds.push_back(out.size());
        send_settings(st);
        if (i64 w = st.get("wu", 0)) {
            grant(0, w);
        }
    } else if (k == "req") {
        if (role == WB && outstanding >= 100) return false;
        send_request(st);
    } else if (k == "ping") {
        std::string p = be(hkey(0x9196, (u64)st.get("s")), 8);
        bool ack = st.get("ack");
        if (!ack) pings.push_back(p);
        frame(T_PING, ack ? 1 : 0, 0, p);
    } else if (k == "settings") {
        send_settings(st);
    } else if (k == "wu") {
        u32 s = st.get("stream") && !reqs.empty() ? reqs.back()->stream : 0;
        if (s == (u32)-1) s = 0;
        i64 inc = st.get("inc", 1000);
        if (s) {
            if (swin[s] + inc > 0x7fffffff) return true;
        } else {
            if (cwin + inc > 0x7fffffff) return true;
        }
        for (auto& g : grants)
            if (g.stream == s) inc = std::min(inc, 0x7fffffff - (s ? swin[s] : cwin) - g.inc);
        if (inc < 1) return true;
        grant(s, inc);
    } else if (k == "prio") {
        frame(T_PRIORITY, 0, next_stream + 2 * (u32)(st.get("s") % 5), be((u64)st.get("s") & 0x7fffffff, 4) + "\x10");
    } else if (k == "unk") {
        Rng g(hkey(0x4e4, (u64)st.get("s")));
        std::string p;
        for (i64 i = 0; i < st.get("n"); i++) p.push_back((char)g.next());
        frame(0x20 + (int)g.below(200), (int)g.below(256), g.pm(500) ? 0 : next_stream, p);
    } else if (k == "cancel") {
        if (!reqs.empty()) {
            Req* r = reqs.back();
            frame(T_RST, 0, r->stream, be(8, 4));
            std::erase_if(ups, [r](const Upload& u) { return u.r == r; });
            if (r->got < 2 && !r->cancelled) {
                r->cancelled = true;
                outstanding--;
            }
        }
    } else if (k == "goaway") {
        if (!got_settings || !ups.empty()) return false;  // nothing may be on its way to a server which closes
        frame(T_GOAWAY, 0, 0, be(0, 4) + be(0, 4));
        said_goodbye = true;
        probe(P_GOAWAY);
    } else if (k == "raw") {
        out += unhex(st.str("hex"));
    } else if (k == "bomb") {
        send_bomb(st);
    } else if (k == "flood") {
        send_flood(st);
    } else if (k == "garbage") {
        Rng g(hkey(0x6a6, (u64)st.get("s")));
        std::string p;
        for (i64 i = 0; i < st.get("n"); i++) p.push_back((char)g.next());
        fault(F_GARBAGE);
        if (st.get("wire") || !hs_done) {
            flush();
            send_wire(p);
        } else
            out += p;
    } else if (k == "mutate") {
        // a valid stretch of traffic with a few bytes changed
        Rng g(hkey(0x3a7, (u64)st.get("s")));
        std::string keep;
        keep.swap(out);
        Rec rq("req", st.i, {});
        rq.kind = "req";
        Rec* leak = new Rec(rq);
        send_request(*leak);
        i64 n = st.get("n", 1);
        fault(F_GARBAGE);
        for (i64 i = 0; i < n && !out.empty(); i++) {
            size_t at = g.below(out.size());
            switch (g.below(4)) {
                case 0:
                    out[at] = (char)g.next();
                    break;
                case 1:
                    out[at] = (char)(out[at] ^ (1 << g.below(8)));
                    break;
                case 2:
                    out.erase(at, 1 + g.below(4));
                    break;
                default:
                    out.insert(at, 1, (char)g.next());
            }
        }
        out = keep + out;
        out_bounds.clear();
        out_marks.clear();
    } else if (k == "bad") {
        send_bad(st);
    } else if (k == "pause") {
        if (!paused) {
            fault(F_READ_PAUSE);
            ev_hash("pause", (u64)c->id);
            tracef("%s: stops reading", name().c_str());
        }
        if (!calm() || cfg.get("nr")) paused = true;
    } else if (k == "resume") {
        paused = false;
        tracef("%s: reads again", name().c_str());
        K.kick(c);
    } else if (k == "rate") {
        rate = st.get("r");
    } else if (k == "await") {
        if (role == WB && outstanding > st.get("k")) return false;
    } else if (k == "awaithello") {
        if (!got_settings) return false;
    } else if (k == "sleep") {
    } else if (k == "keyupdate") {
        if (ssl && SSL_version(ssl) == TLS1_3_VERSION && !tls_dead) {
            flush();
            ErrQueue q;
            key_updates = true;
            SSL_key_update(ssl, st.get("peer") ? SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED);
            SSL_do_handshake(ssl);
            tls_pump();
        }
    } else if (k == "fin") {
        if (!ups.empty() && role == WB) return false;
        flush();
        if (ssl && hs_done && !tls_dead && !st.get("abrupt")) {
            ErrQueue q;
            SSL_shutdown(ssl);
            tls_pump();
        }
        said_goodbye = true;
        tracef("%s: half-closes", name().c_str());
        K.client_fin(c);
    } else if (k == "rst") {
        flush();
        tracef("%s: resets the connection", name().c_str());
        self_killed = true;
        K.client_rst(c, st.get("ord"));
        if (W.on_settled) W.on_settled(this);
    } else if (k == "close") {
        flush();
        tracef("%s: closes its socket", name().c_str());
        if (ssl && hs_done && !tls_dead && st.get("notify")) {
            ErrQueue q;
            SSL_shutdown(ssl);
            tls_pump();
        }
        self_killed = true;
        K.client_close(c);
        if (W.on_settled) W.on_settled(this);
    }
    return true;
}

// ---------------------------------------------------------------- receiving
void Client::fail_stream(const char* cls, const std::string& why) {
    if (role == FUZZ || bad_sent) {
        broken = true;
        return;
    }
    if (!broken) violation(cls, "%s: %s", name().c_str(), why.c_str());
    broken = true;
}
void Client::on_plain(std::string_view b) {
    if (broken) return;
    in.append(b);
    while (!broken && parse_frame()) {
    }
    if (in_off > 65536) {
        in.erase(0, in_off);
        in_off = 0;
    }
}
bool Client::parse_frame() {
    std::string_view v = std::string_view(in).substr(in_off);
    if (v.size() < 9) return false;
    auto u = [&](size_t p, int n) {
        u64 x = 0;
        for (int i = 0; i < n; i++) x = x << 8 | (u8)v[p + (size_t)i];
        return x;
    };
    u64 len = u(0, 3);
    int type = (u8)v[3], flags = (u8)v[4];
    u32 sid = (u32)u(5, 4) & 0x7fffffff;
    auto bad = [&](const char* cls, const std::string& w) {
        fail_stream(cls, w + " (frame " + std::to_string(frames) + ", type " + std::to_string(type) + ", length " + std::to_string(len) + ", stream " + std::to_string(sid) + ")");
        return false;
    };
    if (frames == 0 && (type != T_SETTINGS || (flags & 1))) {
        if (type == T_GOAWAY) {  // e.g. the server is refusing us
        } else if (role == WB)
            return bad("settings_first", "the first frame from the server is not SETTINGS");
    }
    if (len > (u64)max_frame) return bad("frame_size", "frame longer than the maximum we announced");
    if (v.size() < 9 + len) return false;
    std::string_view p = v.substr(9, len);
    in_off += 9 + len;
    frames++;
    if (role == FUZZ) return true;
    if (hstream && (type != T_CONT || sid != hstream)) return bad("stream_corrupt", "a header block is interrupted by another frame");
    switch (type) {
        case T_SETTINGS:
            if (sid != 0) return bad("stream_corrupt", "SETTINGS on a stream");
            if (flags & 1) {
                if (len) return bad("stream_corrupt", "SETTINGS acknowledgement with a payload");
                if (unacked.empty()) return bad("ctl_order", "SETTINGS acknowledged more often than sent");
                SentSettings s = unacked.front();
                unacked.pop_front();
                if (s.hts >= 0) dec.limit_acked((size_t)s.hts);
                if (s.mfs >= 0) max_frame = std::max(max_frame, s.mfs);
                ev_hash("ack", (u64)c->id);
                maybe_done();
            } else {
                if (len % 6) return bad("stream_corrupt", "SETTINGS of impossible length");
                if (got_settings) return bad("settings_first", "the server sent its SETTINGS twice");
                got_settings = true;
                for (u64 k = 0; k + 6 <= len; k += 6)
                    if (u(9 + k, 2) == 4) {
                        i64 v = (i64)u(11 + k, 4);
                        for (auto& [sn, w] : sws) w += v - sw_init;
                        sw_init = v;
                    }
                if (role == WB) pump_uploads();
                if (!ended && !self_killed && !bad_sent && hello_sent) frame(T_SETTINGS, 1, 0, "");
            }
            break;
        case T_PING:
            if (len != 8 || sid) return bad("stream_corrupt", "malformed PING");
            if (flags & 1) {
                if (pings.empty()) return bad("ctl_order", "PING answered more often than sent");
                if (pings.front() != p) return bad("ctl_order", "PING answered with another payload or out of order");
                pings.pop_front();
                maybe_done();
            } else if (!ended && !self_killed)
                frame(T_PING, 1, 0, p);
            break;
        case T_HEADERS: {
            size_t a = 0, pad = 0;
            if (flags & 8) {
                if (p.empty()) return bad("stream_corrupt", "malformed padding");
                pad = (u8)p[0];
                a = 1;
            }
            if (flags & 0x20) a += 5;
            if (a + pad > p.size()) return bad("stream_corrupt", "malformed HEADERS");
            if (!streams.count(sid)) return bad("stream_corrupt", "HEADERS on a stream we never opened");
            hblock.assign(p.substr(a, p.size() - a - pad));
            hstream = sid;
            hes = flags & 1;
            if (flags & 4) on_headers_complete();
            break;
        }
        case T_CONT:
            if (!hstream) return bad("stream_corrupt", "CONTINUATION without HEADERS");
            probe(P_CONTINUATION_RESP);
            hblock.append(p);
            if (flags & 4) on_headers_complete();
            break;
        case T_DATA: {
            auto it = streams.find(sid);
            if (it == streams.end()) return bad("stream_corrupt", "DATA on a stream we never opened");
            Req* r = it->second;
            if (r->got == 0) return bad("stream_corrupt", "DATA before HEADERS");
            if (r->got == 2) return bad("resp_dup", "DATA after the response ended");
            size_t a = 0, pad = 0;
            if (flags & 8) {
                if (p.empty()) return bad("stream_corrupt", "malformed padding");
                pad = (u8)p[0];
                a = 1;
            }
            if (a + pad > p.size()) return bad("stream_corrupt", "malformed DATA");
            std::string_view d = p.substr(a, p.size() - a - pad);
            // only what the server had been granted when it wrote this counts
            for (i64 tw = c->written_at(c->drained); !grants.empty() && grants.front().t >= 0 && grants.front().t <= tw; grants.pop_front())
                (grants.front().stream ? swin[grants.front().stream] : cwin) += grants.front().inc;
            cwin -= (i64)len;
            swin[sid] -= (i64)len;
            if (cwin < 0 || swin[sid] < 0) {
                probe(P_WINDOW_EXCEEDED);
                violation("flow_control", "%s: DATA exceeds the %s window by %lld bytes (request %s)", name().c_str(), cwin < 0 ? "connection" : "stream",
                          (long long)-std::min(cwin, swin[sid]), r->uid.c_str());
            }
            if (cfg.get("wum") && !ended && !self_killed && !said_goodbye && len) {
                // grant again what was consumed
                grant(0, (i64)len);
                if (!(flags & 1)) grant(sid, (i64)len);
            }
            if (r->keep) {
                r->gbytes.append(d);
                r->gbody += d.size();
            } else if (r->x == X_APP || r->x == X_404 || r->x == X_400) {
                if (r->gbody + d.size() > r->blen)
                    return bad("body_mismatch", "body of " + r->uid + " is longer than the " + std::to_string(r->blen) + " bytes the application returned");
                u64 key = body_key(*r);
                size_t i = 0;
                while (i < d.size()) {
                    size_t pos = r->gbody + i;
                    if (pos % 8 == 0 && d.size() - i >= 8) {
                        u64 w = mix64(key + pos / 8);
                        if (memcmp(&w, d.data() + i, 8) == 0) {
                            i += 8;
                            continue;
                        }
                    }
                    if ((u8)d[i] != body_byte(*r, pos))
                        return bad("body_mismatch", "body of " + r->uid + " differs at byte " + std::to_string(pos) + " of " + std::to_string(r->blen));
                    i++;
                }
                r->gbody += d.size();
            } else
                r->gbody += d.size();
            if (flags & 1) complete(r);
            break;
        }
        case T_RST: {
            if (len != 4 || !sid) return bad("stream_corrupt", "malformed RST_STREAM");
            auto it = streams.find(sid);
            if (it == streams.end()) return bad("stream_corrupt", "RST_STREAM on a stream we never opened");
            if (it->second->got < 2 && !it->second->cancelled && role == WB)
                return bad("resp_missing", "the server reset the stream of request " + it->second->uid);
            break;
        }
        case T_GOAWAY:
            if (len < 8 || sid) return bad("stream_corrupt", "malformed GOAWAY");
            tracef("%s: receives GOAWAY", name().c_str());
            break;
        case T_WU:
            if (len != 4 || (u(9, 4) & 0x7fffffff) == 0) return bad("stream_corrupt", "malformed WINDOW_UPDATE");
            if (sid && !streams.count(sid)) return bad("stream_corrupt", "WINDOW_UPDATE on a stream we never opened");
            {
                i64& w = sid ? sws.try_emplace(sid, sw_init).first->second : swc;
                w += (i64)(u(9, 4) & 0x7fffffff);
                if (w > 0x7fffffff) return bad("upload_window", "WINDOW_UPDATE takes the window beyond 2^31-1");
                if (role == WB) pump_uploads();
            }
            break;
        case T_PUSH:
            return bad("stream_corrupt", "PUSH_PROMISE from a server we did not allow to push");
        case T_PRIORITY:
            if (len != 5) return bad("stream_corrupt", "malformed PRIORITY");
            break;
        default:
            break;
    }
    return true;
}
void Client::on_headers_complete() {
    u32 sid = hstream;
    hstream = 0;
    Req* r = streams[sid];
    Hdrs h;
    u64 d0 = dec.dyn_hits, u0 = dec.updates, e0 = dec.t.evictions, b0 = dec.big_index;
    std::string err = dec.decode(hblock, h);
    if (dec.dyn_hits > d0) probe(P_DYN_RESP);
    if (dec.updates > u0) probe(P_TABLE_UPDATE_RESP);
    if (dec.t.evictions > e0) probe(P_EVICT_RESP);
    if (dec.big_index > b0) probe(P_BIG_INDEX_RESP);
    if (!err.empty()) {
        fail_stream("hpack_resp", "response header block of " + r->uid + ": " + err);
        return;
    }
    if (r->got == 2) {
        fail_stream("resp_dup", "a second response for request " + r->uid);
        return;
    }
    if (r->got == 1) {
        // trailers are legal, a second set of response headers is not
        for (auto& [n, v] : h)
            if (n[0] == ':') {
                fail_stream("resp_dup", "a second response for request " + r->uid);
                return;
            }
        if (!hes) {
            fail_stream("stream_corrupt", "trailers that do not end the stream");
            return;
        }
        fail_stream("resp_headers", "trailers the application did not return, for request " + r->uid);
        return;
    }
    r->got = 1;
    r->ghdrs = h;
    r->t_first = K.now;
    ev_hash("resp", (u64)c->id, sid);
    check_response(r);
    if (W.on_resp_headers) W.on_resp_headers(r);
    if (hes) complete(r);
}
void Client::check_response(Req* r) {
    std::string id = "response to " + r->uid + " (" + r->method + " " + r->path.substr(0, 60) + ", stream " + std::to_string(r->stream) + ")";
    if (r->ghdrs.empty() || r->ghdrs[0].first != ":status") {
        r->bad = true;
        violation("resp_status", "%s: %s does not begin with :status", name().c_str(), id.c_str());
        return;
    }
    r->gst = atoi(r->ghdrs[0].second.c_str());
    tracef("%s: receives the head of the response to %s: %s", name().c_str(), r->uid.c_str(), r->ghdrs[0].second.c_str());
    for (size_t i = 1; i < r->ghdrs.size(); i++)
        if (!r->ghdrs[i].first.empty() && r->ghdrs[i].first[0] == ':') {
            violation("resp_headers", "%s: %s has a stray %s", name().c_str(), id.c_str(), r->ghdrs[i].first.c_str());
            return;
        }
    if (role != WB) return;
    if (r->x != X_APP && r->x != X_404 && r->x != X_400) return;
    if (r->x == X_APP && !r->handled) {
        violation("resp_status", "%s: %s arrived although the request never reached the application", name().c_str(), id.c_str());
        return;
    }
    if (r->ghdrs[0].second != std::to_string(r->st)) {
        violation("resp_status", "%s: %s has status %s, the application returned %d", name().c_str(), id.c_str(), r->ghdrs[0].second.c_str(), r->st);
        return;
    }
    // the application's headers, in order, with only the server's own added
    size_t k = 0;
    int cl = 0;
    for (size_t i = 1; i < r->ghdrs.size(); i++) {
        auto& h = r->ghdrs[i];
        if (k < r->rh.size() && h == r->rh[k]) {
            k++;
            continue;
        }
        if (h.first == "content-length") {
            cl++;
            if (h.second != std::to_string(r->blen)) {
                violation("resp_headers", "%s: %s has content-length %s for a body of %zu bytes", name().c_str(), id.c_str(), h.second.c_str(), r->blen);
                return;
            }
            continue;
        }
        if (h.first == "server" || h.first == "x-powered-by" || h.first == "date") {
            if (h.first != "date" && h.second != "ion") violation("resp_headers", "%s: %s has %s: %s", name().c_str(), id.c_str(), h.first.c_str(), h.second.c_str());
            continue;
        }
        violation("resp_headers", "%s: %s has header %s: %s, expected %s", name().c_str(), id.c_str(), h.first.c_str(), h.second.substr(0, 60).c_str(),
                  k < r->rh.size() ? (r->rh[k].first + ": " + r->rh[k].second).substr(0, 80).c_str() : "no more");
        return;
    }
    if (k < r->rh.size())
        violation("resp_headers", "%s: %s lacks header %s: %s", name().c_str(), id.c_str(), r->rh[k].first.c_str(), r->rh[k].second.substr(0, 60).c_str());
    else if (r->blen && cl != 1)
        violation("resp_headers", "%s: %s has %d content-length headers", name().c_str(), id.c_str(), cl);
}
void Client::complete(Req* r) {
    r->got = 2;
    r->t_done = K.now;
    R->responses++;
    ev_hash("done", (u64)c->id, r->stream);
    tracef("%s: response to %s complete (%zu body bytes)", name().c_str(), r->uid.c_str(), r->gbody);
    if (!r->cancelled) outstanding--;
    if (role == WB && (r->x == X_APP || r->x == X_404 || r->x == X_400) && r->gbody != r->blen)
        violation("body_mismatch", "%s: response to %s ended after %zu of %zu body bytes", name().c_str(), r->uid.c_str(), r->gbody, r->blen);
    if (W.on_resp_done) W.on_resp_done(r);
}
}  // namespace sim
