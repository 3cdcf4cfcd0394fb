#include "world.h"

#include <errno.h>
#include <fcntl.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/ssl.h>
#include <signal.h>
#include <spdlog/sinks/null_sink.h>
#include <spdlog/sinks/basic_file_sink.h>
#include <spdlog/spdlog.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>

#include "http2_server.h"
#include "pollers/poll_poller.h"
#include "server_stats.h"
#include "status_page.h"

#ifndef CERT_DIR
#define CERT_DIR "/verif/sim/certs"
#endif

int ion_app_main(int argc, char** argv);

namespace sim {

static constexpr i64 PROMPT = SEC;           // "promptly"
static constexpr i64 PROGRESS = 2 * SEC;     // bounded progress once faults have stopped
static constexpr i64 IDLE = 5 * SEC;

static ion::Http2Server* server = nullptr;
static i64 t_start = 0;          // server process start
static i64 t_break = -1;         // standard output lost its reader
static int pipe_rd = -1;
static bool broken_expected = false;
static std::map<int, u64> status_counts;
static u64 routed = 0;
struct StatusExpect {
    u64 total;
    std::map<int, u64> codes;
    i64 t;
    i64 busy;
};
static i64 busy_total = 0;  // time spent in handlers
static std::map<Req*, StatusExpect> status_expect;

static Client* client_of(Conn* c) { return static_cast<Client*>(c->peer); }
static i64 slack() { return 4 * K.cfg.stall_max * (K.cfg.p_stall ? 1 : 0); }

// ---------------------------------------------------------------- application side
static std::string uid_of(const ion::HttpRequest& q) {
    std::string u;
    for (auto& h : q.headers)
        if (h.name == "x-uid") u = h.value;
    return u;
}
struct NotAnException {};
static ion::HttpResponse app_handler(const std::string& path, const std::string& method, const ion::HttpRequest& q) {
    if (q.path != path || q.method != method) {
        Harness h;
        if (!W.have_fuzz) violation("misrouted", "%s %s (%s) was given to the handler of %s %s", q.method.c_str(), q.path.c_str(), uid_of(q).c_str(), method.c_str(), path.c_str());
    }
    ion::HttpResponse resp{.status_code = 200};
    std::string uid = uid_of(q);
    i64 us = 0, thr = 0;
    Req* r = nullptr;
    {
        Harness h;
        auto it = W.by_uid.find(uid);
        if (it != W.by_uid.end()) r = it->second;
        if (r) {
            us = r->step->get("us");
            thr = r->step->get("thr");
        }
    }
    if (us) K.busy(us * US);
    busy_total += us * US;
    if (!r) return resp;
    if (thr) fault(F_HANDLER_THROW);
    switch (thr) {
        case 0:
            break;
        case 1:
            throw std::runtime_error("handler failed for " + uid);
        case 2:
            throw std::out_of_range("index");
        case 3:
            throw std::bad_alloc();
        case 4: {
            std::vector<int> v;
            (void)v.at(3);
            break;
        }
        case 5:
            throw NotAnException{};
        case 6:
            throw 42;
        default:
            throw std::system_error(errno, std::system_category(), "handler");
    }
    {
        Harness h;
        resp.status_code = (uint16_t)r->st;
        std::string b;
        body_fill(*r, b);
        resp.body.assign(b.begin(), b.end());
        for (size_t k = 0; k < r->rh.size() && k < r->own; k++) resp.headers.push_back({r->rh[k].first, r->rh[k].second});
    }
    return resp;
}
static void routed_response(Req* r);
static void on_request(const ion::HttpRequest& q, Req*& out) {
    Harness h;
    routed++;
    std::string uid = uid_of(q);
    auto it = W.by_uid.find(uid);
    Req* r = it == W.by_uid.end() ? nullptr : it->second;
    out = r;
    if (uid.compare(0, 3, "bad") == 0 || q.path.compare(0, 5, "/bad/") == 0) {
        violation("poison_handled", "a request behind malformed input reached the application (%s, %s)", uid.c_str(), q.path.c_str());
        return;
    }
    if (!r) {
        if (!W.have_fuzz)
            violation("phantom", "the application was given a request nobody sent: %s %s, x-uid '%s', %zu headers", q.method.c_str(), q.path.c_str(), uid.c_str(), q.headers.size());
        return;
    }
    r->handled++;
    r->t_handled = K.now;
    r->seq = ++W.handled;
    ev_hash("handle", (u64)r->cl->c->id, r->stream);
    tracef("%s: application handles %s", r->cl->name().c_str(), uid.c_str());
    if (r->x == X_FUZZ) return;
    log_entry(r);
    if (r->handled > 1) violation("dup_handled", "%s: request %s reached the application %d times", r->cl->name().c_str(), uid.c_str(), r->handled);
    if (r->t_sent < 0) violation("phantom", "request %s reached the application before it was sent", uid.c_str());
    // exactly the header list the client encoded
    std::string diff;
    if (q.headers.size() != r->hdrs.size()) diff = "has " + std::to_string(q.headers.size()) + " headers, the client sent " + std::to_string(r->hdrs.size());
    for (size_t i = 0; diff.empty() && i < r->hdrs.size(); i++)
        if (q.headers[i].name != r->hdrs[i].first || q.headers[i].value != r->hdrs[i].second)
            diff = "header " + std::to_string(i) + " is '" + q.headers[i].name + "' = '" + q.headers[i].value.substr(0, 60) + "', sent '" + r->hdrs[i].first + "' = '" + r->hdrs[i].second.substr(0, 60) + "'";
    if (diff.empty() && (q.method != r->method || q.path != r->path)) diff = "is " + q.method + " " + q.path + ", sent " + r->method + " " + r->path;
    if (!diff.empty()) violation("hdr_mismatch", "%s: request %s as seen by the application %s", r->cl->name().c_str(), uid.c_str(), diff.c_str());
    // earlier responses must have been taken before more work is accepted
    Conn* c = r->cl->c;
    if (c->handled_bytes > c->wr_bytes + 96 * 1024)
        violation("buffer_unbounded", "%s: request %s is handled while %llu response bytes are still waiting for the network", r->cl->name().c_str(), uid.c_str(),
                  (unsigned long long)(c->handled_bytes - c->wr_bytes));
    if (r->x == X_STATUS) status_expect[r] = StatusExpect{routed, status_counts, K.now, busy_total};
    if (r->x == X_STATIC) static_entry(r);
}
static void on_response(Req* r, const ion::HttpResponse& resp) {
    Harness h;
    status_counts[resp.status_code]++;
    if (!r) return;
    r->resp_size = resp.body.size();
    size_t size = resp.body.size();
    for (auto& h : resp.headers) size += h.name.size() + h.value.size();
    MU.biggest = std::max<i64>(MU.biggest, (i64)size);
    r->resp_status = resp.status_code;
    if (W.rt.on && r->x != X_FUZZ && r->x != X_POISON) routed_response(r);
    r->cl->c->handled_bytes += resp.body.size();
    log_exit(r);
}
static void on_throw(Req* r) {
    Harness h;
    status_counts[500]++;
    if (!r) return;
    r->resp_size = 0;
    r->resp_status = 500;
    log_exit(r);
}
// The scenario's own routing table: what is registered, in its order, notes what reaches it
static void routed_response(Req* r) {
    size_t want = (size_t)std::min<int>(r->passes + 1, (int)W.rt.mws.size());
    std::string got;
    bool ok = r->entered.size() == want;
    for (size_t k = 0; k < r->entered.size(); k++) {
        ok = ok && r->entered[k] == (int)k;
        got += std::to_string(r->entered[k]) + " ";
    }
    if (!ok) violation("mw_order", "%s: request %s passed middleware %s, %zu of them were due, in registration order", r->cl->name().c_str(), r->uid.c_str(), got.empty() ? "nowhere" : got.c_str(), want);
    int due = r->passes < (int)W.rt.mws.size() ? -3 : r->target >= 0 ? r->target : -3;
    if (r->ran != due)
        violation("misrouted", "%s: %s %s (%s) was given to %s, expected %s", r->cl->name().c_str(), r->method.c_str(), r->path.c_str(), r->uid.c_str(),
                  r->ran >= 0 ? ("route " + std::to_string(r->ran)).c_str() : "no route", due >= 0 ? ("route " + std::to_string(due)).c_str() : "none");
}
static void add_table(ion::Router& router) {
    int nr = 0, nm = 0;
    for (auto& f : S->faults) {
        if (f.kind == "route") {
            int k = nr++;
            std::string path = f.str("path"), method = method_name((int)f.get("m"));
            router.add_route(path, method, [path, method, k](const ion::HttpRequest& q) {
                {
                    Harness h;
                    auto it = W.by_uid.find(uid_of(q));
                    if (it != W.by_uid.end()) it->second->ran = k;
                }
                return app_handler(path, method, q);
            });
        } else if (f.kind == "map") {
            router.add_static_handler(std::make_unique<ion::StaticFileHandler>(f.str("prefix"), f.str("dir").empty() ? static_root_arg : static_dir(f.str("dir"))));
        } else if (f.kind == "mw") {
            int k = nm++, kind = (int)f.get("k");
            router.add_middleware([k, kind](auto next) {
                return [k, kind, next](const auto& q) {
                    Req* r = nullptr;
                    {
                        Harness h;
                        auto it = W.by_uid.find(uid_of(q));
                        if (it != W.by_uid.end()) r = it->second;
                        if (r) r->entered.push_back(k);
                    }
                    if (r && W.rt.stops((size_t)k, (int)r->id)) return ion::HttpResponse{.status_code = 403};
                    auto resp = next(q);
                    if (kind == 1) resp.headers.push_back({"x-mw", std::to_string(k)});
                    return resp;
                };
            });
        }
    }
}
static void add_routes(ion::Router& router) {
    router.add_middleware([](auto next) {
        return [next](const auto& q) {
            Req* r = nullptr;
            on_request(q, r);
            try {
                auto resp = next(q);
                on_response(r, resp);
                return resp;
            } catch (...) {
                on_throw(r);
                throw;
            }
        };
    });
    if (W.rt.on) return add_table(router);
    for (int p = 0; p < 8; p++)
        for (int m = 0; m < 7; m++)
            if (has_route(p, m)) {
                std::string path = "/app/" + std::to_string(p), method = method_name(m);
                router.add_route(path, method, [path, method](const ion::HttpRequest& q) { return app_handler(path, method, q); });
            }
}

static void check_status_page(Req* r) {
    auto it = status_expect.find(r);
    if (it == status_expect.end()) return;
    StatusExpect& e = it->second;
    probe(P_STATUS_PAGE);
    const std::string& b = r->gbytes;
    if (r->gst != 200) {
        violation("status_page", "%s: the status page has status %d", r->cl->name().c_str(), r->gst);
        return;
    }
    auto text_after = [&](const std::string& label) {
        size_t p = b.find(">" + label + "<");
        if (p == std::string::npos) return std::string();
        p = b.find("value", p);
        if (p == std::string::npos) return std::string();
        p = b.find('>', p);
        size_t q = b.find('<', p);
        if (p == std::string::npos || q == std::string::npos) return std::string();
        return b.substr(p + 1, q - p - 1);
    };
    std::string total = text_after("Requests"), up = text_after("Uptime");
    if (total != std::to_string(e.total)) {
        violation("status_page", "%s: the status page shows %s requests, %llu had been routed", r->cl->name().c_str(), total.c_str(), (unsigned long long)e.total);
        return;
    }
    std::map<int, u64> shown;
    size_t p = 0;
    while ((p = b.find("'code-num'>", p)) != std::string::npos) {
        p += 11;
        int code = atoi(b.c_str() + p);
        size_t q = b.find("</span>", p);
        if (q == std::string::npos) break;
        shown[code] = strtoull(b.c_str() + q + 7, nullptr, 10);
    }
    if (shown != e.codes) {
        std::string a, w;
        for (auto& [c, n] : shown) a += std::to_string(c) + ":" + std::to_string(n) + " ";
        for (auto& [c, n] : e.codes) w += std::to_string(c) + ":" + std::to_string(n) + " ";
        violation("status_page", "%s: the status page shows status counts %s, the responses produced were %s", r->cl->name().c_str(), a.c_str(), w.c_str());
        return;
    }
    i64 sec = 0, cur = 0;
    for (char ch : up) {
        if (ch >= '0' && ch <= '9')
            cur = cur * 10 + (ch - '0');
        else if (ch == 'd')
            sec += cur * 86400, cur = 0;
        else if (ch == 'h')
            sec += cur * 3600, cur = 0;
        else if (ch == 'm')
            sec += cur * 60, cur = 0;
        else if (ch == 's')
            sec += cur, cur = 0;
    }
    std::string lat = text_after("Avg Latency");
    double ms = atof(lat.c_str()), n = (double)std::max<u64>(1, e.total);
    double lat_lo = (double)e.busy / 1e6 / n - 0.02, lat_hi = ((double)e.busy / 1e6 + n * (0.5 + (double)slack() / 1e6)) / std::max(1.0, n - 1) + 0.02;
    if (!lat.empty() && (ms < lat_lo || ms > lat_hi))
        violation("status_page", "%s: the status page shows an average latency of '%s', handlers have taken %.3f ms for %llu requests", r->cl->name().c_str(), lat.c_str(), (double)e.busy / 1e6,
                  (unsigned long long)e.total);
    i64 hi = (e.t + 5 * MS + slack() - t_start) / SEC, lo = (e.t - 5 * MS - t_start) / SEC;
    if (up.empty() || sec < lo || sec > hi)
        violation("status_page", "%s: the status page shows an uptime of '%s', the process has run for %.2f s", r->cl->name().c_str(), up.c_str(), (double)(e.t - t_start) / 1e9);
}

// ---------------------------------------------------------------- invariants
// TLS records completed in one direction; application data counts as an exchange
static void track_records(Conn* c, int dir, std::string_view b) {
    if (!client_of(c)->ssl) return;
    while (!b.empty()) {
        if (c->rec_need[dir]) {
            size_t n = std::min<size_t>(b.size(), c->rec_need[dir]);
            c->rec_need[dir] -= n;
            b.remove_prefix(n);
            if (!c->rec_need[dir] && c->rec_hdr[dir].size() == 5) {
                if (c->rec_hdr[dir][0] == 23) {
                    c->last_record = K.now;
                    if (dir == 0) c->hs_done = true;
                }
                c->rec_hdr[dir].clear();
            }
            continue;
        }
        std::string& h = c->rec_hdr[dir];
        while (h.size() < 5 && !b.empty()) {
            h.push_back(b[0]);
            b.remove_prefix(1);
        }
        if (h.size() == 5) {
            c->rec_need[dir] = (u64)((u8)h[3] << 8 | (u8)h[4]);
            if (!c->rec_need[dir]) h.clear();
        }
    }
}
// how reads fall on frames, where that can be seen
static void track_frames(Conn* c, std::string_view b) {
    Client* cl = client_of(c);
    if (cl->ssl || cl->role != WB) return;
    while (!b.empty()) {
        if (c->fr_left) {
            size_t n = std::min<size_t>(b.size(), (size_t)c->fr_left);
            c->fr_left -= n;
            b.remove_prefix(n);
            continue;
        }
        c->fr_hdr.push_back(b[0]);
        b.remove_prefix(1);
        if (c->fr_hdr.size() < 9) continue;
        c->fr_left = (u64)(u8)c->fr_hdr[0] << 16 | (u64)(u8)c->fr_hdr[1] << 8 | (u8)c->fr_hdr[2];
        c->fr_hdr.clear();
    }
    if (c->fr_left || !c->fr_hdr.empty()) probe(P_FRAME_SPLIT);
}
static i64 last_exchange(Conn* c) {
    i64 t = c->t_accept;
    if (client_of(c)->ssl) return c->hs_done ? std::max(t, c->last_record) : t;
    return std::max(t, c->last_server_io);
}
static void on_closed(Conn* c) {
    Client* cl = client_of(c);
    i64 gap = K.now - last_exchange(c);
    i64 qnet = K.now - std::max({c->last_net, c->t_accept, c->t_touch});
    if (W.stopping) return;
    if (gap > 4 * SEC) {
        probe(P_IDLE_REAPED);
        fault(F_IDLE);
    }
    if (c->over_limit) {
        probe(P_OVERFLOW_CLOSED);
        c->close_ok = true;
        return;
    }
    if (qnet > IDLE + PROMPT + slack())
        violation("idle_late", "%s: closed only %.3f s after anything was exchanged", cl->name().c_str(), (double)qnet / 1e9);
    if (cl->role != WB) return;
    if (cl->self_killed || c->rst || cl->victim() || cl->tls_dead) {
        c->close_ok = true;
        return;
    }
    if (gap >= IDLE - 50 * MS && cl->window_blocked() && !c->rx_avail() && c->flight.empty() && !c->tx_used() && qnet > 4 * SEC)
        violation("upload_stuck", "%s: the connection is closed as idle while the client waits to be allowed to send the rest of %s", cl->name().c_str(), cl->ups.front().r->uid.c_str());
    if (gap >= IDLE - 50 * MS || (cl->key_updates && gap > SEC)) {
        c->close_ok = true;
        return;
    }
    if (cl->said_goodbye && (c->rx_fin || cl->steps_done)) return;  // completeness is checked when the client sees the end
    violation(gap > SEC ? "idle_early" : "conn_closed", "%s: a well-behaved client's connection was closed by the server %.3f s after the last exchange (%d responses outstanding)",
              cl->name().c_str(), (double)gap / 1e9, cl->outstanding);
}
static void on_accept(Conn* c) {
    c->last_net = std::max(c->last_net, K.now);
    if (c->over_limit) {
        fault(F_OVER_LIMIT);
        probe(P_AT_CAPACITY);
    }
    static bool was_full = false;
    if (K.open_accepted >= 128)
        was_full = true;
    else if (was_full && !c->over_limit)
        probe(P_SLOT_REUSED);
    if (t_break >= 0 && !broken_expected) {
        broken_expected = true;  // the next log line hits the broken pipe
        if (W.t_stop < 0) W.t_stop = K.now;
    }
}
static void drain_pipe() {
    if (pipe_rd < 0) return;
    char b[65536];
    while (real_read(pipe_rd, b, sizeof b) > 0) {
    }
}
static void on_poll() {
    tlsconf_serving();
    drain_pipe();
    mem_at_rest();
    // at the limit, an arrival is turned away, not left waiting
    if (Conn* c = K.t_full >= 0 && !W.stopping ? K.first_waiting() : nullptr) {
        i64 d = K.now - std::max({K.t_full, c->t_connect, K.t_accept_err});
        if (d > PROMPT + slack())
            violation("over_limit_waiting", "%s: 128 connections are open and it has been waiting for %.3f s", client_of(c)->name().c_str(), (double)d / 1e9);
    }
    for (auto& up : K.conns) {
        Conn* c = up.get();
        if (!c->accepted) continue;
        if (c->over_limit && (!c->server_closed || c->wr_bytes) && !c->overflow_checked) {
            c->overflow_checked = true;
            violation("over_limit_served", "%s: accepted while 128 connections were open, and kept", client_of(c)->name().c_str());
        }
        if (c->server_closed) continue;
        Client* cl = client_of(c);
        // (without TLS the handshake is complete when the server first looks at the connection)
        i64 q = K.now - std::max({c->last_net, c->t_accept, c->t_touch});
        if (q > IDLE + PROMPT + slack())
            violation("idle_late", "%s: still open %.3f s after anything was exchanged", cl->name().c_str(), (double)q / 1e9);
        // a client which is gone gives its place back
        if ((c->rst || (c->rx_fin && c->rx_avail() == 0 && c->t_blocked < 0 && c->tx_room())) && !(cl->victim() & 1) && !W.stopping) {
            i64 d = K.now - std::max({c->rst ? c->t_rst_arrived : c->t_fin_arrived, c->t_accept, c->last_server_io, c->last_server_wr, c->t_room});
            if (d > PROMPT + slack())
                violation("dead_kept", "%s: still open %.3f s after the client %s", cl->name().c_str(), (double)d / 1e9, c->rst ? "reset the connection" : "closed it and all it sent was read");
        }
        if (cl->must_close && cl->t_bad >= 0 && c->t_blocked < 0 && c->tx_room()) {
            i64 d = K.now - std::max({cl->t_bad, c->t_accept, c->last_server_wr, c->t_room});
            if (d > PROMPT + slack() && !W.stopping)
                violation("bad_not_closed", "%s: still open %.3f s after undecodable input arrived", cl->name().c_str(), (double)d / 1e9);
        }
    }
}

// ---------------------------------------------------------------- end of run
static bool stuck(Client* cl) {
    if (cl->settled()) return false;
    if (cl->waited) return false;
    i64 since = std::max({W.t_calm, cl->t_act, cl->c ? cl->c->last_net : 0, cl->c ? cl->c->t_connect : 0});
    if (cl->c && cl->c->t_accept > since) since = cl->c->t_accept;
    return K.now - since > PROGRESS + slack();
}
static void missing_checks() {
    for (auto& cl : W.clients) {
        if (!cl->c) continue;
        Conn* c = cl->c;
        if (cl->role != WB || cl->self_killed || c->close_ok || c->nowhere || cl->broken || cl->victim()) continue;
        if (c->rst && !c->server_closed) continue;
        if (cl->said_goodbye && cl->ssl && cl->tls_dead) continue;
        bool abrupt = false;
        for (auto& st : cl->steps)
            if (st.kind == "fin" && st.get("abrupt") && cl->ssl) abrupt = true;
        if (abrupt) continue;
        if (!cl->ended && !stuck(cl.get())) continue;
        if (cl->window_blocked() && !cl->ended)
            violation("upload_stuck", "%s: the client is never allowed to send the rest of %s", cl->name().c_str(), cl->ups.front().r->uid.c_str());
        for (auto* r : cl->reqs) {
            if (r->cancelled || r->got == 2 || r->t_arrived < 0) continue;
            if (cl->ended && r->t_arrived > c->t_close) continue;
            if (r->x == X_FUZZ || r->x == X_POISON) continue;
            bool h = r->handled > 0;
            violation(h || r->x == X_400 ? "resp_missing" : "unhandled",
                      "%s: request %s on stream %u arrived at %.3f s, %s, %s", cl->name().c_str(), r->uid.c_str(), r->stream, (double)r->t_arrived / 1e9,
                      h ? "was handled" : "was never given to the application",
                      cl->ended ? "and the connection ended without its response" : r->got ? "and its response stays incomplete although the client reads" : "and no response comes although the client reads");
        }
        if (!cl->ended && stuck(cl.get()) && cl->outstanding == 0 && !(cl->steps_done && cl->owed() && cl->got_settings))
            violation("unserved", "%s: %s", cl->name().c_str(),
                      !c->accepted ? "the connection is never accepted" : !cl->hs_done ? "the TLS handshake never completes" : !cl->got_settings ? "the server never sends its SETTINGS" : "the client waits for the server in vain");
        else if (!cl->ended && cl->outstanding > 0 && !cl->hs_done)
            violation("unserved", "%s: the TLS handshake never completes", cl->name().c_str());
    }
}
// acknowledgements still owed when a client is otherwise finished
static void control_checks() {
    for (auto& cl : W.clients) {
        if (!cl->c || cl->role != WB || cl->self_killed || cl->ended || cl->broken || cl->victim()) continue;
        Conn* c = cl->c;
        if (c->rst || c->server_closed || !cl->steps_done || !cl->got_settings || !stuck(cl.get())) continue;
        if (!cl->unacked.empty()) violation("ctl_order", "%s: %zu SETTINGS frames were never acknowledged", cl->name().c_str(), cl->unacked.size());
        if (!cl->pings.empty()) violation("ctl_order", "%s: %zu PINGs were never answered", cl->name().c_str(), cl->pings.size());
    }
}
static bool in_loop = false;  // the serving loop runs
static void request_stop() {
    if (W.stopping) return;
    W.stopping = true;
    if (W.t_stop < 0) W.t_stop = K.now;
    ev_hash("stop", 0);
    tracef("stop requested");
    K.hard_end = K.now + 20 * SEC;
    if (W.app) {
        fault(F_SIGNAL);
        K.raise_signal(SIGTERM);
    } else
        server->stop(ion::StopReason::Other);
}
static bool all_settled() {
    for (auto& c : W.clients)
        if (!c->settled()) return false;
    return true;
}
static void tick() {
    if (W.stopping) return;
    i64 min_end = S->g.get("linger") * US;
    bool idle = K.now >= W.t_calm && K.now >= min_end;
    bool all = all_settled();
    bool hopeless = K.now > W.t_calm + S->g.get("tmax", 60000000) * US;
    if (idle && !all && !hopeless) {
        hopeless = true;
        for (auto& c : W.clients)
            if (!c->settled() && !stuck(c.get())) hopeless = false;
    }
    if ((idle && all) || hopeless) {
        missing_checks();
        control_checks();
        request_stop();
        return;
    }
    K.at(K.now + 50 * MS, tick);
}
static void on_hard_end() {
    tracef("hard end of the run");
    if (W.t_stop >= 0)
        violation("stop_late", "the server is still in its loop %.3f s after it was told to stop", (double)(K.now - W.t_stop) / 1e9);
    else {
        missing_checks();
        violation("hang", "the server makes no progress: %llu system calls by %.3f s", (unsigned long long)R->syscalls, (double)K.now / 1e9);
    }
    finish_run();
}
static void after_return(bool threw, const char* what, int status) {
    Harness h;
    tracef("the serving loop has ended");
    if (tlsconf_refused(threw || status != 0)) {
        W.stopping = true;
        return;
    }
    i64 late = W.t_stop >= 0 ? K.now - W.t_stop : 0;
    if (threw)
        violation("server_ended", "the serving loop ended with an exception: %s", what);
    else if (W.t_stop < 0) {
        if (t_break >= 0) {
        } else
            violation("ended_unrequested", "the serving loop ended although nobody asked it to");
    } else if (late > PROMPT + slack())
        violation("stop_late", "the serving loop ended %.3f s after the stop request", (double)late / 1e9);
    if (!threw && status != 0) violation("stop_status", "the application exited with status %d after a stop request", status);
    W.stopping = true;
}
[[noreturn]] static void end_run() {
    K.depth++;
    K.check_fds("after the server ended");
    static_done();
    log_done();
    tlsconf_done();
    mem_done();
    finish_run();
}

// ---------------------------------------------------------------- running
static void schedule_faults() {
    for (auto& f : S->faults) {
        if (f.kind == "jump") {
            i64 by = f.get("by") * MS;
            K.at(f.get("at") * US, [by] {
                K.wall_off += by;
                fault(F_CLOCK_JUMP);
                ev_hash("jump", (u64)by);
                tracef("wall clock jumps by %lld ms", (long long)(by / MS));
            });
        } else if (f.kind == "stop") {
            int how = (int)f.get("how");
            if (f.get("again"))  // somebody is impatient
                K.at((f.get("at") + f.get("again")) * US, [how] {
                    if (!in_loop || !W.stopping) return;
                    ev_hash("stop", 7);
                    fault(F_SIGNAL);
                    tracef("stop request again");
                    if (W.app)
                        K.raise_signal(how == 1 ? SIGINT : SIGTERM);
                    else
                        server->stop(ion::StopReason::Other);
                });
            K.at(f.get("at") * US, [how] {
                if (W.stopping) return;
                W.stopping = true;
                W.t_stop = K.now;
                K.hard_end = K.now + 20 * SEC;
                ev_hash("stop", (u64)how);
                fault(F_SIGNAL);
                tracef("stop request (%s)", how == 0 ? "SIGTERM" : how == 1 ? "SIGINT" : "stop()");
                bool blocked = false;
                for (auto& c : K.conns)
                    if (c->accepted && !c->server_closed && c->tx_free() == 0) blocked = true;
                if (blocked) probe(P_STOP_DURING_BLOCKED);
                probe(P_STOP_IN_SYSCALL);
                if (W.app)
                    K.raise_signal(how == 1 ? SIGINT : SIGTERM);
                else
                    server->stop(ion::StopReason::Other);
            });
        } else if (f.kind == "pipe") {
            K.at(f.get("at") * US, [] {
                if (pipe_rd < 0) return;
                drain_pipe();
                close(pipe_rd);
                pipe_rd = -1;
                t_break = K.now;
                fault(F_PIPE_BREAK);
                ev_hash("pipe", 0);
                tracef("the reader of standard output goes away");
                K.hard_end = K.now + 60 * SEC;
            });
        }
    }
}
static void configure() {
    auto& g = S->g;
    auto& c = K.cfg;
    c.sys_cost = g.get("cost", 2) * US;
    c.p_eintr = (int)g.get("p_eintr");
    c.p_spurious = (int)g.get("p_spurious");
    c.p_subset = (int)g.get("p_subset");
    c.p_permute = (int)g.get("p_permute");
    c.p_short_write = (int)g.get("p_short");
    c.p_weagain = (int)g.get("p_eagain");
    c.p_sockopt = (int)g.get("p_sockopt");
    c.p_stall = (int)g.get("p_stall");
    c.stall_max = g.get("stall") * US;
    c.p_accept_err = (int)g.get("p_accept");
    c.p_poll_err = (int)g.get("p_pollerr");
    W.t_calm = g.get("calm", 1000000) * US;
    c.faults_until = W.t_calm;
    W.app = g.get("app");
    W.server_tls = g.get("tls");
    for (auto& f : S->faults) {
        if (f.kind == "route") W.rt.routes.push_back({f.str("path"), method_name((int)f.get("m"))});
        if (f.kind == "mw") W.rt.mws.push_back((int)f.get("k"));
        if (f.kind == "map") W.rt.prefixes.push_back(f.str("prefix"));
        W.rt.on |= f.kind == "route" || f.kind == "mw" || f.kind == "map";
    }
    K.wall_off = 1800000000ll * SEC;
    K.hard_end = W.t_calm + g.get("tmax", 60000000) * US + 100 * SEC;
    K.on_hard_end = on_hard_end;
    K.on_accept = on_accept;
    K.on_closed = on_closed;
    K.on_poll = on_poll;
    K.on_read = [](Conn* c, std::string_view b) {
        track_records(c, 0, b);
        track_frames(c, b);
    };
    K.on_write = [](Conn* c, std::string_view b) {
        track_records(c, 1, b);
        log_write(c, b);
        if (c->over_limit) violation("over_limit_served", "%s: beyond the connection limit, yet bytes are sent to it", client_of(c)->name().c_str());
    };
    W.on_settled = [](Client*) {};
    W.on_resp_headers = [](Req* r) {
        if (r->x == X_STATIC) static_head(r);
        log_head(r);
    };
    W.on_resp_done = [](Req* r) {
        if (r->x == X_STATUS) check_status_page(r);
        if (r->x == X_STATIC) static_check(r);
        if (r->x == X_STATIC && W.rt.on && r->step->str("file").empty() && r->gst < 400)
            violation("resp_status", "%s: response to %s, of which no file exists, has status %d", r->cl->name().c_str(), r->uid.c_str(), r->gst);
        if (r->x == X_FIXED && r->gst != (int)r->step->get("st", 200))
            violation("resp_status", "%s: response to %s has status %d", r->cl->name().c_str(), r->uid.c_str(), r->gst);
    };
}
extern "C" void sim_random(void* p, size_t n);
static int rnd_bytes(unsigned char* b, int n) {
    sim_random(b, (size_t)n);
    return 1;
}
static int rnd_status() { return 1; }
void warm_up() {
    static RAND_METHOD m{};
    m.bytes = rnd_bytes;
    m.pseudorand = rnd_bytes;
    m.status = rnd_status;
    RAND_set_rand_method(&m);
    client_ctx();
    setenv("OTEL_SDK_DISABLED", "true", 1);
    setenv("TZ", "UTC", 1);
    tzset();
    // touch what is expensive to load once, in the parent of all runs
    SSL_CTX* t = SSL_CTX_new(TLS_server_method());
    SSL_CTX_use_certificate_file(t, CERT_DIR "/cert.pem", SSL_FILETYPE_PEM);
    SSL_CTX_use_PrivateKey_file(t, CERT_DIR "/key.pem", SSL_FILETYPE_PEM);
    SSL_CTX_free(t);
    ERR_clear_error();
    huff_encode("warm");
    std::string o;
    huff_decode("", o);
    spdlog::default_logger();
}
std::string scratch() {
    const char* e = getenv("SIM_SCRATCH");
    return e ? e : "/tmp/ionsim";
}
static void run_lib() {
    int lvl = (int)S->g.get("loglevel", 6);
    auto null = std::make_shared<spdlog::logger>("main", std::make_shared<spdlog::sinks::null_sink_st>());
    if (!getenv("SIM_STDOUT")) spdlog::set_default_logger(null);
    spdlog::set_level((spdlog::level::level_enum)lvl);
    signal(SIGPIPE, SIG_IGN);
    ion::ServerConfiguration cfg{};
    cfg.cleartext = !W.server_tls;
    if (W.server_tls) {
        cfg.cert_path = CERT_DIR "/cert.pem";
        cfg.key_path = CERT_DIR "/key.pem";
    }
    if (TC.on) {
        cfg.cert_path.reset();
        cfg.key_path.reset();
        if (!TC.cert.empty()) cfg.cert_path = TC.cert;
        if (!TC.key.empty()) cfg.key_path = TC.key;
    }
    bool threw = false;
    std::string what;
    if (TC.on) {
        // what an application does: construct, start, report the exception
        K.depth = 0;
        try {
            ion::Http2Server srv(cfg);
            K.depth++;
            server = &srv;
            add_routes(srv.router());
            K.depth--;
            srv.start(8443);
        } catch (const std::exception& e) {
            threw = true;
            what = e.what();
        }
        after_return(threw, what.c_str(), 0);
        server = nullptr;
        end_run();
    }
    {
        ion::Http2Server srv(cfg);
        server = &srv;
        if (S->g.get("status")) StatusPage::add_status_page(srv.router());
        if (!static_root_arg.empty() && !W.rt.on) srv.router().add_static_handler(std::make_unique<ion::StaticFileHandler>("/static", static_root_arg));
        add_routes(srv.router());
        if (S->g.get("stop0")) {
            probe(P_STOP_BEFORE_START);
            W.stopping = true;
            W.t_stop = K.now;
            srv.stop();
        }
        K.depth = 0;
        try {
            srv.start(8443);
        } catch (const std::exception& e) {
            threw = true;
            what = e.what();
        } catch (...) {
            threw = true;
            what = "not a std::exception";
        }
        after_return(threw, what.c_str(), 0);
        server = nullptr;
    }
    end_run();
}
static void run_app() {
    std::vector<std::string> a = {"ion-server", "--port", "8443"};
    static const char* levels[] = {"trace", "debug", "info", "warn", "error", "critical", "off"};
    int lvl = (int)S->g.get("loglevel", 2);
    a.insert(a.end(), {"--log-level", levels[lvl % 7]});
    if (TC.on) {
        if (TC.env) {
            if (!TC.cert.empty()) setenv("ION_TLS_CERT_PATH", TC.cert.c_str(), 1);
            if (!TC.key.empty()) setenv("ION_TLS_KEY_PATH", TC.key.c_str(), 1);
        } else {
            if (!TC.cert.empty()) a.insert(a.end(), {"--tls-cert-path", TC.cert});
            if (!TC.key.empty()) a.insert(a.end(), {"--tls-key-path", TC.key});
        }
    } else if (W.server_tls)
        a.insert(a.end(), {"--tls-cert-path", CERT_DIR "/cert.pem", "--tls-key-path", CERT_DIR "/key.pem"});
    else
        a.push_back("--cleartext");
    if (S->g.get("log")) a.insert(a.end(), {"--access-log", log_path});
    if (!static_root_arg.empty()) a.insert(a.end(), {"--static", "/static", static_root_arg});
    if (!static_404_arg.empty()) a.insert(a.end(), {"--custom-404-file-path", static_404_arg});
    if (S->g.get("status")) a.push_back("--status-page");
    if (S->g.get("ut")) a.push_back("--under-test");
    std::vector<char*> argv;
    for (auto& s : a) argv.push_back(s.data());
    argv.push_back(nullptr);
    // standard output: a pipe whose reader the simulation owns
    int p[2];
    if (pipe(p) == 0) {
        fcntl(p[1], F_SETPIPE_SZ, 1 << 20);
        fcntl(p[0], F_SETFL, O_NONBLOCK);
        dup2(p[1], 1);
        close(p[1]);
        pipe_rd = p[0];
    }
    if (S->g.get("stderr_null")) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 2);
    }
    K.depth = 0;
    int rc = ion_app_main((int)argv.size() - 1, argv.data());
    K.depth++;
    drain_pipe();
    K.depth--;
    after_return(rc != 0 && W.t_stop < 0, "the application exited with a failure status", rc);
    end_run();
}
void run_world() {
    K.depth = 1;
    K.active = true;
    sim_thread = true;
    configure();
    if (W.app) setenv("ION_SIM", "1", 1);
    if (S->g.get("tz")) {
        static const char* const zones[] = {"UTC", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "XXX11:45"};
        setenv("TZ", zones[S->g.get("tz") % 5], 1);
        tzset();
    }
    static_setup();
    log_setup();
    tlsconf_setup();
    mem_setup();
    for (size_t i = 0; i < S->clients.size(); i++) {
        W.clients.push_back(std::make_unique<Client>((int)i, S->clients[i]));
        Client* c = W.clients.back().get();
        K.at(c->cfg.get("t") * US, [c] { c->start(); });
    }
    schedule_faults();
    static_faults();
    K.at(std::max<i64>(W.t_calm, S->g.get("linger") * US), tick);
    t_start = K.now;
    if (W.app)
        run_app();
    else
        run_lib();
    end_run();
}
// the process has been there for long, although nothing has happened yet
void grow_old() {
    K.mono_off = S->g.get("ago") * SEC;
    K.wall_off += K.mono_off;
    t_start -= K.mono_off;
}
void insert_recorder(ion::Http2Server* s) {
    server = s;
    Harness h;
    add_routes(s->router());
}
}  // namespace sim

// ---------------------------------------------------------------- link-time seams
extern "C" {
void __real__ZN3ion11Http2Server5startEt(ion::Http2Server*, uint16_t);
void __wrap__ZN3ion11Http2Server5startEt(ion::Http2Server* s, uint16_t port) {
    if (sim::K.active && sim::W.app) sim::insert_recorder(s);
    if (sim::K.active) sim::grow_old();
    sim::in_loop = true;
    struct Left {
        ~Left() { sim::in_loop = false; }
    } left;
    __real__ZN3ion11Http2Server5startEt(s, port);
}
SSL* __real_SSL_new(SSL_CTX*);
SSL* __wrap_SSL_new(SSL_CTX* c) {
    if (sim::K.active && sim::K.depth == 0 && sim::K.faulty())
        for (auto it = sim::K.conns.rbegin(); it != sim::K.conns.rend(); ++it)
            if ((*it)->accepted && !(*it)->server_closed && (*it)->t_accept > sim::K.now - 50 * sim::US && ((*it)->peer->victim() & 4)) {
                sim::fault(sim::F_SSL_NEW);
                sim::tracef("conn %d: SSL_new fails", (*it)->id);
                return nullptr;
            }
    return __real_SSL_new(c);
}
}
namespace ion {
std::unique_ptr<Poller> real_create() asm("__real__ZN3ion6Poller6createEv") __attribute__((weak));
std::unique_ptr<Poller> wrap_create() asm("__wrap__ZN3ion6Poller6createEv");
std::unique_ptr<Poller> wrap_create() {
    if (sim::S && sim::S->g.get("poll")) {
        sim::probe(sim::P_POLL_BACKEND);
        return std::make_unique<PollPoller>();
    }
    return real_create();
}
}  // namespace ion
