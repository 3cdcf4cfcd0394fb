#include "kernel.h"

#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/random.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <random>

namespace sim {

Kernel K;

static constexpr int FD_BASE = 500, FD_MAX = 4096;
static constexpr i64 MONO_BASE = 1000 * SEC;

struct Reg {
    u32 events;
    u64 data;
    bool edge;
    bool disabled;
};
struct Fd {
    enum T { FREE, LISTENER, CONN, EPOLL, RAWSOCK } t = FREE;
    bool nonblock = false;
    Conn* c = nullptr;
    std::map<int, Reg> regs;  // EPOLL
    bool used_before = false;
};
static Fd fds[FD_MAX];
static std::deque<Conn*> backlog;
static int listener_fd = -1;
static u64 polls = 0, idle_polls = 0, accept_tries = 0;
static u64 wait_spins = 0;  // consecutive waits that returned at once, nothing having moved in between
static bool pumping = false;

static bool is_sim(int fd) { return sim_thread && fd >= FD_BASE && fd < FD_BASE + FD_MAX; }
static Fd& F(int fd) { return fds[fd - FD_BASE]; }
static int alloc_fd(Fd::T t) {
    for (int i = 0; i < FD_MAX; i++)
        if (fds[i].t == Fd::FREE) {
            bool used = fds[i].used_before;
            fds[i] = Fd{};
            fds[i].t = t;
            fds[i].used_before = true;
            if (used && t == Fd::CONN) probe(P_FD_REUSED);
            return i + FD_BASE;
        }
    abort();
}
thread_local bool sim_thread = false;
static bool on() { return sim_thread && K.active && K.depth == 0; }

std::string ip_text(u32 ip) {
    char b[32];
    snprintf(b, sizeof b, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255);
    return b;
}
ssize_t real_write(int fd, const void* p, size_t n) { return syscall(SYS_write, fd, p, n); }
ssize_t real_read(int fd, void* p, size_t n) { return syscall(SYS_read, fd, p, n); }

void Kernel::at(i64 t, std::function<void()> f) {
    q.push_back({t < 0 ? 0 : t, seq++, std::move(f)});
    std::push_heap(q.begin(), q.end(), [](const Ev& a, const Ev& b) { return a.at != b.at ? a.at > b.at : a.seq > b.seq; });
}
void Kernel::pump() {
    if (pumping) return;
    pumping = true;
    int se = errno;
    while (!q.empty() && q.front().at <= now) {
        std::pop_heap(q.begin(), q.end(), [](const Ev& a, const Ev& b) { return a.at != b.at ? a.at > b.at : a.seq > b.seq; });
        Ev e = std::move(q.back());
        q.pop_back();
        R->events++;
        Harness h;
        e.f();
        idle_polls = 0;
    }
    errno = se;
    pumping = false;
}
bool Kernel::roll(int pm, u64 k1, u64 k2) {
    return pm > 0 && faulty() && (i64)(hkey(S->seed, k1, k2) % 1000) < pm;
}
static void charge(i64 ns) {
    R->syscalls++;
    K.now += ns;
    if (K.cfg.p_stall && K.roll(K.cfg.p_stall, 0x57a11, R->syscalls)) {
        i64 d = 1 * MS + (i64)(hkey(S->seed, 0x57a12, R->syscalls) % (u64)std::max<i64>(1, K.cfg.stall_max));
        K.now += d;
        fault(F_STALL);
        ev_hash("stall", (u64)d);
        tracef("server stalled for %lld us", (long long)(d / US));
    }
    K.pump();
    if ((K.now > K.hard_end || R->syscalls > 30000000) && K.on_hard_end) {
        K.depth++;
        K.on_hard_end();
    }
}
void Kernel::busy(i64 ns) {
    now += ns;
    pump();
    if (now > hard_end && on_hard_end) {
        depth++;
        on_hard_end();
    }
}
void Kernel::raise_signal(int sig) {
    signal_seen = true;
    Harness h;
    ::raise(sig);
}

// ---------------------------------------------------------------- readiness
static u32 mask_of(int fd) {
    Fd& f = F(fd);
    u32 m = 0;
    if (f.t == Fd::LISTENER) {
        if (!backlog.empty()) m |= EPOLLIN | EPOLLRDNORM;
    } else if (f.t == Fd::CONN) {
        Conn* c = f.c;
        if (c->rx_avail() || c->rx_fin || c->rst) m |= EPOLLIN | EPOLLRDNORM;
        if (c->rst || c->tx_fin || c->tx_room()) m |= EPOLLOUT | EPOLLWRNORM;
        if (c->rx_fin || c->rst) m |= EPOLLRDHUP;
        if (c->rst || (c->rx_fin && c->tx_fin)) m |= EPOLLHUP;
        if (c->sk_err) m |= EPOLLERR;
    } else if (f.t == Fd::RAWSOCK) {
        m = EPOLLOUT | EPOLLHUP;
    }
    return m;
}
static void edge(Conn* c) {
    if (c->fd < 0) return;
    for (auto& f : fds)
        if (f.t == Fd::EPOLL) {
            auto it = f.regs.find(c->fd);
            if (it != f.regs.end()) it->second.edge = true;
        }
}
static void edge_listener() {
    for (auto& f : fds)
        if (f.t == Fd::EPOLL) {
            auto it = f.regs.find(listener_fd);
            if (it != f.regs.end()) it->second.edge = true;
        }
}

// ---------------------------------------------------------------- network
Conn* Kernel::connect(Peer* p, u32 ip, int port) {
    auto c = std::make_unique<Conn>();
    c->id = (int)conns.size();
    c->peer = p;
    c->ip = ip;
    c->port = port;
    c->t_connect = now;
    c->last_net = now;
    Conn* r = c.get();
    conns.push_back(std::move(c));
    if (!listening) {
        r->nowhere = true;
        return r;
    }
    backlog.push_back(r);
    edge_listener();
    ev_hash("connect", r->id);
    return r;
}
Conn* Kernel::first_waiting() const {
    for (Conn* c : backlog)
        if (!c->rst) return c;
    return nullptr;
}
void Kernel::schedule_flight(Conn* c) {
    if (c->flight_event || c->flight.empty() || c->nowhere) return;
    if (c->flight.front().type == 0 && c->rx_avail() >= c->rx_cap && !c->server_closed) {
        probe(P_RX_FULL);
        return;  // resumed when the server reads
    }
    c->flight_event = true;
    i64 t = std::max({c->flight.front().at, c->part_until, now});
    at(t, [this, c] {
        c->flight_event = false;
        if (c->flight.empty()) return;
        if (now < c->part_until) {
            schedule_flight(c);
            return;
        }
        Seg& s = c->flight.front();
        if (s.type == 0) {
            if (c->rst) {
                c->flight.pop_front();
            } else if (c->server_closed) {
                // data to a closed socket: the server's kernel answers with a reset
                c->flight.clear();
                c->tx.clear();
                c->tx_off = 0;
                c->rst = true;
                if (!c->client_dead && !c->client_closed) {
                    fault(F_RST_BY_SERVER);
                    c->client_dead = true;
                    c->peer->on_rst();
                }
                return;
            } else {
                size_t room = c->rx_cap > c->rx_avail() ? c->rx_cap - c->rx_avail() : 0;
                if (!room) {
                    schedule_flight(c);
                    return;
                }
                size_t n = std::min(room, s.data.size() - s.off);
                c->rx.append(s.data, s.off, n);
                s.off += n;
                c->arrived += n;
                while (!c->marks.empty() && c->marks.front().first <= c->arrived) {
                    *c->marks.front().second = now;
                    c->marks.pop_front();
                }
                c->last_net = now;
                R->bytes_in += n;
                ev_hash("arrive", c->id, n);
                tracef("conn %d: %zu bytes arrive at the server", c->id, n);
                if (s.off == s.data.size()) c->flight.pop_front();
                edge(c);
            }
        } else if (s.type == 1) {
            c->flight.pop_front();
            if (!c->rst && !c->server_closed) {
                if (c->rx_avail()) probe(P_EOF_WITH_DATA);
                c->rx_fin = true;
                c->t_fin_arrived = now;
                c->last_net = now;
                ev_hash("fin", c->id);
                tracef("conn %d: FIN arrives at the server", c->id);
                edge(c);
            }
        } else {
            c->flight.clear();
            arrive_rst(c);
        }
        schedule_flight(c);
    });
}
void Kernel::arrive_rst(Conn* c) {
    if (c->rst || c->server_closed) {
        c->rst = true;
        return;
    }
    c->rst = true;
    c->t_rst_arrived = now;
    c->sk_err = ECONNRESET;
    c->tx.clear();
    c->tx_off = 0;
    ev_hash("rst", c->id);
    tracef("conn %d: RST arrives at the server", c->id);
    edge(c);
}
void Kernel::client_send(Conn* c, std::string_view b) {
    if (c->client_closed || c->client_fin_sent || c->client_dead || c->nowhere) return;
    size_t off = 0;
    while (off < b.size()) {
        size_t n = (size_t)std::clamp<i64>(c->peer->pick_segment(b.size() - off), 1, (i64)(b.size() - off));
        i64 t = std::max(c->last_arrival, now + c->peer->seg_latency());
        if (n < b.size() - off) fault(F_SEGMENT);
        c->last_arrival = t;
        c->flight.push_back({t, 0, std::string(b.substr(off, n)), 0});
        off += n;
    }
    schedule_flight(c);
}
void Kernel::client_fin(Conn* c) {
    if (c->client_fin_sent || c->client_dead || c->nowhere) return;
    c->client_fin_sent = true;
    i64 t = std::max(c->last_arrival, now + c->peer->seg_latency());
    c->last_arrival = t;
    c->flight.push_back({t, 1, "", 0});
    fault(F_CLIENT_FIN);
    schedule_flight(c);
}
void Kernel::client_rst(Conn* c, bool in_order) {
    if (c->client_dead || c->nowhere) return;
    c->client_dead = true;
    fault(F_CLIENT_RST);
    if (!in_order) c->flight.clear();
    i64 t = std::max(in_order ? c->last_arrival : 0, now + c->peer->seg_latency());
    c->last_arrival = t;
    c->flight.push_back({t, 2, ""});
    c->tx.clear();
    c->tx_off = 0;
    c->client_closed = true;
    schedule_flight(c);
}
void Kernel::client_close(Conn* c) {
    if (c->client_closed || c->nowhere) return;
    fault(F_CLIENT_CLOSE);
    if (!c->client_fin_sent && !c->client_dead) {
        c->client_fin_sent = true;
        i64 t = std::max(c->last_arrival, now + c->peer->seg_latency());
        c->last_arrival = t;
        c->flight.push_back({t, 1, "", 0});
        schedule_flight(c);
    }
    c->client_closed = true;
    c->client_dead = true;
    schedule_drain(c);  // data already sent by the server draws a reset
}
void Kernel::kick(Conn* c) {
    schedule_drain(c);
}
void Kernel::schedule_drain(Conn* c) {
    if (c->drain_event || c->rst) return;
    if (!c->tx_used() && !(c->tx_fin && !c->tx_fin_seen)) return;
    if (!c->client_closed && !c->peer->reading()) return;
    c->drain_event = true;
    i64 t = std::max({now + c->peer->drain_latency(), c->last_drain, c->part_until});
    u32 gen = c->drain_gen;
    at(t, [this, c, gen] {
        if (gen != c->drain_gen) return;
        c->drain_event = false;
        if (c->rst) return;
        if (now < c->part_until) {
            schedule_drain(c);
            return;
        }
        if (c->client_closed) {
            if (c->tx_used()) {
                c->tx.clear();
                c->tx_off = 0;
                at(now + c->peer->seg_latency(), [this, c] { arrive_rst(c); });
            }
            return;
        }
        if (!c->peer->reading()) return;
        if (c->tx_used()) {
            size_t n = (size_t)std::clamp<i64>(c->peer->drain_chunk(), 1, (i64)c->tx_used());
            std::string d = c->tx.substr(c->tx_off, n);
            bool room = c->tx_room();
            c->tx_off += n;
            if (!room && c->tx_room()) c->t_room = now;
            if (c->tx_off == c->tx.size()) {
                c->tx.clear();
                c->tx_off = 0;
            } else if (c->tx_off > 262144) {
                c->tx.erase(0, c->tx_off);
                c->tx_off = 0;
            }
            c->drained += n;
            c->last_net = now;
            i64 rate = c->peer->drain_rate();
            c->last_drain = now + (rate > 0 ? (i64)((double)n * 1e9 / (double)rate) : 0);
            R->bytes_out += n;
            ev_hash("drain", c->id, n, hstr(d));
            edge(c);
            if (!c->client_dead) c->peer->on_data(d);
        }
        if (!c->tx_used() && c->tx_fin && !c->tx_fin_seen) {
            c->tx_fin_seen = true;
            ev_hash("sfin", c->id);
            tracef("conn %d: client sees end of stream", c->id);
            if (!c->client_dead) c->peer->on_fin();
        }
        schedule_drain(c);
    });
}

// the client no longer reads slowly: forget the pace set before
void Kernel::undelay(Conn* c) {
    c->last_drain = std::min(c->last_drain, now);
    if (c->drain_event) {
        c->drain_gen++;
        c->drain_event = false;
    }
    schedule_drain(c);
}

static void server_close_conn(Conn* c) {
    c->server_closed = true;
    c->t_close = K.now;
    K.open_accepted--;
    if (K.open_accepted < 128) K.t_full = -1;
    ev_hash("close", c->id);
    tracef("conn %d: server closes fd %d", c->id, c->fd);
    bool unread = c->rx_avail() > 0;
    if (!c->rst) {
        if (unread) {
            fault(F_RST_BY_SERVER);
            c->tx.clear();
            c->tx_off = 0;
            c->rst = true;
            c->flight.clear();
            if (!c->client_dead && !c->client_closed) {
                Conn* cc = c;
                K.at(K.now + c->peer->drain_latency(), [cc] {
                    if (!cc->client_dead && !cc->client_closed) {
                        cc->client_dead = true;
                        cc->peer->on_rst();
                    }
                });
            }
        } else {
            c->tx_fin = true;
            K.schedule_drain(c);
        }
        K.schedule_flight(c);
    }
    c->rx.clear();
    c->rx_off = 0;
    int fd = c->fd;
    c->fd = -1;
    (void)fd;
    if (K.on_closed) {
        Harness h;
        K.on_closed(c);
    }
}

void Kernel::check_fds(const char* when) {
    for (auto& c : conns)
        if (c->accepted && !c->server_closed)
            violation("fd_leak", "connection %d accepted at %.3fs is still open %s", c->id, c->t_accept / 1e9, when);
    for (int i = 0; i < FD_MAX; i++)
        if (fds[i].t != Fd::FREE && fds[i].t != Fd::CONN)
            violation("fd_leak", "descriptor %d (%s) is still open %s", i + FD_BASE, fds[i].t == Fd::EPOLL ? "epoll" : "socket", when);
}

// ---------------------------------------------------------------- data path
static ssize_t k_read(int fd, struct iovec* iov, int cnt, int flags) {
    MemOff mo;
    Fd& f = F(fd);
    if (f.t == Fd::FREE) {
        violation("bad_fd", "read on closed descriptor %d", fd);
        errno = EBADF;
        return -1;
    }
    if (f.t != Fd::CONN) {
        errno = f.t == Fd::LISTENER || f.t == Fd::RAWSOCK ? ENOTCONN : EINVAL;
        return -1;
    }
    charge(K.cfg.sys_cost);
    Conn* c = K.busy_with = f.c;
    c->rdcount++;
    size_t want = 0;
    for (int i = 0; i < cnt; i++) want += iov[i].iov_len;
    if (c->t_touch < 0) c->t_touch = K.now;
    for (int spins = 0;; spins++) {
        if (size_t a = c->rx_avail()) {
            size_t n = std::min(a, want), left = n;
            size_t off = c->rx_off;
            for (int i = 0; i < cnt && left; i++) {
                size_t k = std::min(left, iov[i].iov_len);
                memcpy(iov[i].iov_base, c->rx.data() + off, k);
                off += k;
                left -= k;
            }
            if (!(flags & MSG_PEEK)) {
                c->rx_off += n;
                if (c->rx_off == c->rx.size()) {
                    c->rx.clear();
                    c->rx_off = 0;
                } else if (c->rx_off > 262144) {
                    c->rx.erase(0, c->rx_off);
                    c->rx_off = 0;
                }
                c->rd_bytes += n;
                c->last_server_io = K.now;
                if (c->t_blocked >= 0 && c->rd_bytes - c->rd_at_block > 200 * 1024)
                    violation("buffer_unbounded", "connection %d: %llu bytes were taken in while its output was blocked", c->id, (unsigned long long)(c->rd_bytes - c->rd_at_block));
                idle_polls = wait_spins = 0;
                ev_hash("read", c->id, n);
                K.schedule_flight(c);
                if (K.on_read) {
                    Harness h;
                    size_t l2 = n;
                    for (int i = 0; i < cnt && l2; i++) {
                        size_t k = std::min(l2, iov[i].iov_len);
                        K.on_read(c, {(const char*)iov[i].iov_base, k});
                        l2 -= k;
                    }
                }
            }
            return (ssize_t)n;
        }
        if (c->sk_err) {
            errno = c->sk_err;
            c->sk_err = 0;
            return -1;
        }
        if (c->rst || c->rx_fin) return 0;
        if (f.nonblock || (flags & MSG_DONTWAIT)) {
            errno = EAGAIN;
            return -1;
        }
        if (spins == 0) violation("blocking", "read blocks the server on connection %d", c->id);
        i64 n = K.next_event();
        if (n == INT64_MAX) n = K.now + SEC;
        K.now = std::max(K.now, n);
        charge(K.cfg.sys_cost);
        if (spins > 100000) finish_run();
    }
}
static ssize_t k_write(int fd, const struct iovec* iov, int cnt, int flags) {
    MemOff mo;
    Fd& f = F(fd);
    if (f.t == Fd::FREE) {
        violation("bad_fd", "write on closed descriptor %d", fd);
        errno = EBADF;
        return -1;
    }
    if (f.t != Fd::CONN) {
        errno = ENOTCONN;
        return -1;
    }
    charge(K.cfg.sys_cost);
    Conn* c = K.busy_with = f.c;
    c->wrcount++;
    size_t want = 0;
    for (int i = 0; i < cnt; i++) want += iov[i].iov_len;
    size_t done = 0;
    for (int spins = 0;; spins++) {
        if (c->sk_err) {
            if (done) return (ssize_t)done;
            errno = c->sk_err;
            c->sk_err = 0;
            return -1;
        }
        if (c->rst || c->tx_fin) {
            if (done) return (ssize_t)done;
            if (!(flags & MSG_NOSIGNAL)) {
                fault(F_SIGPIPE);
                ev_hash("sigpipe", c->id);
                tracef("conn %d: EPIPE, SIGPIPE raised", c->id);
                K.raise_signal(SIGPIPE);
                K.signal_seen = false;
            }
            errno = EPIPE;
            return -1;
        }
        size_t room = c->tx_free();
        if (want && room && K.roll(K.cfg.p_weagain, hkey(0xea6a, c->id), c->wrcount)) {
            fault(F_WRITE_EAGAIN);
            room = 0;
        }
        if (want && !room) {
            if (f.nonblock || (flags & MSG_DONTWAIT)) {
                if (done) return (ssize_t)done;
                probe(P_BLOCKED_WRITE);
                if (c->t_blocked < 0) {
                    c->t_blocked = K.now;
                    c->rd_at_block = c->rd_bytes;
                }
                K.at(K.now + 50 * US, [c] { edge(c); });  // the condition passes: whoever waits for an edge gets one
                errno = EAGAIN;
                return -1;
            }
            if (spins == 0) violation("blocking", "write blocks the server on connection %d", c->id);
            i64 n = K.next_event();
            if (n == INT64_MAX) n = K.now + SEC;
            K.now = std::max(K.now, n);
            charge(K.cfg.sys_cost);
            if (spins > 100000) finish_run();
            continue;
        }
        size_t n = std::min(room, want - done);
        if (n > 1 && K.roll(K.cfg.p_short_write, hkey(0x5407, c->id), c->wrcount)) {
            u64 r = hkey(S->seed, 0x5408, c->id, c->wrcount);
            n = (r & 1) ? 1 + (r >> 8) % n : 1 + (r >> 8) % std::min<size_t>(n, 24);
            fault(F_SHORT_WRITE);
        }
        size_t skip = done, left = n, before = c->tx.size();
        for (int i = 0; i < cnt && left; i++) {
            if (skip >= iov[i].iov_len) {
                skip -= iov[i].iov_len;
                continue;
            }
            size_t k = std::min(left, iov[i].iov_len - skip);
            c->tx.append((const char*)iov[i].iov_base + skip, k);
            left -= k;
            skip = 0;
        }
        done += n;
        if (n) {
            c->wr_bytes += n;
            c->writes.push_back({c->wr_bytes, K.now});
            c->last_server_io = K.now;
            c->last_server_wr = K.now;
            c->t_blocked = -1;
            idle_polls = wait_spins = 0;
            ev_hash("write", c->id, n);
            if (n < want) {
                probe(P_PARTIAL_WRITE);
                tracef("conn %d: send accepts %zu of %zu bytes", c->id, n, want);
            } else
                tracef("conn %d: send accepts %zu bytes", c->id, n);
            K.schedule_drain(c);
            if (K.on_write) {
                Harness h;
                K.on_write(c, std::string_view(c->tx).substr(before));
            }
            K.pump();
        }
        if (f.nonblock || (flags & MSG_DONTWAIT) || done == want) return (ssize_t)done;
    }
}

// ---------------------------------------------------------------- waiting
struct ReadyItem {
    int fd;
    u32 ev;
    u64 data;
    Reg* reg;
    int idx;
};
static u32 real_mask(int fd, u32 want) {
    struct pollfd p = {fd, (short)(want & 0xffff), 0};
    struct timespec z = {0, 0};
    if (syscall(SYS_ppoll, &p, 1, &z, nullptr, 0) <= 0) return 0;
    return (u32)(unsigned short)p.revents;
}
template <class Collect>
static int wait_ready(i64 timeout_ns, std::vector<ReadyItem>& out, Collect collect) {
    polls++;
    idle_polls++;
    K.busy_with = nullptr;
    i64 cost = K.cfg.sys_cost;
    if (idle_polls > 64) cost += std::min<i64>(2 * MS, (i64)idle_polls * 2 * US);
    K.signal_seen = false;
    charge(cost);
    if (K.on_poll) {
        Harness h;
        K.on_poll();
    }
    if (K.signal_seen) {
        K.signal_seen = false;
        errno = EINTR;
        return -1;
    }
    if (K.roll(K.cfg.p_eintr, 0xe147, polls)) {
        fault(F_EINTR);
        ev_hash("eintr", polls);
        tracef("readiness wait interrupted (EINTR)");
        errno = EINTR;
        return -1;
    }
    if (K.roll(K.cfg.p_poll_err, 0xe148, polls)) {
        fault(F_POLL_ERR);
        tracef("readiness wait fails (ENOMEM)");
        errno = ENOMEM;
        return -1;
    }
    i64 deadline = timeout_ns < 0 ? INT64_MAX : K.now + timeout_ns;
    for (bool first = true;; first = false) {
        out.clear();
        collect(out);
        if (!out.empty()) {
            wait_spins = first ? wait_spins + 1 : 0;
            if (wait_spins == 3000)
                violation("spin", "the loop has woken up %llu times in a row without doing anything (descriptor %d, events 0x%x)", (unsigned long long)wait_spins, out[0].fd, out[0].ev);
            break;
        }
        i64 nx = K.next_event();
        if (nx > deadline) {
            K.now = deadline;
            K.pump();
            if (K.now > K.hard_end && K.on_hard_end) {
                K.depth++;
                K.on_hard_end();
            }
            return 0;
        }
        if (nx == INT64_MAX) nx = K.now + SEC;
        K.now = std::max(K.now, nx);
        K.pump();
        if (K.now > K.hard_end && K.on_hard_end) {
            K.depth++;
            K.on_hard_end();
        }
        if (K.signal_seen) {
            K.signal_seen = false;
            errno = EINTR;
            return -1;
        }
    }
    return (int)out.size();
}

static int k_epoll_wait(int ep, struct epoll_event* ev, int maxev, i64 timeout_ns) {
    MemOff mo;
    if (!is_sim(ep) || F(ep).t != Fd::EPOLL) {
        errno = EBADF;
        return -1;
    }
    if (maxev <= 0) {
        errno = EINVAL;
        return -1;
    }
    std::vector<ReadyItem> r;
    int n = wait_ready(timeout_ns, r, [ep](std::vector<ReadyItem>& o) {
        bool spurious_round = K.cfg.p_spurious && K.roll(K.cfg.p_spurious, 0x59a, polls);
        for (auto& [fd, reg] : F(ep).regs) {
            if (reg.disabled) continue;
            u32 m = is_sim(fd) ? mask_of(fd) : real_mask(fd, reg.events);
            m &= (reg.events | EPOLLERR | EPOLLHUP);
            m &= ~(u32)(EPOLLET | EPOLLONESHOT);
            if (!m && spurious_round && is_sim(fd) && F(fd).t == Fd::CONN && (reg.events & EPOLLIN) &&
                hkey(S->seed, 0x59b, polls, fd) % 4 == 0) {
                m = EPOLLIN;
                fault(F_SPURIOUS);
            }
            if (!m) continue;
            if ((reg.events & EPOLLET) && !reg.edge) continue;
            o.push_back({fd, m, reg.data, &reg, 0});
        }
    });
    if (n <= 0) return n;
    Rng g(hkey(S->seed, 0x9e4d, polls));
    if (r.size() > 1 && K.cfg.p_permute && K.roll(K.cfg.p_permute, 0x9e4, polls)) {
        for (size_t i = r.size() - 1; i > 0; i--) std::swap(r[i], r[g.below(i + 1)]);
        fault(F_PERMUTE);
    }
    size_t lim = std::min((size_t)maxev, r.size());
    if (lim > 1 && K.cfg.p_subset && K.roll(K.cfg.p_subset, 0x5b5, polls)) {
        lim = 1 + g.below(lim);
        if (lim < r.size()) fault(F_SUBSET);
        // do not starve: start at a random rotation
        std::rotate(r.begin(), r.begin() + (long)g.below(r.size()), r.end());
    } else if (lim < r.size()) {
        // Linux rotates its ready list, so nothing starves
        std::rotate(r.begin(), r.begin() + (long)((polls * lim) % r.size()), r.end());
    }
    u64 h = 0;
    for (size_t i = 0; i < lim; i++) {
        ev[i].events = r[i].ev;
        ev[i].data.u64 = r[i].data;
        r[i].reg->edge = false;
        if (r[i].reg->events & EPOLLONESHOT) r[i].reg->disabled = true;
        h = hkey(h, (u64)r[i].fd, r[i].ev);
    }
    ev_hash("ready", lim, h);
    return (int)lim;
}

static int k_poll(struct pollfd* p, nfds_t n, i64 timeout_ns) {
    MemOff mo;
    std::vector<ReadyItem> r;
    auto collect = [p, n](std::vector<ReadyItem>& o) {
        bool spurious_round = K.cfg.p_spurious && K.roll(K.cfg.p_spurious, 0x59a, polls);
        for (nfds_t i = 0; i < n; i++) {
            p[i].revents = 0;
            if (p[i].fd < 0) continue;
            u32 m;
            if (is_sim(p[i].fd)) {
                if (F(p[i].fd).t == Fd::FREE)
                    m = POLLNVAL;
                else {
                    m = mask_of(p[i].fd) & ((u32)(unsigned short)p[i].events | POLLERR | POLLHUP);
                    if (!m && spurious_round && F(p[i].fd).t == Fd::CONN && (p[i].events & POLLIN) &&
                        hkey(S->seed, 0x59b, polls, p[i].fd) % 4 == 0) {
                        m = POLLIN;
                        fault(F_SPURIOUS);
                    }
                }
            } else
                m = real_mask(p[i].fd, (u32)(unsigned short)p[i].events);
            if (m) {
                p[i].revents = (short)m;
                o.push_back({p[i].fd, m, 0, nullptr, (int)i});
            }
        }
    };
    int k = wait_ready(timeout_ns, r, collect);
    if (k < 0) {
        for (nfds_t i = 0; i < n; i++) p[i].revents = 0;
        return k;
    }
    if (k > 1 && K.cfg.p_subset && K.roll(K.cfg.p_subset, 0x5b5, polls)) {
        // some of them "became ready" only after the call looked
        Rng g(hkey(S->seed, 0x5b6, polls));
        size_t keep = g.below(r.size());
        int cnt = 0;
        for (size_t i = 0; i < r.size(); i++) {
            if (i != keep && g.pm(400)) {
                p[r[i].idx].revents = 0;
                fault(F_SUBSET);
            } else
                cnt++;
        }
        k = cnt;
    }
    u64 h = 0;
    for (nfds_t i = 0; i < n; i++)
        if (p[i].revents) h = hkey(h, (u64)p[i].fd, (u64)(unsigned short)p[i].revents);
    ev_hash("ready", (u64)k, h);
    return k;
}

}  // namespace sim

// ================================================================ libc seam
using namespace sim;

static int fail(int e) {
    errno = e;
    return -1;
}

extern "C" {

int socket(int d, int type, int proto) noexcept {
    MemOff mo;
    if (!on()) return (int)syscall(SYS_socket, d, type, proto);
    charge(K.cfg.sys_cost);
    int fd = alloc_fd(Fd::RAWSOCK);
    F(fd).nonblock = type & SOCK_NONBLOCK;
    return fd;
}
int bind(int fd, const struct sockaddr* a, socklen_t l) noexcept {
    if (!is_sim(fd)) return (int)syscall(SYS_bind, fd, a, l);
    return F(fd).t == Fd::FREE ? fail(EBADF) : 0;
}
int listen(int fd, int b) noexcept {
    if (!is_sim(fd)) return (int)syscall(SYS_listen, fd, b);
    if (F(fd).t == Fd::FREE) return fail(EBADF);
    F(fd).t = Fd::LISTENER;
    listener_fd = fd;
    K.listening = true;
    return 0;
}
int accept4(int fd, struct sockaddr* a, socklen_t* l, int flags) {
    MemOff mo;
    if (!is_sim(fd)) return (int)syscall(SYS_accept4, fd, a, l, flags);
    if (F(fd).t == Fd::FREE) {
        violation("bad_fd", "accept on closed descriptor %d", fd);
        return fail(EBADF);
    }
    if (F(fd).t != Fd::LISTENER) return fail(EINVAL);
    charge(K.cfg.sys_cost);
    accept_tries++, wait_spins = 0;
    for (auto& f : S->faults)
        if (f.kind == "accept" && K.faulty() && K.now >= f.get("from") * US && K.now < f.get("to") * US && !backlog.empty()) {
            fault(F_ACCEPT_ERR);
            K.t_accept_err = K.now;
            ev_hash("accept_err", (u64)f.get("err"));
            tracef("accept fails: %s", strerror((int)f.get("err")));
            return fail((int)f.get("err"));
        }
    if (!backlog.empty() && K.roll(K.cfg.p_accept_err, 0xacce, accept_tries)) {
        static const int errs[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM, EINTR, EPROTO, ECONNABORTED, EHOSTUNREACH, ENETDOWN, ENONET, EOPNOTSUPP, ENETUNREACH, EHOSTDOWN, ENOPROTOOPT, EPERM};
        int e = errs[hkey(S->seed, 0xaccf, accept_tries) % (sizeof errs / sizeof *errs)];
        fault(F_ACCEPT_ERR);
        K.t_accept_err = K.now;
        ev_hash("accept_err", (u64)e);
        tracef("accept fails: %s", strerror(e));
        return fail(e);
    }
    // a client that reset before being accepted: some kernels drop it, some report it
    while (!backlog.empty() && backlog.front()->rst && S->g.get("abort_mode")) {
        backlog.pop_front();
        fault(F_ACCEPT_GONE);
        ev_hash("accept_gone", 0);
        if (S->g.get("abort_mode") == 1) {
            tracef("accept fails: connection aborted");
            return fail(ECONNABORTED);
        }
    }
    if (backlog.empty()) {
        if (F(fd).nonblock) return fail(EAGAIN);
        violation("blocking", "accept blocks the server: nothing to accept");
        finish_run();
    }
    Conn* c = backlog.front();
    backlog.pop_front();
    int nfd = alloc_fd(Fd::CONN);
    F(nfd).c = c;
    F(nfd).nonblock = flags & SOCK_NONBLOCK;
    c->fd = nfd;
    c->accepted = true;
    K.busy_with = c;
    c->t_accept = K.now;
    c->last_server_io = K.now;
    K.accepts++;
    R->conns++;
    c->over_limit = K.open_accepted >= 128;
    K.open_accepted++;
    if (K.open_accepted >= 128 && K.t_full < 0) K.t_full = K.now;
    idle_polls = 0;
    ev_hash("accept", c->id, (u64)nfd);
    tracef("conn %d: accepted as fd %d (%d open)", c->id, nfd, K.open_accepted);
    if (a && l) {
        struct sockaddr_in si {};
        si.sin_family = AF_INET;
        si.sin_addr.s_addr = htonl(c->ip);
        si.sin_port = htons((uint16_t)c->port);
        memcpy(a, &si, std::min<size_t>(*l, sizeof si));
        *l = sizeof si;
    }
    if (K.on_accept) {
        Harness h;
        K.on_accept(c);
    }
    return nfd;
}
int accept(int fd, struct sockaddr* a, socklen_t* l) { return accept4(fd, a, l, 0); }

int setsockopt(int fd, int lv, int o, const void* v, socklen_t l) noexcept {
    if (!is_sim(fd)) return (int)syscall(SYS_setsockopt, fd, lv, o, v, l);
    if (F(fd).t == Fd::FREE) return fail(EBADF);
    if (F(fd).t == Fd::CONN && K.roll(K.cfg.p_sockopt, 0x50c, (u64)F(fd).c->id)) {
        fault(F_SOCKOPT);
        return fail(EINVAL);
    }
    return 0;
}
int getsockopt(int fd, int lv, int o, void* v, socklen_t* l) noexcept {
    if (!is_sim(fd)) return (int)syscall(SYS_getsockopt, fd, lv, o, v, l);
    if (F(fd).t == Fd::FREE) return fail(EBADF);
    int val = 0;
    if (lv == SOL_SOCKET && o == SO_ERROR && F(fd).t == Fd::CONN) {
        val = F(fd).c->sk_err;
        F(fd).c->sk_err = 0;
    } else if (lv == SOL_SOCKET && o == SO_TYPE)
        val = SOCK_STREAM;
    if (v && l && *l >= sizeof(int)) {
        memcpy(v, &val, sizeof val);
        *l = sizeof val;
    }
    return 0;
}
static int name_of(int fd, struct sockaddr* a, socklen_t* l, bool peer) {
    Fd& f = F(fd);
    if (f.t == Fd::FREE) return fail(EBADF);
    struct sockaddr_in si {};
    si.sin_family = AF_INET;
    if (f.t == Fd::CONN) {
        if (peer && f.c->rst) {
            fault(F_PEERNAME);
            return fail(ENOTCONN);
        }
        si.sin_addr.s_addr = htonl(peer ? f.c->ip : 0x7f000001);
        si.sin_port = htons((uint16_t)f.c->port);
    } else if (peer)
        return fail(ENOTCONN);
    if (a && l) {
        memcpy(a, &si, std::min<size_t>(*l, sizeof si));
        *l = sizeof si;
    }
    return 0;
}
int getpeername(int fd, struct sockaddr* a, socklen_t* l) noexcept {
    if (!is_sim(fd)) return (int)syscall(SYS_getpeername, fd, a, l);
    return name_of(fd, a, l, true);
}
int getsockname(int fd, struct sockaddr* a, socklen_t* l) noexcept {
    if (!is_sim(fd)) return (int)syscall(SYS_getsockname, fd, a, l);
    return name_of(fd, a, l, false);
}
static int k_fcntl(int fd, int cmd, long arg) {
    Fd& f = F(fd);
    if (f.t == Fd::FREE) return fail(EBADF);
    if ((cmd == F_GETFL || cmd == F_SETFL) && f.t == Fd::CONN && (f.c->peer->victim() & 2) && K.faulty()) {
        fault(F_FCNTL);
        tracef("conn %d: fcntl fails: ENOMEM", f.c->id);
        return fail(ENOMEM);
    }
    switch (cmd) {
        case F_GETFL:
            return O_RDWR | (f.nonblock ? O_NONBLOCK : 0);
        case F_SETFL:
            f.nonblock = arg & O_NONBLOCK;
            return 0;
        case F_GETFD:
        case F_SETFD:
            return 0;
        default:
            return fail(EINVAL);
    }
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (!is_sim(fd)) return (int)syscall(SYS_fcntl, fd, cmd, arg);
    return k_fcntl(fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (!is_sim(fd)) return (int)syscall(SYS_fcntl, fd, cmd, arg);
    return k_fcntl(fd, cmd, arg);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
    va_list ap;
    va_start(ap, req);
    void* arg = va_arg(ap, void*);
    va_end(ap);
    if (!is_sim(fd)) return (int)syscall(SYS_ioctl, fd, req, arg);
    Fd& f = F(fd);
    if (f.t == Fd::FREE) return fail(EBADF);
    if (req == FIONBIO) {
        f.nonblock = *(int*)arg;
        return 0;
    }
    if (req == FIONREAD && f.t == Fd::CONN) {
        *(int*)arg = (int)f.c->rx_avail();
        return 0;
    }
    if (req == TIOCOUTQ && f.t == Fd::CONN) {
        *(int*)arg = (int)f.c->tx_used();
        return 0;
    }
    return fail(ENOTTY);
}

ssize_t file_read_hook(int fd, void* p, size_t n);  // files.cpp

ssize_t read(int fd, void* p, size_t n) {
    if (!is_sim(fd)) return on() ? file_read_hook(fd, p, n) : real_read(fd, p, n);
    struct iovec v = {p, n};
    return k_read(fd, &v, 1, 0);
}
ssize_t recv(int fd, void* p, size_t n, int fl) {
    if (!is_sim(fd)) return syscall(SYS_recvfrom, fd, p, n, fl, 0, 0);
    struct iovec v = {p, n};
    return k_read(fd, &v, 1, fl);
}
ssize_t recvfrom(int fd, void* p, size_t n, int fl, struct sockaddr* a, socklen_t* l) {
    if (!is_sim(fd)) return syscall(SYS_recvfrom, fd, p, n, fl, a, l);
    struct iovec v = {p, n};
    return k_read(fd, &v, 1, fl);
}
ssize_t readv(int fd, const struct iovec* v, int c) {
    if (!is_sim(fd)) return syscall(SYS_readv, fd, v, c);
    return k_read(fd, const_cast<struct iovec*>(v), c, 0);
}
ssize_t recvmsg(int fd, struct msghdr* m, int fl) {
    if (!is_sim(fd)) return syscall(SYS_recvmsg, fd, m, fl);
    return k_read(fd, m->msg_iov, (int)m->msg_iovlen, fl);
}
ssize_t write(int fd, const void* p, size_t n) {
    if (!is_sim(fd)) return real_write(fd, p, n);
    struct iovec v = {const_cast<void*>(p), n};
    return k_write(fd, &v, 1, 0);
}
ssize_t send(int fd, const void* p, size_t n, int fl) {
    if (!is_sim(fd)) return syscall(SYS_sendto, fd, p, n, fl, 0, 0);
    struct iovec v = {const_cast<void*>(p), n};
    return k_write(fd, &v, 1, fl);
}
ssize_t sendto(int fd, const void* p, size_t n, int fl, const struct sockaddr* a, socklen_t l) {
    if (!is_sim(fd)) return syscall(SYS_sendto, fd, p, n, fl, a, l);
    struct iovec v = {const_cast<void*>(p), n};
    return k_write(fd, &v, 1, fl);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!is_sim(fd)) return syscall(SYS_writev, fd, v, c);
    return k_write(fd, v, c, 0);
}
ssize_t sendmsg(int fd, const struct msghdr* m, int fl) {
    if (!is_sim(fd)) return syscall(SYS_sendmsg, fd, m, fl);
    return k_write(fd, m->msg_iov, (int)m->msg_iovlen, fl);
}
int shutdown(int fd, int how) noexcept {
    MemOff mo;
    if (!is_sim(fd)) return (int)syscall(SYS_shutdown, fd, how);
    Fd& f = F(fd);
    if (f.t == Fd::FREE) {
        violation("bad_fd", "shutdown on closed descriptor %d", fd);
        return fail(EBADF);
    }
    if (f.t != Fd::CONN) return fail(ENOTCONN);
    charge(K.cfg.sys_cost);
    if (f.c->rst) return fail(ENOTCONN);
    if (how == SHUT_WR || how == SHUT_RDWR) {
        f.c->tx_fin = true;
        ev_hash("shutdown", (u64)f.c->id);
        tracef("conn %d: server shuts down its sending side", f.c->id);
        K.schedule_drain(f.c);
        edge(f.c);
    }
    if (how == SHUT_RD || how == SHUT_RDWR) f.c->rx_fin = true;
    return 0;
}
void file_close_hook(int fd);  // files.cpp
int close(int fd) {
    MemOff mo;
    if (!is_sim(fd)) {
        if (on()) file_close_hook(fd);
        return (int)syscall(SYS_close, fd);
    }
    Fd& f = F(fd);
    if (f.t == Fd::FREE) {
        violation("bad_fd", "close of descriptor %d, which is not open", fd);
        return fail(EBADF);
    }
    if (on()) charge(K.cfg.sys_cost);
    if (f.t == Fd::CONN) server_close_conn(f.c);
    if (f.t == Fd::LISTENER) {
        K.listening = false;
        listener_fd = -1;
        for (Conn* c : backlog) {
            c->rst = true;
            c->server_closed = true;
            c->nowhere = true;
        }
        backlog.clear();
    }
    for (auto& e : fds)
        if (e.t == Fd::EPOLL) e.regs.erase(fd);
    f = Fd{};
    f.used_before = true;
    idle_polls = wait_spins = 0;
    return 0;
}

int epoll_create1(int fl) noexcept {
    MemOff mo;
    if (!on()) return (int)syscall(SYS_epoll_create1, fl);
    probe(P_EPOLL_BACKEND);
    return alloc_fd(Fd::EPOLL);
}
int epoll_create(int) noexcept { return epoll_create1(0); }
int epoll_ctl(int ep, int op, int fd, struct epoll_event* ev) noexcept {
    MemOff mo;
    if (!is_sim(ep)) return (int)syscall(SYS_epoll_ctl, ep, op, fd, ev);
    if (F(ep).t != Fd::EPOLL) return fail(EBADF);
    if (is_sim(fd) && F(fd).t == Fd::FREE) return fail(EBADF);
    auto& regs = F(ep).regs;
    auto it = regs.find(fd);
    if (op == EPOLL_CTL_ADD) {
        if (it != regs.end()) return fail(EEXIST);
        if (is_sim(fd) && F(fd).t == Fd::CONN && K.faulty() && (F(fd).c->peer->victim() & 1)) {
            fault(F_CTL_FAIL);
            ev_hash("ctl_fail", (u64)F(fd).c->id);
            tracef("conn %d: epoll_ctl(ADD) fails: ENOSPC", F(fd).c->id);
            return fail(ENOSPC);
        }
        regs[fd] = Reg{ev->events, ev->data.u64, true, false};
        return 0;
    }
    if (it == regs.end()) return fail(ENOENT);
    if (op == EPOLL_CTL_MOD) {
        it->second = Reg{ev->events, ev->data.u64, true, false};
        return 0;
    }
    if (op == EPOLL_CTL_DEL) {
        regs.erase(it);
        return 0;
    }
    return fail(EINVAL);
}
int epoll_wait(int ep, struct epoll_event* ev, int max, int timeout) {
    if (!is_sim(ep)) return (int)syscall(SYS_epoll_pwait, ep, ev, max, timeout, nullptr, 8);
    return k_epoll_wait(ep, ev, max, timeout < 0 ? -1 : (i64)timeout * MS);
}
int epoll_pwait(int ep, struct epoll_event* ev, int max, int timeout, const sigset_t* ss) {
    if (!is_sim(ep)) return (int)syscall(SYS_epoll_pwait, ep, ev, max, timeout, ss, 8);
    return k_epoll_wait(ep, ev, max, timeout < 0 ? -1 : (i64)timeout * MS);
}
int epoll_pwait2(int ep, struct epoll_event* ev, int max, const struct timespec* t, const sigset_t*) {
    return k_epoll_wait(ep, ev, max, t ? t->tv_sec * SEC + t->tv_nsec : -1);
}
static bool any_sim(struct pollfd* p, nfds_t n) {
    for (nfds_t i = 0; i < n; i++)
        if (is_sim(p[i].fd)) return true;
    return false;
}
int poll(struct pollfd* p, nfds_t n, int timeout) {
    if (!on() || !any_sim(p, n)) return (int)syscall(SYS_poll, p, n, on() && timeout != 0 ? 0 : timeout);
    return k_poll(p, n, timeout < 0 ? -1 : (i64)timeout * MS);
}
int ppoll(struct pollfd* p, nfds_t n, const struct timespec* t, const sigset_t* ss) {
    if (!on() || !any_sim(p, n)) return (int)syscall(SYS_ppoll, p, n, t, ss, 8);
    return k_poll(p, n, t ? t->tv_sec * SEC + t->tv_nsec : -1);
}

// ---- clocks
int clock_gettime(clockid_t id, struct timespec* t) noexcept {
    if (!K.active || !sim_thread) return (int)syscall(SYS_clock_gettime, id, t);
    if (K.depth == 0) K.now += 40;
    i64 v = K.now + MONO_BASE + K.mono_off;
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI) v = K.now + K.wall_off;
    t->tv_sec = v / SEC;
    t->tv_nsec = v % SEC;
    return 0;
}
int gettimeofday(struct timeval* __restrict tv, void* __restrict) noexcept {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    tv->tv_sec = t.tv_sec;
    tv->tv_usec = t.tv_nsec / 1000;
    return 0;
}
time_t time(time_t* p) noexcept {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    if (p) *p = t.tv_sec;
    return t.tv_sec;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
    if (!on()) return (int)syscall(SYS_nanosleep, a, b);
    charge(a->tv_sec * SEC + a->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t id, int fl, const struct timespec* a, struct timespec* b) {
    if (!on()) return (int)syscall(SYS_clock_nanosleep, id, fl, a, b);
    charge(a->tv_sec * SEC + a->tv_nsec);
    return 0;
}
int usleep(useconds_t u) {
    struct timespec t = {(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
    return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s) {
    struct timespec t = {(time_t)s, 0};
    nanosleep(&t, nullptr);
    return 0;
}

// ---- randomness
static u64 rnd_ctr = 0;
void sim_random(void* p, size_t n) {
    u8* b = (u8*)p;
    u64 seed = S ? S->seed : 1;
    for (size_t i = 0; i < n; i += 8) {
        u64 v = hkey(seed, 0x4a4d, rnd_ctr++);
        memcpy(b + i, &v, std::min<size_t>(8, n - i));
    }
}
ssize_t getrandom(void* p, size_t n, unsigned) {
    sim_random(p, n);
    return (ssize_t)n;
}
int getentropy(void* p, size_t n) {
    sim_random(p, n);
    return 0;
}
}  // extern "C"

// libstdc++'s random_device reads the CPU's generator unless stopped
namespace std {
random_device::result_type random_device::_M_getval() {
    u32 v;
    sim_random(&v, sizeof v);
    return v;
}
}  // namespace std
