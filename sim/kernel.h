// The simulated kernel: sockets, readiness, clocks, signals, and the event queue.
#pragma once
#include "core.h"

namespace sim {

struct Conn;

// What a client must implement to sit at the other end of a simulated connection.
struct Peer {
    virtual ~Peer() = default;
    virtual void on_data(std::string_view bytes) = 0;
    virtual void on_fin() = 0;
    virtual void on_rst() = 0;
    virtual bool reading() const = 0;  // false: the client leaves bytes in its receive buffer
    virtual i64 drain_rate() const = 0;  // bytes per second, 0 = unlimited
    virtual i64 drain_chunk() = 0;
    virtual i64 drain_latency() = 0;
    virtual i64 pick_segment(size_t left) = 0;
    virtual i64 seg_latency() = 0;
    virtual int victim() const { return 0; }  // bit 0: registration fails, 1: fcntl fails, 2: no SSL object, 3: allocations fail
};

struct Seg {
    i64 at;
    int type;  // 0 data, 1 FIN, 2 RST
    std::string data;
    size_t off = 0;  // how much of it has arrived
};

struct Conn {
    int id = 0;
    Peer* peer = nullptr;
    u32 ip = 0;
    int port = 0;
    // client -> server
    std::deque<Seg> flight;
    bool flight_event = false;
    i64 last_arrival = 0;
    std::string rx;
    size_t rx_off = 0;
    size_t rx_cap = 65536;
    bool rx_fin = false;  // FIN arrived at the server's kernel
    bool rst = false;     // RST arrived
    int sk_err = 0;
    // server -> client
    std::string tx;
    size_t tx_off = 0;
    size_t tx_cap = 65536;
    bool tx_fin = false;       // server shut down its sending side (or closed)
    bool tx_fin_seen = false;  // client has been told
    bool drain_event = false;
    i64 last_drain = 0;
    u32 drain_gen = 0;
    i64 part_until = 0;  // partition: nothing crosses before this instant
    // ends
    bool accepted = false;
    int fd = -1;
    bool server_closed = false;
    bool client_closed = false;  // client closed its socket: later server bytes get RST
    bool client_fin_sent = false;
    bool client_dead = false;  // client must get no more callbacks
    bool nowhere = false;
    // bookkeeping for oracles
    u64 rd_bytes = 0, wr_bytes = 0, arrived = 0, drained = 0;
    i64 t_accept = -1, t_close = -1, t_connect = 0;
    i64 last_server_io = 0;   // last successful server read>0 or write>0
    i64 last_net = 0;         // last byte moved by the network in either direction
    i64 t_touch = -1;         // first time the server tried to read
    i64 last_server_wr = 0;   // last successful server write>0
    i64 t_fin_arrived = -1, t_rst_arrived = -1;
    i64 t_blocked = -1;
    bool over_limit = false;
    // TLS records completed by the server, per direction (idle oracle)
    u64 rec_need[2] = {0, 0};
    std::string rec_hdr[2];
    i64 last_record = 0;
    u64 fr_left = 24;  // the preface
    std::string fr_hdr;
    bool hs_done = false;  // an encrypted record of the client has been read: the handshake is complete
    bool overflow_checked = false;
    u64 rdcount = 0, wrcount = 0;
    std::deque<std::pair<u64, i64*>> marks;  // set to the instant this many bytes had arrived
    u64 rd_at_block = 0;  // bytes read when the output became blocked
    bool close_ok = false;
    std::deque<std::pair<u64, i64>> writes;  // when the server had written this many bytes
    i64 written_at(u64 n) {
        while (writes.size() > 1 && writes.front().first < n) writes.pop_front();
        return writes.empty() ? 0 : writes.front().second;
    }
    u64 handled_bytes = 0;  // response bytes the application has produced
    size_t rx_avail() const { return rx.size() - rx_off; }
    size_t tx_used() const { return tx.size() - tx_off; }
    size_t tx_free() const { return tx_used() >= tx_cap ? 0 : tx_cap - tx_used(); }
    bool tx_room() const { return tx_free() > 0 && tx_free() >= tx_used() / 2; }  // polls as writable
    i64 t_room = 0;  // when it last became writable
};

struct KernelCfg {
    i64 sys_cost = 2 * US;
    int p_eintr = 0, p_spurious = 0, p_subset = 0, p_permute = 0, p_short_write = 0, p_weagain = 0,
        p_ctl_fail = 0, p_peername = 0, p_sockopt = 0, p_stall = 0, p_accept_err = 0, p_fcntl = 0,
        p_sslnew = 0, p_read_err = 0, p_poll_err = 0;
    i64 stall_max = 0;
    i64 faults_until = 0;  // no injected fault at or after this simulated instant
};

// a thread the server starts is not part of the simulation: its calls are real ones
extern thread_local bool sim_thread;

struct Kernel {
    KernelCfg cfg;
    bool active = false;     // hooks simulate only while set
    int depth = 0;           // >0: harness code is running; hooks pass through
    i64 now = 0;             // monotonic simulated time, ns
    Conn* busy_with = nullptr;  // the connection of the last read, write or accept since the last wait
    i64 wall_off = 0;        // wall clock minus monotonic
    i64 mono_off = 0;        // how long the process was there before it began to serve
    u64 seq = 0;
    struct Ev {
        i64 at;
        u64 seq;
        std::function<void()> f;
    };
    std::vector<Ev> q;  // heap
    void at(i64 t, std::function<void()> f);
    void pump();
    i64 next_event() const { return q.empty() ? INT64_MAX : q.front().at; }

    std::vector<std::unique_ptr<Conn>> conns;
    Conn* connect(Peer* p, u32 ip, int port);
    void client_send(Conn* c, std::string_view bytes);
    void client_fin(Conn* c);
    void client_rst(Conn* c, bool in_order);
    void undelay(Conn* c);
    void client_close(Conn* c);
    void schedule_flight(Conn* c);
    void schedule_drain(Conn* c);
    void kick(Conn* c);  // client resumed reading
    void arrive_rst(Conn* c);

    int open_accepted = 0;
    i64 t_full = -1;        // since when 128 connections have been open
    i64 t_accept_err = 0;   // when accepting last failed
    Conn* first_waiting() const;
    u64 accepts = 0;
    bool signal_seen = false;
    bool listening = false;
    i64 hard_end = INT64_MAX;
    std::function<void()> on_hard_end;
    std::function<void(Conn*)> on_accept, on_closed;
    std::function<void(Conn*, std::string_view)> on_write, on_read;
    std::function<void()> on_poll;  // at every readiness wait
    void raise_signal(int sig);
    void busy(i64 ns);  // simulated computation by the server
    bool faulty() const { return now < cfg.faults_until; }
    bool roll(int pm, u64 key1, u64 key2);
    void check_fds(const char* when);
    void dump_open(std::string& out);
};
extern Kernel K;

struct Harness {  // scope in which hooks pass through to the real system
    Harness() { K.depth++; }
    ~Harness() { K.depth--; }
};

extern int mem_off;
struct MemOff {  // what is allocated in this scope is not the server's
    MemOff() { mem_off++; }
    ~MemOff() { mem_off--; }
};

std::string ip_text(u32 ip);
ssize_t real_write(int fd, const void* p, size_t n);
ssize_t real_read(int fd, void* p, size_t n);

// file layer (files.cpp)
struct FileCfg {
    std::string root;    // scratch directory: only paths below it are interfered with
    std::string stroot;  // real path of the static root
    std::string logpath;
    int p_open = 0, p_read = 0, p_short = 0, p_stat = 0, p_eintr = 0, p_log = 0;
    std::function<void(const char* op, const std::string& path)> on_file_op;
    std::function<void(const std::string& path)> on_open;
    u64 ops = 0;
};
extern FileCfg FC;
size_t files_open();  // regular files opened by the server and not closed

}  // namespace sim
