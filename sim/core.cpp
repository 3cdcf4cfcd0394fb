#include "core.h"

#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <unistd.h>

#include "kernel.h"

namespace sim {

Result* R;
Scenario* S;

const char* const FAULT_NAMES[F_NKINDS] = {
    "short_write", "write_would_block", "wait_eintr", "accept_error", "accept_aborted", "registration_failure",
    "spurious_readiness", "partial_readiness", "permuted_readiness", "segmentation", "delay", "partition",
    "client_reset", "client_half_close", "client_close", "reset_by_server_kernel", "sigpipe", "server_stall",
    "wall_clock_jump", "getpeername_failure", "setsockopt_failure", "client_stops_reading", "garbage_bytes",
    "malformed_frame", "tls_record_corruption", "tls_handshake_abandoned", "handler_exception", "file_open_failure",
    "file_read_error", "file_short_read", "file_stat_failure", "file_changed_midway", "log_write_failure",
    "signal", "output_pipe_broken", "fcntl_failure", "ssl_object_failure", "socket_read_error",
    "readiness_wait_failure", "symlink_swapped", "connection_over_limit", "idle_period",
    "header_bomb", "frame_flood", "allocation_failure"};
const char* const PROBE_NAMES[P_N] = {
    "write_blocked", "partial_write", "receive_buffer_full", "frame_split_across_reads", "eof_arrived_with_unread_data",
    "server_at_capacity", "overflow_connection_closed", "idle_connection_reaped", "slot_reused_after_capacity",
    "fd_number_reused", "huffman_request", "dynamic_table_request", "request_table_eviction", "request_table_size_update",
    "continuation_request", "padded_request", "priority_request", "dynamic_table_response", "response_table_eviction",
    "response_table_size_update", "continuation_response", "multi_byte_index_response", "tls13", "tls12",
    "poll_backend", "epoll_backend", "stop_during_syscall", "stop_in_handler", "stop_before_start",
    "stop_with_blocked_output", "start_refused", "static_ok", "static_error", "static_head", "static_escape_attempt",
    "log_lines", "log_hostile_value", "status_page", "stale_tls_error_possible", "window_exceeded", "goaway_received", "upload_waits_for_window"};

i64 Rng::logu(i64 lo, i64 hi) {
    if (hi <= lo) return lo;
    double a = log((double)(lo < 1 ? 1 : lo)), b = log((double)hi + 1);
    double v = exp(a + (b - a) * ((double)(next() >> 11) / 9007199254740992.0));
    i64 r = (i64)v;
    return r < lo ? lo : r > hi ? hi : r;
}

static std::string quote(const std::string& s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\') {
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        } else
            o.push_back((char)c);
    }
    return o + "\"";
}
std::string Rec::line() const {
    std::string o = kind;
    for (auto& [k, v] : i) o += " " + k + "=" + std::to_string(v);
    for (auto& [k, v] : s) o += " " + k + "=" + quote(v);
    return o;
}
bool Rec::parse(const std::string& l, Rec& out) {
    out = Rec{};
    size_t p = 0;
    auto word = [&](const char* stop) {
        size_t b = p;
        while (p < l.size() && !strchr(stop, l[p])) p++;
        return l.substr(b, p - b);
    };
    while (p < l.size() && l[p] == ' ') p++;
    out.kind = word(" ");
    if (out.kind.empty()) return false;
    while (p < l.size()) {
        while (p < l.size() && l[p] == ' ') p++;
        if (p >= l.size()) break;
        std::string k = word("=");
        if (p >= l.size()) return false;
        p++;
        if (p < l.size() && l[p] == '"') {
            p++;
            std::string v;
            while (p < l.size() && l[p] != '"') {
                if (l[p] == '\\' && p + 3 < l.size()) {
                    v.push_back((char)strtol(l.substr(p + 2, 2).c_str(), nullptr, 16));
                    p += 4;
                } else
                    v.push_back(l[p++]);
            }
            p++;
            out.s[k] = v;
        } else
            out.i[k] = strtoll(word(" ").c_str(), nullptr, 10);
    }
    return true;
}
std::string Scenario::text() const {
    std::string o = "profile " + profile + "\nseed " + std::to_string(seed) + "\n" + g.line() + "\n";
    for (auto& f : faults) o += "fault " + f.line() + "\n";
    for (auto& c : clients) {
        o += c.c.line() + "\n";
        for (auto& st : c.steps) o += "  step " + st.line() + "\n";
    }
    return o;
}
bool Scenario::parse(const std::string& t, Scenario& out) {
    out = Scenario{};
    size_t p = 0;
    while (p < t.size()) {
        size_t e = t.find('\n', p);
        if (e == std::string::npos) e = t.size();
        std::string l = t.substr(p, e - p);
        p = e + 1;
        size_t b = l.find_first_not_of(' ');
        if (b == std::string::npos || l[b] == '#') continue;
        l = l.substr(b);
        auto starts = [&](const char* k) { return l.compare(0, strlen(k), k) == 0; };
        if (starts("profile "))
            out.profile = l.substr(8);
        else if (starts("seed "))
            out.seed = strtoull(l.c_str() + 5, nullptr, 10);
        else if (starts("global"))
            Rec::parse(l, out.g);
        else if (starts("fault ")) {
            Rec r;
            if (!Rec::parse(l.substr(6), r)) return false;
            out.faults.push_back(r);
        } else if (starts("client")) {
            ClientScn c;
            Rec::parse(l, c.c);
            out.clients.push_back(c);
        } else if (starts("step ")) {
            Rec r;
            if (out.clients.empty() || !Rec::parse(l.substr(5), r)) return false;
            out.clients.back().steps.push_back(r);
        } else if (starts("violation") || starts("property") || starts("hash"))
            continue;
        else
            return false;
    }
    return !out.profile.empty();
}

void tracef(const char* fmt, ...) {
    if (!R || !R->trace_on) return;
    char b[1200];
    int n = snprintf(b, sizeof b, "%12.6f ", (double)K.now / 1e9);
    va_list ap;
    va_start(ap, fmt);
    n += vsnprintf(b + n, sizeof b - (size_t)n - 2, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2) n = (int)sizeof b - 2;
    b[n++] = '\n';
    if (R->trace_len + (u32)n < sizeof R->trace) {
        memcpy(R->trace + R->trace_len, b, (size_t)n);
        R->trace_len += (u32)n;
    }
}
void violation(const char* cls, const char* fmt, ...) {
    char b[1000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    for (char* p = b; *p; p++)
        if ((unsigned char)*p < 0x20 || (unsigned char)*p > 0x7e) *p = '?';
    tracef("VIOLATION %s: %s", cls, b);
    if (R->nviol >= 8) return;
    for (int i = 0; i < R->nviol; i++)
        if (!strcmp(R->viol[i].cls, cls)) return;  // one of each class is enough
    Violation& v = R->viol[R->nviol];
    snprintf(v.cls, sizeof v.cls, "%s", cls);
    snprintf(v.detail, sizeof v.detail, "%s", b);
    v.t = K.now;
    R->nviol++;
}
void ev_hash(const char* kind, u64 a, u64 b, u64 c) {
    u64 k = hstr(kind);
    R->hash = hkey(R->hash, k, (u64)K.now, a, b, c);
    R->shape = hkey(R->shape, k, a);
}
void finish_run() {
    R->sim_ns = K.now;
    R->finished = 1;
    _exit(0);
}
std::string hex(std::string_view s) {
    static const char* d = "0123456789abcdef";
    std::string o;
    for (unsigned char c : s) {
        o.push_back(d[c >> 4]);
        o.push_back(d[c & 15]);
    }
    return o;
}
std::string unhex(std::string_view s) {
    std::string o;
    for (size_t i = 0; i + 1 < s.size(); i += 2) o.push_back((char)strtol(std::string(s.substr(i, 2)).c_str(), nullptr, 16));
    return o;
}
}  // namespace sim
