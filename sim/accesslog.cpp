// The access log as a durable record: what is in the file at every instant a client learns
// of a response, and at the end.
#include <ctype.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#include "world.h"

namespace sim {
std::string log_path;
static bool enabled = false;
static std::string text;       // what has been read of the file so far
static size_t parsed = 0;      // complete lines looked at
static std::map<Req*, std::vector<size_t>> lines_of;
static std::vector<Req*> order;  // requests in the order of their lines
static u64 nlines = 0;
static std::string old;  // what an earlier life of the server left in the file
static int fd = -1;
struct When {
    i64 in = 0, out = 0, mono = 0;  // wall clock as the application was entered and left
    u64 jumps = 0;
};
static std::map<Req*, When> when;

void log_setup() {
    enabled = W.app && S->g.get("log");
    if (!enabled) return;
    mkdir(scratch().c_str(), 0755);
    log_path = scratch() + "/access.log";
    unlink(log_path.c_str());
    if (i64 n = S->g.get("oldlog")) {
        for (i64 k = 0; k < n; k++) old += "192.0.2.7 - - [17/Nov/2025:09:26:40 +0000] \"GET /old/" + std::to_string(k) + " HTTP/2\" 200 12 \"-\" \"curl/8\"\n";
        int f = open(log_path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (f < 0 || real_write(f, old.data(), old.size()) != (ssize_t)old.size()) old.clear();
        if (f >= 0) close(f);
    }
    FC.logpath = log_path;
    if (FC.root.empty()) FC.root = scratch() + "/simfs";
    FC.p_log = (int)S->g.get("p_log");
}
static bool hostile(const std::string& v) {
    for (unsigned char c : v)
        if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\') return true;
    return false;
}
static std::string show(const std::string& s) {
    std::string o;
    for (unsigned char c : s.substr(0, 300)) o.push_back(c < 0x20 || c >= 0x7f ? '?' : (char)c);
    return o;
}
// [dd/Mon/yyyy:hh:mm:ss +zzzz], as seconds since 1970; -1 if it is not a time
static i64 clf_time(const std::string& s) {
    struct tm tm {};
    char mon[4], sign, rest;
    int zone;
    if (sscanf(s.c_str(), "[%2d/%3[A-Za-z]/%4d:%2d:%2d:%2d %c%4d]%c", &tm.tm_mday, mon, &tm.tm_year, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &sign, &zone, &rest) != 8) return -1;
    static const char* const months = "JanFebMarAprMayJunJulAugSepOctNovDec";
    const char* m = strstr(months, mon);
    if (!m || (m - months) % 3) return -1;
    tm.tm_mon = (int)(m - months) / 3;
    tm.tm_year -= 1900;
    i64 off = (zone / 100) * 3600 + zone % 100 * 60;
    return (i64)timegm(&tm) - (sign == '-' ? -off : off);
}
static void judge(const std::string& l) {
    nlines++;
    probe(P_LOG_LINES);
    std::string s = show(l);
    for (unsigned char c : l)
        if (c < 0x20 || c == 0x7f) {
            violation("log_forged", "a log line contains the control character 0x%02x: %s", c, s.c_str());
            return;
        }
    // uid of the request
    std::set<std::string> uids;
    for (size_t p = 0; (p = l.find('q', p)) != std::string::npos; p++) {
        size_t e = p + 1;
        while (e < l.size() && isdigit((u8)l[e])) e++;
        if (e == p + 1 || e >= l.size() || l[e] != '-') continue;
        std::string u = l.substr(p, e + 9 - p);
        if (W.by_uid.count(u)) uids.insert(u);
    }
    if (W.have_fuzz && uids.empty()) return;
    if (uids.size() != 1) {
        violation("log_forged", "a log line names %zu requests: %s", uids.size(), s.c_str());
        return;
    }
    Req* r = W.by_uid[*uids.begin()];
    if (r->x == X_FUZZ) return;
    if (r->t_sent < 0 || (!r->handled && r->x != X_400)) {
        violation("log_early", "a log line for a request that was not handled: %s", s.c_str());
        return;
    }
    auto& mine = lines_of[r];
    mine.push_back(parsed);
    if (mine.size() > 1) {
        violation("log_dup", "request %s has %zu log lines", r->uid.c_str(), mine.size());
        return;
    }
    order.push_back(r);
    // structure
    std::vector<size_t> q;
    size_t bs = 0;
    for (size_t i = 0; i < l.size(); i++) {
        if (l[i] == '"' && bs % 2 == 0) q.push_back(i);
        bs = l[i] == '\\' ? bs + 1 : 0;
    }
    if (q.size() != 6) {
        violation("log_forged", "a log line has %zu quotes: %s", q.size(), s.c_str());
        return;
    }
    auto bad = [&](const char* what, const std::string& want) { violation("log_wrong", "%s is not '%s' in the log line of %s: %s", what, show(want).substr(0, 200).c_str(), r->uid.c_str(), s.c_str()); };
    std::string head = l.substr(0, q[0]), req = l.substr(q[0] + 1, q[1] - q[0] - 1), mid = l.substr(q[1] + 1, q[2] - q[1] - 1), ref = l.substr(q[2] + 1, q[3] - q[2] - 1),
                ua = l.substr(q[4] + 1, q[5] - q[4] - 1);
    std::string ip = ip_text(r->cl->c->ip);
    if (head.compare(0, ip.size() + 6, ip + " - - [") != 0) bad("the address", ip);
    if (head.size() < ip.size() + 8 || head.substr(head.size() - 2) != "] ") bad("the start of the line", ip + " - - [...] ");
    else if (auto w = when.find(r); w != when.end()) {
        i64 t = clf_time(head.substr(ip.size() + 5, head.size() - ip.size() - 6));
        const When& x = w->second;
        auto near = [&](i64 wall) { return t * SEC > wall - 4 * SEC && t * SEC < wall + 3 * SEC; };
        if (t < 0)
            bad("the time", "[dd/Mon/yyyy:hh:mm:ss +zzzz]");
        else if (!near(x.in) && !near(x.out) && !(R->faults[F_CLOCK_JUMP] > x.jumps && near(x.mono + K.wall_off)) && R->faults[F_CLOCK_JUMP] < x.jumps + 2)
            violation("log_wrong", "the time in the log line of %s is %lld s away from when it was handled: %s", r->uid.c_str(), (long long)(t - x.out / SEC), s.c_str());
    }
    int st = r->x == X_400 ? 400 : r->resp_status;
    size_t size = r->x == X_400 ? 0 : r->resp_size;
    if (!static_404_arg.empty() && st == 404)
        ;  // judged at the end, against what the client received
    else if (mid != " " + std::to_string(st) + " " + std::to_string(size) + " ")
        bad("status and size", std::to_string(st) + " " + std::to_string(size));
    std::string m = "-", p = "-", wref = "-", wua = "-";
    for (auto& [n, v] : r->hdrs) {
        if (n == ":method") m = v;
        if (n == ":path") p = v;
        if (n == "referer") wref = v;
        if (n == "user-agent") wua = v;
    }
    bool weird = false;
    if (!hostile(m) && !hostile(p)) {
        if (req != m + " " + p + " HTTP/2") bad("the request", m + " " + p + " HTTP/2");
    } else
        weird = true;
    if (!hostile(wref)) {
        if (ref != wref) bad("the referrer", wref);
    } else
        weird = true;
    if (!hostile(wua)) {
        if (ua != wua) bad("the user agent", wua);
    } else
        weird = true;
    if (q[5] + 1 != l.size()) bad("the end of the line", "\"");
    if (weird) probe(P_LOG_WEIRD);
}
static void read_more() {
    if (!enabled) return;
    if (fd < 0) fd = open(log_path.c_str(), O_RDONLY);
    if (fd < 0) return;
    char b[65536];
    ssize_t n;
    while ((n = real_read(fd, b, sizeof b)) > 0) text.append(b, (size_t)n);
    if (parsed < old.size()) {
        if (text.compare(0, old.size(), old) != 0) {
            violation("log_missing", "what the log held before the server was started again is no longer in it");
            old.clear();
        }
        parsed = old.size();
    }
    size_t e;
    while ((e = text.find('\n', parsed)) != std::string::npos) {
        std::string l = text.substr(parsed, e - parsed);
        judge(l);
        parsed = e + 1;
    }
}
void log_entry(Req* r) {
    if (!enabled) return;
    when[r] = When{K.now + K.wall_off, K.now + K.wall_off, K.now, R->faults[F_CLOCK_JUMP]};
}
void log_exit(Req* r) {
    if (!enabled) return;
    When& w = when[r];
    w.out = K.now + K.wall_off;
    w.mono = K.now;
}
void log_head(Req* r) {
    if (!enabled || r->x == X_FUZZ || r->x == X_POISON) return;
    read_more();
    if (!lines_of.count(r) && !R->faults[F_LOG_FAIL])
        violation("log_late", "%s sees the response to %s before its log line is in the file", r->cl->name().c_str(), r->uid.c_str());
}
// The frames the server hands to the network, where they can be read: a response's HEADERS
// must not be among them before its line is in the file.
static std::map<Conn*, std::string> sent;
static std::map<Conn*, size_t> skip;
void log_write(Conn* c, std::string_view b) {
    if (!enabled) return;
    Client* cl = static_cast<Client*>(c->peer);
    if (cl->role != WB || cl->ssl) return;
    std::string& h = sent[c];
    size_t& left = skip[c];
    while (!b.empty()) {
        if (left) {
            size_t n = std::min(left, b.size());
            left -= n;
            b.remove_prefix(n);
            continue;
        }
        h.push_back(b[0]);
        b.remove_prefix(1);
        if (h.size() < 9) continue;
        left = (size_t)(u8)h[0] << 16 | (size_t)(u8)h[1] << 8 | (u8)h[2];
        u32 sid = ((u32)(u8)h[5] << 24 | (u32)(u8)h[6] << 16 | (u32)(u8)h[7] << 8 | (u8)h[8]) & 0x7fffffff;
        if (h[3] == 1)
            for (auto* r : cl->reqs)
                if (r->stream == sid && r->x != X_FUZZ && r->x != X_POISON) {
                    read_more();
                    if (!lines_of.count(r) && !R->faults[F_LOG_FAIL])
                        violation("log_late", "the response to %s is given to the network before its log line is in the file", r->uid.c_str());
                }
        h.clear();
    }
}
void log_done() {
    if (!enabled) return;
    read_more();
    if (parsed != text.size()) violation("log_forged", "the log ends in an incomplete line: %s", show(text.substr(parsed)).c_str());
    u64 missing = 0;
    Req* first = nullptr;
    u64 last = 0;
    Req* prev = nullptr;
    std::map<Client*, u32> last_stream;
    for (auto* r : order) {
        if (r->handled) {
            if (r->seq < last) violation("log_order", "the line of %s comes after that of %s, which was handled later", r->uid.c_str(), prev->uid.c_str());
            last = r->seq;
            prev = r;
        }
        u32& ls = last_stream[r->cl];
        if (r->stream < ls) violation("log_order", "the line of %s is out of order on its connection", r->uid.c_str());
        ls = r->stream;
        if (r->got == 2 && r->gst == 404 && !static_404_arg.empty()) {
            size_t p = lines_of[r][0], e = text.find('\n', p);
            std::string l = text.substr(p, e - p);
            if (l.find("\" 404 " + std::to_string(r->gbody) + " \"") == std::string::npos) violation("log_wrong", "status and size are not '404 %zu': %s", r->gbody, show(l).c_str());
        }
    }
    for (auto& up : W.reqs) {
        Req* r = up.get();
        if (r->x == X_FUZZ || r->x == X_POISON || r->got == 0) continue;
        if (!lines_of.count(r)) {
            missing++;
            if (!first) first = r;
        }
    }
    if (missing > R->faults[F_LOG_FAIL])
        violation("log_missing", "%llu answered requests have no log line (%llu log writes failed), the first is %s", (unsigned long long)missing,
                  (unsigned long long)R->faults[F_LOG_FAIL], first->uid.c_str());
    if (fd >= 0) close(fd);
    unlink(log_path.c_str());
}
}  // namespace sim
