// Static files: a layout under a scratch directory, changes to it at chosen points inside
// the handling of a request, and what the responses may contain.
//
// Scenario records (faults):
//   file   n=<size> c=<content seed> out=<0|1> s-name="fs path"      regular file
//   dir    name="..."           link name="..." to="..." (@ = scratch root)
//   root   path="..." rel=<0|1> url="/static"      how the served directory is written
//   nf     name="..."                              custom 404 page
//   mut    rq=<request id> k=<n-th file operation> op=<0 truncate 1 append 2 replace 3 unlink> n=<size> name="..."
//   relink rq=<request id> name="..." to="..."
//   fsfault p_open p_read p_short p_stat p_eintr
#include <dirent.h>
#include <fcntl.h>
#include <limits.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>

#include "world.h"

namespace sim {
std::string static_root_arg, static_404_arg;
static std::string fs;      // scratch/fs
static std::string rootdir; // real location of the served directory
struct Ver {
    i64 t;
    bool exists;
    std::string data;
    size_t hole = 0;  // its size, if it is not kept in memory
    size_t size() const { return hole ? hole : data.size(); }
};
static std::map<std::string, std::vector<Ver>> hist;  // by name below fs
static std::map<std::string, std::string> canary;     // token -> name
static std::map<size_t, std::string> out_sizes;
static std::set<size_t> in_sizes;
static Req* cur = nullptr;
static u64 cur_ops = 0;
static u64 fault_mark = 0;
static std::map<Req*, std::pair<u64, u64>> fault_span;  // injected file faults before / after handling
static std::string nf_name;
static bool any_static = false;

static u64 file_faults() { return R->faults[F_FILE_OPEN] + R->faults[F_FILE_READ] + R->faults[F_FILE_STAT] + R->faults[F_FILE_MUTATE]; }

static std::string token(u64 seed) {
    char b[40];
    snprintf(b, sizeof b, "CANARY%016llx", (unsigned long long)hkey(seed, 0xca9a));
    return b;
}
static std::string content(u64 seed, size_t n, bool outside) {
    std::string o;
    o.reserve(n + 32);
    if (outside) {
        std::string t = token(seed);
        while (o.size() < n) o += t;
    } else {
        u64 k = hkey(seed, 0xf11ed);
        for (size_t i = 0; o.size() < n; i++) {
            u64 w = mix64(k + i);
            o.append((const char*)&w, 8);
        }
    }
    o.resize(n);
    return o;
}
static void put(const std::string& p, const std::string& d, int flags) {
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | flags, 0644);
    if (fd < 0) return;
    size_t off = 0;
    while (off < d.size()) {
        ssize_t n = real_write(fd, d.data() + off, d.size() - off);
        if (n <= 0) break;
        off += (size_t)n;
    }
    close(fd);
}
static void parents(const std::string& p) {
    for (size_t i = fs.size() + 1; (i = p.find('/', i)) != std::string::npos; i++) mkdir(p.substr(0, i).c_str(), 0755);
}
static void wipe(const std::string& d) {
    // only ever called on a directory this harness created below its scratch directory
    if (d.find("/simfs") == std::string::npos) return;
    DIR* h = opendir(d.c_str());
    if (!h) return;
    std::vector<std::string> names;
    while (dirent* e = readdir(h))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names.push_back(e->d_name);
    closedir(h);
    for (auto& n : names) {
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
            wipe(p);
            rmdir(p.c_str());
        } else
            unlink(p.c_str());
    }
}
static std::string expand(std::string t) {
    size_t p;
    while ((p = t.find('@')) != std::string::npos) t.replace(p, 1, fs);
    return t;
}
static void make_link(const std::string& name, const std::string& to) {
    std::string p = fs + "/" + name, t = p + ".tmp-link";
    parents(p);
    unlink(t.c_str());
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {  // a link takes the place of a directory
        if (rename(p.c_str(), (p + ".old").c_str()) != 0) return;
        for (auto it = hist.begin(); it != hist.end();)
            if (it->first.compare(0, name.size() + 1, name + "/") == 0) it = hist.erase(it);
            else ++it;
    }
    if (symlink(expand(to).c_str(), t.c_str()) == 0) {
        if (rename(t.c_str(), p.c_str()) != 0) unlink(t.c_str());
    }
}
static void mutate(const Rec& f) {
    std::string name = f.str("name"), p = fs + "/" + name;
    auto& h = hist[name];
    if (h.empty() || !h.back().exists) return;
    Ver v{K.now, true, h.back().data};
    size_t n = (size_t)f.get("n");
    switch (f.get("op")) {
        case 0:
            v.data.resize(std::min(v.data.size(), n));
            if (truncate(p.c_str(), (off_t)v.data.size()) != 0) return;
            break;
        case 1: {
            std::string more = content((u64)f.get("rq") * 77 + 5, n, false);
            v.data += more;
            put(p, more, O_APPEND);
            break;
        }
        case 2: {
            v.data = content((u64)f.get("rq") * 91 + 3, n, false);
            std::string t = p + ".new";
            put(t, v.data, O_TRUNC);
            if (rename(t.c_str(), p.c_str()) != 0) return;
            break;
        }
        default:
            v.exists = false;
            v.data.clear();
            unlink(p.c_str());
    }
    h.push_back(v);
    fault(F_FILE_MUTATE);
    ev_hash("mutate", (u64)f.get("op"), n);
    tracef("the file %s changes (op %lld, now %zu bytes)", name.c_str(), (long long)f.get("op"), v.data.size());
}
void static_setup() {
    fs = scratch() + "/simfs";
    bool any = false;
    for (auto& f : S->faults)
        if (f.kind == "root" || f.kind == "nf" || f.kind == "file") any = true;
    if (!any) return;
    any_static = true;
    mkdir(scratch().c_str(), 0755);
    mkdir(fs.c_str(), 0755);
    char rp[PATH_MAX];
    if (realpath(fs.c_str(), rp)) fs = rp;
    wipe(fs);
    for (auto& f : S->faults) {
        std::string name = f.str("name"), p = fs + "/" + name;
        if (f.kind == "dir") {
            parents(p);
            mkdir(p.c_str(), 0755);
        } else if (f.kind == "file") {
            parents(p);
            if (f.get("hole")) {  // all zeros, of which the disk keeps none
                put(p, "", O_TRUNC);
                if (truncate(p.c_str(), (off_t)f.get("n")) != 0) continue;
                hist[name].push_back({-1, true, "", (size_t)f.get("n")});
                in_sizes.insert((size_t)f.get("n"));
                continue;
            }
            std::string d = content((u64)f.get("c"), (size_t)f.get("n"), f.get("out"));
            put(p, d, O_TRUNC);
            hist[name].push_back({-1, true, d});
            if (f.get("out")) {
                canary[token((u64)f.get("c"))] = name;
                out_sizes[d.size()] = name;
            } else
                in_sizes.insert(d.size());
        } else if (f.kind == "link")
            make_link(name, f.str("to"));
    }
    for (auto& f : S->faults) {
        if (f.kind == "root") {
            if (chdir(fs.c_str()) != 0) {
            }
            static_root_arg = f.get("rel") ? f.str("path") : fs + "/" + f.str("path");
            if (realpath(static_root_arg.c_str(), rp)) rootdir = rp;
        } else if (f.kind == "nf") {
            nf_name = f.str("name");
            static_404_arg = fs + "/" + nf_name;
        } else if (f.kind == "fsfault") {
            FC.p_open = (int)f.get("p_open");
            FC.p_read = (int)f.get("p_read");
            FC.p_short = (int)f.get("p_short");
            FC.p_stat = (int)f.get("p_stat");
            FC.p_eintr = (int)f.get("p_eintr");
        }
    }
    FC.root = fs;
    FC.stroot = rootdir;
}
std::string static_dir(const std::string& name) { return fs + "/" + name; }
void static_faults() {
    if (!any_static) return;
    FC.on_file_op = [](const char* op, const std::string& path) {
        ev_hash("fop", hstr(op), cur_ops);
        tracef("%s(%s)", op, path.c_str());
        if (!cur) return;
        cur_ops++;
        for (auto& f : S->faults)
            if (f.kind == "mut" && f.get("rq") == cur->id && f.get("k") == (i64)cur_ops) mutate(f);
    };
}
void static_entry(Req* r) {
    if (!any_static) return;
    cur = r;
    cur_ops = 0;
    fault_mark = file_faults();
    fault_span[r] = {fault_mark, fault_mark};
    for (auto& f : S->faults)
        if (f.kind == "relink" && f.get("rq") == r->id) {
            make_link(f.str("name"), f.str("to"));
            fault(F_SYMLINK);
            tracef("the link %s now points to %s", f.str("name").c_str(), f.str("to").c_str());
        }
}
void static_exit(Req* r) {
    if (!any_static || cur != r) return;
    // the custom 404 page is read after the recorder has returned: keep counting for it
}
void static_head(Req* r) {
    // the handling of the request is over when its response is seen
    if (!any_static) return;
    auto it = fault_span.find(r);
    if (it != fault_span.end()) it->second.second = file_faults();
    if (cur == r) cur = nullptr;
}
static const char* mime_of(const std::string& name) {
    static const std::map<std::string, const char*> m = {
        {"html", "text/html; charset=utf-8"}, {"htm", "text/html; charset=utf-8"}, {"css", "text/css; charset=utf-8"}, {"js", "application/javascript; charset=utf-8"},
        {"json", "application/json"}, {"xml", "application/xml"}, {"png", "image/png"}, {"jpg", "image/jpeg"}, {"jpeg", "image/jpeg"}, {"gif", "image/gif"},
        {"svg", "image/svg+xml"}, {"ico", "image/x-icon"}, {"txt", "text/plain; charset=utf-8"}, {"pdf", "application/pdf"}, {"zip", "application/zip"},
        {"woff", "font/woff"}, {"woff2", "font/woff2"}, {"ttf", "font/ttf"}, {"webp", "image/webp"}};
    std::string leaf = name.substr(name.find_last_of('/') + 1);
    size_t p = leaf.find_last_of('.');
    if (p == std::string::npos) return "application/octet-stream";
    auto it = m.find(leaf.substr(p + 1));
    if (it != m.end()) return it->second;
    // a type nobody has told the server: bytes; other spellings of a known one may be either
    for (char c : leaf.substr(p + 1))
        if (c >= 'A' && c <= 'Z') return nullptr;
    return "application/octet-stream";
}
static bool same_media(const std::string& got, const std::string& want) {
    auto base = [](const std::string& s) { return s.substr(0, s.find(';')); };
    return base(got) == base(want);
}
static std::string header(Req* r, const char* n, int* count = nullptr) {
    std::string v;
    for (auto& h : r->ghdrs)
        if (h.first == n) {
            v = h.second;
            if (count) ++*count;
        }
    return v;
}
// versions of a file that were current at some moment of [from, to]
static std::vector<const Ver*> window(const std::string& name, i64 from, i64 to) {
    std::vector<const Ver*> o;
    auto it = hist.find(name);
    if (it == hist.end()) return o;
    auto& h = it->second;
    for (size_t i = 0; i < h.size(); i++) {
        i64 end = i + 1 < h.size() ? h[i + 1].t : INT64_MAX;
        if (h[i].t <= to && end >= from) o.push_back(&h[i]);
    }
    return o;
}
void static_check(Req* r) {
    if (!any_static) return;
    if (cur == r) cur = nullptr;
    bool head = r->method == "HEAD";
    const std::string& b = r->gbytes;
    std::string who = r->cl->name() + ": " + r->method + " " + r->path.substr(0, 120);
    if (r->gst >= 200 && r->gst < 300) probe(P_STATIC_200);
    else probe(P_STATIC_ERR);
    if (head) probe(P_STATIC_HEAD);
    int ncl = 0;
    std::string cl = header(r, "content-length", &ncl);
    // nothing from outside, whatever was asked
    if (r->step->get("esc")) probe(P_STATIC_ESCAPE_TRY);
    size_t at = b.find("CANARY");
    if (at != std::string::npos) {
        auto it = canary.find(b.substr(at, 22));
        if (it != canary.end()) violation("static_escape", "%s returned the content of %s, which is outside the served directory", who.c_str(), it->second.c_str());
    } else if (b.size() >= 4) {  // a part of the token
        for (auto& [t, n] : canary)
            if (t.find(b.substr(0, std::min<size_t>(b.size(), 22))) != std::string::npos && b.size() >= 8) violation("static_escape", "%s returned a part of %s, which is outside the served directory", who.c_str(), n.c_str());
    }
    if (!cl.empty()) {
        size_t n = strtoull(cl.c_str(), nullptr, 10);
        auto it = out_sizes.find(n);
        if (it != out_sizes.end() && !in_sizes.count(n)) violation("static_escape", "%s revealed the size of %s, which is outside the served directory", who.c_str(), it->second.c_str());
    }
    if (ncl > 1) violation("static_length", "%s has %d content-length headers", who.c_str(), ncl);
    if (head && !b.empty()) violation("static_head_body", "%s: a response to HEAD carries %zu body bytes", who.c_str(), b.size());
    if (!head && !cl.empty() && cl != std::to_string(b.size())) violation("static_length", "%s: content-length %s, %zu bytes of body", who.c_str(), cl.c_str(), b.size());
    std::string file = r->step->str("file");
    auto span = fault_span[r];
    bool clean = span.first == span.second;
    i64 from = r->t_sent, to = r->t_first;
    if (r->gst == 404 && !nf_name.empty()) {
        bool ok = b.empty();
        auto vs = window(nf_name, from, to);
        for (auto* v : vs)
            if (v->exists && v->data == b) ok = true;
        if (!ok) violation("static_content", "%s: the 404 page has %zu bytes that the file never held", who.c_str(), b.size());
        if (ok && clean && !head && b.empty() && vs.size() == 1 && vs[0]->exists && !vs[0]->data.empty())
            violation("static_refused", "%s: the custom 404 page was not sent although its file is healthy", who.c_str());
        if (!b.empty())
            if (const char* m = mime_of(nf_name))
                if (!same_media(header(r, "content-type"), m)) violation("static_type", "%s: the 404 page has content type '%s'", who.c_str(), header(r, "content-type").c_str());
    }
    if (file.empty() || !hist.count(file)) return;
    auto vs = window(file, from, to);
    if (r->gst == 200) {
        bool ok = false;
        for (auto* v : vs) {
            if (!v->exists) continue;
            if (head ? cl == std::to_string(v->size()) : !v->hole && b == v->data) ok = true;
        }
        if (!ok)
            violation(head ? "static_length" : "static_content", "%s: 200 with %s, which %s never had while the request was handled (%zu version(s), first of %zu bytes)", who.c_str(),
                      head ? ("content-length " + cl).c_str() : (std::to_string(b.size()) + " bytes").c_str(), file.c_str(), vs.size(), vs.empty() ? 0 : vs[0]->size());
        if (const char* m = mime_of(file))
            if (!same_media(header(r, "content-type"), m)) violation("static_type", "%s: content type '%s' for %s", who.c_str(), header(r, "content-type").c_str(), file.c_str());
    } else if (r->gst < 400)
        violation("static_status", "%s: status %d", who.c_str(), r->gst);
    else if (clean && vs.size() == 1 && vs[0]->exists)
        violation("static_refused", "%s: status %d although %s is healthy and nothing failed", who.c_str(), r->gst, file.c_str());
}
void static_done() {
    if (!any_static) return;
    if (size_t n = files_open()) violation("file_leak", "%zu descriptor(s) of served files are still open at the end", n);
    FC.root.clear();
    if (chdir("/") != 0) {
    }
    wipe(fs);
    rmdir(fs.c_str());
}
}  // namespace sim
