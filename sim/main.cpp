// Runs scenarios, each in its own process forked from a prepared parent.
//   sim batch  --profile P --from N --count K --seconds S --out FILE   seeds N.. ; a summary per process
//   sim run    --profile P --seed N [--trace]
//   sim replay FILE [--trace]
//   sim gen    --profile P --seed N
//   sim min    FILE --class C --out FILE --seconds S
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <unordered_set>

#include "world.h"

using namespace sim;

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=1:allocator_may_return_null=0:detect_stack_use_after_return=0:quarantine_size_mb=16:malloc_context_size=6:symbolize=1:print_legend=0:strict_init_order=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=77"; }

static double wall() {
    struct timespec t;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + (double)t.tv_nsec / 1e9;
}
static std::string slurp(const std::string& p) {
    std::string o;
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0) return o;
    char b[65536];
    ssize_t n;
    while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) o.append(b, (size_t)n);
    close(fd);
    return o;
}
static void spit(const std::string& p, const std::string& d) {
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    size_t off = 0;
    while (off < d.size()) {
        ssize_t n = syscall(SYS_write, fd, d.data() + off, d.size() - off);
        if (n <= 0) break;
        off += (size_t)n;
    }
    close(fd);
}
static std::string errfile() { return scratch() + "/stderr"; }

static int cpu_base = 20, cpu_limit = 20;
// what computing a run may take: more when very large bodies are asked for
static int cpu_of(const Scenario& s) {
    i64 large = 0;
    for (const ClientScn& c : s.clients)
        for (const Rec& r : c.steps)
            if (r.get("bl") > 4000000) large += r.get("bl");
    return cpu_base + (int)std::min<i64>(large / 200000, 200);
}
static volatile sig_atomic_t stop_asked = 0;
// one run, in a child; the result stays in shared memory
static void execute(const Scenario& s, bool trace) {
    memset(R, 0, offsetof(Result, trace));
    R->trace_len = 0;
    R->trace_on = trace;
    R->hash = 0x1234;
    cpu_limit = cpu_of(s);
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        signal(SIGTERM, SIG_DFL);
        int e = open(errfile().c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
        dup2(e, 2);
        const char* so = getenv("SIM_STDOUT");  // to look at the server's own log
        int n = open(so ? so : "/dev/null", O_WRONLY | (so ? O_CREAT | O_APPEND : 0), 0644);
        dup2(n, 1);
        // nobody is there to answer a question
        setsid();
        int in = open("/dev/null", O_RDONLY);
        dup2(in, 0);
        close(in);
        close(e);
        close(n);
        struct rlimit rl = {(rlim_t)cpu_limit, (rlim_t)cpu_limit + 2};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        static Scenario mine;
        mine = s;
        S = &mine;
        run_world();
        _exit(3);
    }
    int st = 0;
    double dead = wall() + cpu_limit * 6;
    bool killed = false;
    while (true) {
        pid_t w = waitpid(pid, &st, killed ? 0 : WNOHANG);
        if (w == pid) break;
        if (wall() > dead) {
            kill(pid, SIGKILL);
            killed = true;
            continue;
        }
        static int spins = 0;
        struct timespec ts = {0, spins++ < 20 ? 50000 : 200000};
        syscall(SYS_nanosleep, &ts, nullptr);
    }
    if (R->finished) return;
    auto add = [&](const char* cls, const std::string& d) {
        // a crash outranks what was seen before it
        int at = R->nviol < 8 ? R->nviol++ : 7;
        snprintf(R->viol[at].cls, sizeof R->viol[at].cls, "%s", cls);
        snprintf(R->viol[at].detail, sizeof R->viol[at].detail, "%s", d.c_str());
        for (char* p = R->viol[at].detail; *p; p++)
            if ((unsigned char)*p < 0x20 || (unsigned char)*p > 0x7e) *p = ' ';
    };
    std::string err = slurp(errfile());
    auto pick = [&]() -> std::string {
        for (const char* k : {"ERROR: AddressSanitizer", "runtime error:", "terminate called", "Assertion", "glibcxx"}) {
            size_t p = err.find(k);
            if (p == std::string::npos) continue;
            size_t b = err.rfind('\n', p);
            b = b == std::string::npos ? 0 : b + 1;
            std::string o = err.substr(b, 300);
            // frames of the server's own sources
            size_t q = p, n = 0;
            while ((q = err.find("/repo/", q)) != std::string::npos && n < 4) {
                size_t e = err.find_first_of("\n)", q);
                o += " | " + err.substr(q, e - q);
                q = e == std::string::npos ? err.size() : e;
                n++;
            }
            return o;
        }
        return err.substr(0, 200);
    };
    if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGXCPU))
        add("hang", "the server computes without end (killed after " + std::to_string(cpu_limit) + " s of processor time)");
    else if (WIFSIGNALED(st))
        add("crash", "the server died of signal " + std::to_string(WTERMSIG(st)) + ": " + pick());
    else if (WEXITSTATUS(st) == 77)
        add("crash", pick());
    else
        add("crash", "the process exited with status " + std::to_string(WEXITSTATUS(st)) + " in the middle of the run: " + pick());
}
static const Violation* counted(const std::string& profile) {
    for (int i = 0; i < R->nviol; i++)
        if (counts(profile, R->viol[i].cls)) return &R->viol[i];
    return nullptr;
}
static std::string arg(int argc, char** argv, const char* k, const char* d = "") {
    for (int i = 1; i + 1 < argc; i++)
        if (!strcmp(argv[i], k)) return argv[i + 1];
    return d;
}
static bool flag(int argc, char** argv, const char* k) {
    for (int i = 1; i < argc; i++)
        if (!strcmp(argv[i], k)) return true;
    return false;
}
static void report() {
    printf("hash %016llx shape %016llx events %llu syscalls %llu sim %.3fs requests %llu responses %llu violations %d\n", (unsigned long long)R->hash,
           (unsigned long long)R->shape, (unsigned long long)R->events, (unsigned long long)R->syscalls, (double)R->sim_ns / 1e9, (unsigned long long)R->requests,
           (unsigned long long)R->responses, R->nviol);
    for (int i = 0; i < R->nviol; i++) printf("violation %s at %.6f: %s\n", R->viol[i].cls, (double)R->viol[i].t / 1e9, R->viol[i].detail);
}
static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c < 0x20 || c > 0x7e) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += (char)c;
    }
    return o + "\"";
}

// ---------------------------------------------------------------- minimisation
struct Minimiser {
    std::string cls;
    double until;
    Scenario best;
    u64 tries = 0;
    bool fails(const Scenario& s) {
        if (wall() > until) return false;
        tries++;
        execute(s, false);
        for (int i = 0; i < R->nviol; i++)
            if (cls == R->viol[i].cls) return true;
        return false;
    }
    bool attempt(const Scenario& s) {
        if (fails(s)) {
            best = s;
            return true;
        }
        return false;
    }
    template <class Get>
    bool drop_from(Get get) {  // remove chunks of a list, large ones first
        bool any = false;
        size_t n = get(best).size();
        for (size_t chunk = std::max<size_t>(1, n / 2);; chunk /= 2) {
            for (size_t i = 0; i < get(best).size() && wall() < until;) {
                Scenario s = best;
                auto& v = get(s);
                size_t e = std::min(v.size(), i + chunk);
                v.erase(v.begin() + (long)i, v.begin() + (long)e);
                if (attempt(s))
                    any = true;
                else
                    i += chunk;
            }
            if (chunk <= 1) break;
        }
        return any;
    }
    bool ints(std::function<Rec&(Scenario&)> get, bool global) {
        bool any = false;
        std::vector<std::string> keys;
        for (auto& [k, v] : get(best).i) keys.push_back(k);
        for (auto& k : keys) {
            static const std::set<std::string> fixed = {"id", "calm", "tls", "app", "role", "iws", "wu", "x", "c", "out", "rq"};
            if (fixed.count(k)) continue;
            i64 v = get(best).get(k);
            std::vector<i64> to;
            if (v != 0) to.push_back(0);
            if (v > 1) to.push_back(1);
            if (v > 3) to.push_back(v / 2);
            if (global && k == "cost") to = {2};
            Scenario er = best;
            get(er).i.erase(k);
            if (attempt(er)) {
                any = true;
                continue;
            }
            for (i64 t : to) {
                if (t == v || wall() > until) continue;
                Scenario s = best;
                get(s).i[k] = t;
                if (attempt(s)) {
                    any = true;
                    break;
                }
            }
        }
        return any;
    }
    void run() {
        for (int round = 0; round < 6 && wall() < until; round++) {
            bool any = false;
            any |= drop_from([](Scenario& s) -> std::vector<ClientScn>& { return s.clients; });
            any |= drop_from([](Scenario& s) -> std::vector<Rec>& { return s.faults; });
            for (size_t c = 0; c < best.clients.size() && wall() < until; c++) any |= drop_from([c](Scenario& s) -> std::vector<Rec>& { return s.clients[c].steps; });
            any |= ints([](Scenario& s) -> Rec& { return s.g; }, true);
            for (size_t f = 0; f < best.faults.size(); f++) any |= ints([f](Scenario& s) -> Rec& { return s.faults[f]; }, false);
            for (size_t c = 0; c < best.clients.size() && wall() < until; c++) {
                any |= ints([c](Scenario& s) -> Rec& { return s.clients[c].c; }, false);
                for (size_t k = 0; k < best.clients[c].steps.size() && wall() < until; k++) any |= ints([c, k](Scenario& s) -> Rec& { return s.clients[c].steps[k]; }, false);
            }
            if (!any) break;
        }
    }
};

int main(int argc, char** argv) {
    // addresses must not differ between runs
    if (!getenv("SIM_FIXED")) {
        setenv("SIM_FIXED", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    if (argc < 2) return 2;
    R = (Result*)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    mkdir(scratch().c_str(), 0755);
    if (const char* c = getenv("SIM_CPU")) cpu_base = atoi(c);
    std::string mode = argv[1];
    std::string profile = arg(argc, argv, "--profile", "C01");
    if (mode == "gen") {
        printf("%s", generate(profile, strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10)).text().c_str());
        return 0;
    }
    warm_up();
    if (mode == "run" || mode == "replay") {
        Scenario s;
        if (mode == "run")
            s = generate(profile, strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10));
        else if (!Scenario::parse(slurp(argv[2]), s)) {
            fprintf(stderr, "cannot parse %s\n", argv[2]);
            return 2;
        }
        bool tr = flag(argc, argv, "--trace");
        double t = wall();
        execute(s, tr);
        t = wall() - t;
        if (tr) fwrite(R->trace, 1, R->trace_len, stdout);
        report();
        printf("wall %.1f ms\n", t * 1e3);
        if (flag(argc, argv, "--stderr")) printf("%s\n", slurp(errfile()).c_str());
        return counted(s.profile) ? 1 : 0;
    }
    if (mode == "min") {
        Scenario s;
        if (!Scenario::parse(slurp(argv[2]), s)) return 2;
        Minimiser m;
        m.cls = arg(argc, argv, "--class");
        m.until = wall() + atof(arg(argc, argv, "--seconds", "20").c_str());
        m.best = s;
        if (!m.fails(s)) {
            printf("does not fail\n");
            return 3;
        }
        m.run();
        execute(m.best, true);
        std::string out = "# minimised replay (" + std::to_string(m.tries) + " simulated runs)\n" + m.best.text();
        for (int i = 0; i < R->nviol; i++) out += std::string("violation ") + R->viol[i].cls + " " + R->viol[i].detail + "\n";
        char h[64];
        snprintf(h, sizeof h, "hash %016llx\n", (unsigned long long)R->hash);
        out += h;
        out += "# schedule and fault trace of this execution:\n";
        std::string tr(R->trace, R->trace_len), line;
        size_t p = 0, n = 0;
        while (p < tr.size() && n < 4000) {
            size_t e = tr.find('\n', p);
            if (e == std::string::npos) break;
            out += "#  " + tr.substr(p, e - p + 1);
            p = e + 1;
            n++;
        }
        spit(arg(argc, argv, "--out"), out);
        printf("minimised in %llu runs\n", (unsigned long long)m.tries);
        return 0;
    }
    if (mode == "batch") {
        u64 from = strtoull(arg(argc, argv, "--from", "1").c_str(), nullptr, 10), stride = strtoull(arg(argc, argv, "--stride", "1").c_str(), nullptr, 10),
            count = strtoull(arg(argc, argv, "--count", "100").c_str(), nullptr, 10);
        double secs = atof(arg(argc, argv, "--seconds", "1e9").c_str());
        std::string out = arg(argc, argv, "--out");
        std::string ignore = arg(argc, argv, "--ignore");  // known findings: class@substring, separated by newlines
        u64 stop_after = strtoull(arg(argc, argv, "--stop-after", "1").c_str(), nullptr, 10);
        u64 recheck = strtoull(arg(argc, argv, "--recheck", "0").c_str(), nullptr, 10);
        bool hashes = flag(argc, argv, "--hashes");
        {
            struct sigaction sa = {};
            sa.sa_handler = [](int) { stop_asked = 1; };
            sa.sa_flags = SA_RESTART;
            sigaction(SIGTERM, &sa, nullptr);
        }
        double t0 = wall();
        u64 runs = 0, nontrivial = 0, faults[F_NKINDS] = {}, fruns[F_NKINDS] = {}, probes[P_N] = {}, events = 0, sysc = 0, req = 0, resp = 0, rechecked = 0, mismatched = 0;
        double simt = 0;
        std::unordered_set<u64> shapes;
        std::vector<u64> shapev;
        std::string viol, other, known, hl;
        u64 nviol = 0, nknown = 0;
        std::map<std::string, u64> others;
        for (u64 k = 0; k < count && wall() - t0 < secs && nviol < stop_after && !stop_asked; k++) {
            u64 seed = from + k * stride;
            Scenario s = generate(profile, seed);
            execute(s, false);
            runs++;
            u64 nf = 0;
            for (int i = 0; i < F_NKINDS; i++) {
                faults[i] += R->faults[i];
                nf += R->faults[i];
                if (R->faults[i]) fruns[i]++;
            }
            for (int i = 0; i < P_N; i++) probes[i] += R->probes[i];
            events += R->events;
            sysc += R->syscalls;
            req += R->requests;
            resp += R->responses;
            simt += (double)R->sim_ns / 1e9;
            bool fresh = shapes.insert(R->shape).second;
            if (fresh && nf > 0 && R->events >= 10) nontrivial++;
            if (hashes) {
                char b[64];
                snprintf(b, sizeof b, "%llu %016llx\n", (unsigned long long)seed, (unsigned long long)R->hash);
                hl += b;
            }
            for (int i = 0; i < R->nviol; i++) {
                const Violation& v = R->viol[i];
                if (!counts(profile, v.cls)) {
                    if (others[v.cls]++ == 0) other += (other.empty() ? "" : ",") + std::string("{\"seed\":") + std::to_string(seed) + ",\"class\":" + jstr(v.cls) + ",\"detail\":" + jstr(v.detail) + "}";
                    continue;
                }
                bool is_known = false;
                size_t p = 0;
                while (p < ignore.size()) {
                    size_t e = ignore.find('\n', p);
                    if (e == std::string::npos) e = ignore.size();
                    std::string l = ignore.substr(p, e - p);
                    p = e + 1;
                    size_t a = l.find('@');
                    if (a == std::string::npos) continue;
                    if (l.substr(0, a) == v.cls && std::string(v.detail).find(l.substr(a + 1)) != std::string::npos) is_known = true;
                }
                if (is_known) {
                    nknown++;
                    continue;
                }
                nviol++;
                viol += (viol.empty() ? "" : ",") + std::string("{\"seed\":") + std::to_string(seed) + ",\"class\":" + jstr(v.cls) + ",\"detail\":" + jstr(v.detail) + "}";
                break;
            }
            if (recheck && k % recheck == 0) {
                u64 h = R->hash;
                int nv = R->nviol;
                execute(s, false);
                rechecked++;
                if (R->hash != h || R->nviol != nv) {
                    mismatched++;
                    fprintf(stderr, "seed %llu is not reproducible\n", (unsigned long long)seed);
                }
            }
        }
        std::string o = "{";
        auto num = [&](const char* k, u64 v) { o += (o.size() > 1 ? "," : "") + jstr(k) + ":" + std::to_string(v); };
        num("runs", runs);
        num("nontrivial", nontrivial);
        num("events", events);
        num("syscalls", sysc);
        num("requests", req);
        num("responses", resp);
        num("rechecked", rechecked);
        num("mismatched", mismatched);
        num("known", nknown);
        o += ",\"sim_s\":" + std::to_string(simt) + ",\"wall_s\":" + std::to_string(wall() - t0);
        o += ",\"faults\":{";
        for (int i = 0; i < F_NKINDS; i++) o += (i ? "," : "") + jstr(FAULT_NAMES[i]) + ":[" + std::to_string(faults[i]) + "," + std::to_string(fruns[i]) + "]";
        o += "},\"probes\":{";
        for (int i = 0; i < P_N; i++) o += (i ? "," : "") + jstr(PROBE_NAMES[i]) + ":" + std::to_string(probes[i]);
        o += "},\"violations\":[" + viol + "],\"other\":[" + other + "],\"shapes\":[";
        bool first = true;
        for (u64 h : shapes) {
            char b[24];
            snprintf(b, sizeof b, "%s\"%016llx\"", first ? "" : ",", (unsigned long long)h);
            o += b;
            first = false;
        }
        o += "]}";
        if (hashes) spit(out + ".hashes", hl);
        if (out.empty())
            printf("%s\n", o.c_str());
        else
            spit(out, o + "\n");
        unlink(errfile().c_str());
        return 0;
    }
    return 2;
}
