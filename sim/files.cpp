// File-system seam: real files in a scratch directory, with injected failures and
// changes that happen exactly between two of the server's file operations.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#include "kernel.h"

namespace sim {
FileCfg FC;
static std::map<int, std::string> tracked;  // descriptors of files below the scratch root
static std::set<FILE*> logfiles;
static u64 reads = 0, logops = 0;

static bool on() { return sim_thread && K.active && K.depth == 0; }
static bool mine(const char* p) {
    return p && !FC.root.empty() && strncmp(p, FC.root.c_str(), FC.root.size()) == 0;
}
static bool is_log(const char* p) { return !FC.logpath.empty() && FC.logpath == p; }
// every file operation costs time, may be preceded by a concurrent change, and may fail
static bool file_op(const char* op, const char* path, int pm, const int* errs, size_t nerrs) {
    FC.ops++;
    K.busy(3 * US);
    if (FC.on_file_op) {
        Harness h;
        FC.on_file_op(op, path);
    }
    if (K.roll(pm, hkey(0xf11e, hstr(op)), FC.ops)) {
        errno = errs[hkey(S->seed, 0xf11f, FC.ops) % nerrs];
        ev_hash("file_fail", (u64)errno);
        tracef("%s(%s) fails: errno %d", op, path, errno);
        return true;
    }
    return false;
}
static const int OPEN_ERRS[] = {EMFILE, ENFILE, EIO, ENOMEM, EACCES};
static const int STAT_ERRS[] = {EIO, ENOMEM, EACCES, ELOOP};
static std::string fd_path(int fd) {
    char l[64], b[PATH_MAX];
    snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
    long n = syscall(SYS_readlink, l, b, sizeof b - 1);
    return n > 0 ? std::string(b, (size_t)n) : "";
}
static void opened(int fd, const char* path) {
    (void)path;
    std::string real = fd_path(fd);
    tracked[fd] = real;
    if (FC.on_open) {
        Harness h;
        FC.on_open(real);
    }
}
size_t files_open() {
    size_t n = 0;
    for (auto& [fd, path] : tracked) {
        struct stat st;
        if (syscall(SYS_fstat, fd, &st) == 0 && S_ISREG(st.st_mode) && fd_path(fd) == path) n++;
    }
    return n;
}
static bool fifo_check(const char* path) {
    struct stat st;
    if (syscall(SYS_newfstatat, AT_FDCWD, path, &st, 0) == 0 && S_ISFIFO(st.st_mode)) {
        violation("blocking", "opening %s, a FIFO, blocks the server", path);
        errno = EINTR;
        return true;
    }
    return false;
}
}  // namespace sim
using namespace sim;

template <class T>
static T next(const char* n) {
    return (T)dlsym(RTLD_NEXT, n);
}

extern "C" {
ssize_t file_read_hook(int fd, void* p, size_t n);
static FILE* do_fopen(const char* p, const char* m) {
    static auto real = next<FILE* (*)(const char*, const char*)>("fopen64");
    if (on() && p && is_log(p)) {
        FILE* f = real(p, m);
        if (f) logfiles.insert(f);
        return f;
    }
    if (!on() || !mine(p)) return real(p, m);
    if (strchr(m, 'r') && fifo_check(p)) return nullptr;
    if (file_op("open", p, FC.p_open, OPEN_ERRS, 5)) {
        fault(F_FILE_OPEN);
        return nullptr;
    }
    FILE* f = real(p, m);
    if (f) opened(fileno(f), p);
    if (f && strstr(p, "/tls/")) {
        // stdio's own reads cannot be reached: read through functions which can fail
        cookie_io_functions_t io{};
        io.read = [](void* c, char* b, size_t n) -> ssize_t { return file_read_hook(fileno((FILE*)c), b, n); };
        io.close = [](void* c) -> int { return fclose((FILE*)c); };
        FILE* g = fopencookie(f, "r", io);
        if (g) return g;
    }
    return f;
}
FILE* fopen(const char* __restrict p, const char* __restrict m) { return do_fopen(p, m); }
FILE* fopen64(const char* __restrict p, const char* __restrict m) { return do_fopen(p, m); }

static int do_open(int dir, const char* p, int fl, mode_t mode) {
    if (!on() || !mine(p)) return (int)syscall(SYS_openat, dir, p, fl, mode);
    if (!(fl & O_NONBLOCK) && (fl & O_ACCMODE) == O_RDONLY && fifo_check(p)) return -1;
    if (file_op("open", p, FC.p_open, OPEN_ERRS, 5)) {
        fault(F_FILE_OPEN);
        return -1;
    }
    int fd = (int)syscall(SYS_openat, dir, p, fl, mode);
    if (fd >= 0) opened(fd, p);
    return fd;
}
#define MODE                         \
    va_list ap;                      \
    va_start(ap, fl);                \
    mode_t mode = va_arg(ap, int);   \
    va_end(ap);
int open(const char* p, int fl, ...) {
    MODE return do_open(AT_FDCWD, p, fl, mode);
}
int open64(const char* p, int fl, ...) {
    MODE return do_open(AT_FDCWD, p, fl, mode);
}
int openat(int d, const char* p, int fl, ...) {
    MODE return do_open(d, p, fl, mode);
}
int openat64(int d, const char* p, int fl, ...) {
    MODE return do_open(d, p, fl, mode);
}

ssize_t file_read_hook(int fd, void* p, size_t n) {
    auto it = tracked.find(fd);
    if (it == tracked.end()) return real_read(fd, p, n);
    static const int errs[] = {EIO, EIO, EISDIR};
    reads++;
    if (file_op("read", it->second.c_str(), FC.p_read, errs, 3)) {
        fault(F_FILE_READ);
        return -1;
    }
    if (n > 1 && K.roll(FC.p_eintr, 0xf1e1, reads)) {
        errno = EINTR;
        fault(F_EINTR);
        return -1;
    }
    if (n > 1 && K.roll(FC.p_short, 0xf1e2, reads)) {
        n = 1 + hkey(S->seed, 0xf1e3, reads) % (n - 1);
        fault(F_FILE_SHORT);
        tracef("read returns at most %zu bytes", n);
    }
    return real_read(fd, p, n);
}
ssize_t pread64(int fd, void* p, size_t n, off64_t o) {
    if (on()) {
        auto it = tracked.find(fd);
        static const int errs[] = {EIO};
        if (it != tracked.end()) {
            if (file_op("read", it->second.c_str(), FC.p_read, errs, 1)) {
                fault(F_FILE_READ);
                return -1;
            }
            if (n > 1 && K.roll(FC.p_short, 0xf1e2, ++reads)) {
                n = 1 + hkey(S->seed, 0xf1e3, reads) % (n - 1);
                fault(F_FILE_SHORT);
            }
        }
    }
    return syscall(SYS_pread64, fd, p, n, o);
}
ssize_t pread(int fd, void* p, size_t n, off_t o) { return pread64(fd, p, n, o); }
// stdio's own reads cannot be reached: what asks for them can
static bool fread_fails(FILE* f) {
    if (!on() || !f) return false;
    int fd = fileno(f);
    auto it = fd < 0 ? tracked.end() : tracked.find(fd);
    static const int errs[] = {EIO};
    if (it == tracked.end() || !file_op("read", it->second.c_str(), FC.p_read, errs, 1)) return false;
    fault(F_FILE_READ);
    f->_flags |= 0x20;  // _IO_ERR_SEEN
    return true;
}
size_t fread(void* __restrict p, size_t s, size_t n, FILE* __restrict f) {
    static auto real = next<size_t (*)(void*, size_t, size_t, FILE*)>("fread");
    return fread_fails(f) ? 0 : real(p, s, n, f);
}
size_t fread_unlocked(void* __restrict p, size_t s, size_t n, FILE* __restrict f) {
    static auto real = next<size_t (*)(void*, size_t, size_t, FILE*)>("fread_unlocked");
    return fread_fails(f) ? 0 : real(p, s, n, f);
}
void file_close_hook(int fd) { tracked.erase(fd); }
int fclose(FILE* f) {
    static auto real = next<int (*)(FILE*)>("fclose");
    if (sim_thread && K.active && f) {
        tracked.erase(fileno(f));
        logfiles.erase(f);
    }
    return real(f);
}

int stat(const char* __restrict p, struct stat* __restrict st) noexcept {
    if (on() && mine(p) && !is_log(p) && file_op("stat", p, FC.p_stat, STAT_ERRS, 4)) {
        fault(F_FILE_STAT);
        return -1;
    }
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
int lstat(const char* __restrict p, struct stat* __restrict st) noexcept {
    if (on() && mine(p) && !is_log(p) && file_op("stat", p, FC.p_stat, STAT_ERRS, 4)) {
        fault(F_FILE_STAT);
        return -1;
    }
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW);
}
int access(const char* p, int m) noexcept {
    if (on() && mine(p) && file_op("access", p, FC.p_stat, STAT_ERRS, 4)) {
        fault(F_FILE_STAT);
        return -1;
    }
    return (int)syscall(SYS_faccessat, AT_FDCWD, p, m);
}
char* realpath(const char* __restrict p, char* __restrict out) noexcept {
    static auto real = next<char* (*)(const char*, char*)>("realpath");
    if (on() && mine(p) && file_op("realpath", p, FC.p_stat, STAT_ERRS, 4)) {
        fault(F_FILE_STAT);
        return nullptr;
    }
    return real(p, out);
}

// the access log's device
static bool log_fails(FILE* f) {
    if (!on() || !logfiles.count(f)) return false;
    logops++;
    if (!K.roll(FC.p_log, 0x106f, logops)) return false;
    fault(F_LOG_FAIL);
    tracef("write to the access log fails: ENOSPC");
    ev_hash("log_fail", logops);
    errno = ENOSPC;
    return true;
}
size_t fwrite(const void* __restrict p, size_t s, size_t n, FILE* __restrict f) {
    static auto real = next<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite");
    if (log_fails(f)) return 0;
    return real(p, s, n, f);
}
size_t fwrite_unlocked(const void* __restrict p, size_t s, size_t n, FILE* __restrict f) {
    static auto real = next<size_t (*)(const void*, size_t, size_t, FILE*)>("fwrite_unlocked");
    if (log_fails(f)) return 0;
    return real(p, s, n, f);
}
}
