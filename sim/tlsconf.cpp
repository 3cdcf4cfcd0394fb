// The TLS configuration at start: certificate and key files of many kinds, on a disk which may
// fail and with files which may be replaced while they are being loaded.
//
// Scenario record (faults):
//   tls      cert=<kind> key=<kind> env=<0|1>       what the files hold
//   tlsswap  k=<n-th file operation> key=<0|1> to=<kind>
//   fsfault  p_open p_read p_short p_stat            (as for static files)
#include <fcntl.h>
#include <openssl/pem.h>
#include <openssl/ssl.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>

#include "world.h"

#ifndef CERT_DIR
#define CERT_DIR "/verif/sim/certs"
#endif

namespace sim {
TlsConf TC;
static std::string dir;
static u64 ops = 0;
static std::vector<std::string> held;  // the certificates the certificate file has held, as DER


static std::string slurp(const char* n) {
    std::string p = std::string(CERT_DIR "/") + n, o;
    int fd = open(p.c_str(), O_RDONLY);
    char b[8192];
    ssize_t n2;
    while (fd >= 0 && (n2 = real_read(fd, b, sizeof b)) > 0) o.append(b, (size_t)n2);
    if (fd >= 0) close(fd);
    return o;
}
static std::string material(const std::string& kind, bool key) {
    if (kind == "rsa") return slurp(key ? "key.pem" : "cert.pem");
    if (kind == "ec") return slurp(key ? "ec_key.pem" : "ec_cert.pem");
    if (kind == "rsa2") return slurp(key ? "key2.pem" : "cert2.pem");
    if (kind == "combo") return slurp("combo.pem");
    if (kind == "other") return slurp(key ? "cert.pem" : "key.pem");  // one in place of the other
    if (kind == "pub") return slurp("pub.pem");
    if (kind == "ed") return slurp(key ? "ed_key.pem" : "ed_cert.pem");
    if (kind == "text") return slurp(key ? "text_key.pem" : "text_cert.pem");  // words around it
    if (kind == "chain") return slurp(key ? "key.pem" : "chain.pem");          // another certificate follows
    if (kind == "rev") return slurp(key ? "key.pem" : "rev.pem");              // another certificate goes first
    if (kind == "der") return slurp(key ? "key.der" : "cert.der");
    if (kind == "enc") return slurp(key ? "enc_key.pem" : "cert.pem");
    if (kind == "trunc") {
        std::string s = slurp(key ? "key.pem" : "cert.pem");
        return s.substr(0, s.size() * 2 / 3);
    }
    if (kind == "garbage") return std::string("-----BEGIN CERTIFICATE-----\n\x01\x02 not base64 \xff\n-----END CERTIFICATE-----\n");
    return "";
}
static std::string der(X509* x) {
    unsigned char* b = nullptr;
    int n = x ? i2d_X509(x, &b) : 0;
    std::string o(n > 0 ? (const char*)b : "", n > 0 ? (size_t)n : 0);
    OPENSSL_free(b);
    return o;
}
static void hold(const std::string& pem) {
    BIO* b = BIO_new_mem_buf(pem.data(), (int)pem.size());
    X509* x = PEM_read_bio_X509(b, nullptr, nullptr, nullptr);
    if (x) held.push_back(der(x));
    X509_free(x);
    BIO_free(b);
}
static int family(const std::string& kind, bool key) { 
    return kind == "rsa" || kind == "combo" || kind == "text" || kind == "chain" || (key && kind == "rev") || (!key && kind == "enc") ? 1
           : kind == "ec"                                                                                                          ? 2
           : kind == "rsa2" || kind == "rev"                                                                                       ? 3
           : kind == "ed"                                                                                                          ? 4
                                                                                                                                   : 0;
}
static void write_file(const std::string& name, const std::string& kind, bool key) {
    std::string p = dir + "/" + name, t = p + ".new";
    rmdir(p.c_str());
    unlink(p.c_str());
    if (kind == "missing" || kind == "none") return;
    if (kind == "dir") {
        mkdir(p.c_str(), 0755);
        return;
    }
    if (kind == "dangling") {
        if (symlink((dir + "/nothing").c_str(), p.c_str()) != 0) {
        }
        return;
    }
    std::string d = material(kind, key);
    if (!key) {
        ErrQueue q;
        hold(d);
    }
    int fd = open(t.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return;
    if (real_write(fd, d.data(), d.size()) != (ssize_t)d.size()) {
    }
    close(fd);
    rename(t.c_str(), p.c_str());
}
static u64 disturbances() { return R->faults[F_FILE_OPEN] + R->faults[F_FILE_READ] + R->faults[F_FILE_STAT] + R->faults[F_FILE_MUTATE]; }

void tlsconf_setup() {
    for (auto& f : S->faults) {
        if (f.kind == "tls") {
            TC.on = true;
            std::string c = f.str("cert"), k = f.str("key");
            std::string root = scratch() + "/simfs";
            mkdir(scratch().c_str(), 0755);
            mkdir(root.c_str(), 0755);
            char rp[4096];
            if (realpath(root.c_str(), rp)) root = rp;
            dir = root + "/tls";
            mkdir(dir.c_str(), 0755);
            write_file("cert.pem", c, false);
            write_file("key.pem", k, true);
            TC.cert = c == "none" ? "" : dir + "/cert.pem";
            TC.key = k == "none" ? "" : dir + "/key.pem";
            TC.env = f.get("env");
            TC.usable = family(c, false) && family(c, false) == family(k, true);
            FC.root = root;
        }
        if (f.kind == "fsfault" && TC.on) {
            FC.p_open = (int)f.get("p_open");
            FC.p_read = (int)f.get("p_read");
            FC.p_short = (int)f.get("p_short");
            FC.p_stat = (int)f.get("p_stat");
        }
    }
    if (!TC.on) return;
    FC.on_file_op = [](const char* op, const std::string& path) {
        if (path.find("/tls/") == std::string::npos) return;
        ops++;
        tracef("%s(%s)", op, path.c_str());
        ev_hash("fop", hstr(op), ops);
        for (auto& f : S->faults)
            if (f.kind == "tlsswap" && f.get("k") == (i64)ops) {
                write_file(f.get("key") ? "key.pem" : "cert.pem", f.str("to"), f.get("key"));
                fault(F_FILE_MUTATE);
                tracef("%s is replaced (%s)", f.get("key") ? "key.pem" : "cert.pem", f.str("to").c_str());
            }
    };
}
// the server waits for events
void tlsconf_serving() {
    if (!TC.on || TC.usable || R->faults[F_FILE_MUTATE]) return;
    if (!TC.flagged) violation("tls_started", "the server starts although its certificate or key is unusable");
    TC.flagged = true;
}
// a client has completed its handshake
void tlsconf_peer(ssl_st* ssl, const std::string& who) {
    const unsigned char* sel;
    unsigned n;
    SSL_get0_alpn_selected(ssl, &sel, &n);
    if (std::string((const char*)sel, n) != "h2")
        violation("tls_alpn", "%s: the server did not choose h2, which the client offers (chosen: '%.*s')", who.c_str(), (int)n, (const char*)sel);
    if (!TC.on) return;
    std::string c = der(SSL_get0_peer_certificate(ssl));
    for (auto& h : held)
        if (h == c) return;
    violation("tls_cert", "%s: the server presents a certificate which is not the configured one", who.c_str());
}
// the server has ended before it was told to; true when that is its refusal to start
bool tlsconf_refused(bool failed) {
    if (!TC.on || W.t_stop >= 0 || !failed) return false;
    bool accepted = false;
    for (auto& c : K.conns) accepted |= c->accepted;
    if (accepted) violation("tls_served", "the server accepted a connection and then ended");
    if (TC.usable && !disturbances()) violation("tls_refused", "the server refuses to start with a usable certificate and key");
    probe(P_TLS_REFUSED);
    ev_hash("refused", hstr(TC.cert), hstr(TC.key));
    return true;
}
void tlsconf_done() {
    if (!TC.on) return;
    FC.root.clear();
    for (const char* n : {"cert.pem", "key.pem"}) {
        rmdir((dir + "/" + n).c_str());
        unlink((dir + "/" + n).c_str());
    }
    rmdir(dir.c_str());
    rmdir(dir.substr(0, dir.size() - 4).c_str());
}
}  // namespace sim
