// Scenario generation: one integer decides everything. Every profile draws its own mixture
// (swarm style: each ingredient is present or absent per scenario, with its own intensity).
#include <array>
#include <algorithm>
#include <set>

#include "world.h"

namespace sim {
namespace {
using Steps = std::vector<Rec>;
struct Opt {  // how requests of a scenario look
    i64 bl = 3000;       // largest body
    int p_big = 100;     // permille of bodies drawn up to bl, otherwise small
    int p_up = 150;      // uploads
    i64 up = 9000;
    int p_cont = 100, p_pad = 100, p_prio = 150, p_tsu = 60, p_tr = 30;
    int p_thr = 0, p_nf = 80, p_400 = 30, p_cancel = 0;
    int p_us = 150;      // handler takes time
    i64 us = 3000;
    int nh = 6, vl = 40, rn = 5, rv = 40;
    int p_ctl = 150;     // control frames in between
    i64 gap = 3000;      // pause between steps, microseconds
    int p_gap = 500;
    int p_any = 0;       // header bytes of every value
    int p_late = 0;      // request bodies which end after later requests
    int p_huge = 0;      // response headers of many kilobytes
    int npath = 0;       // few paths, not all of them with every method
    bool plainenc = false;
};
struct Gen {
    Rng g;
    Scenario s;
    i64 rid = 1;
    int ncl = 0;
    bool tls = false;
    i64 calm = 0;
    Gen(const std::string& p, u64 seed) : g(hkey(seed, 0x6e4, hstr(p))) {
        s.profile = p;
        s.seed = seed;
    }
    bool pm(int p) { return g.pm(p); }
    Rec& G() { return s.g; }
    void world(int p_tls, i64 calm_ms) {
        tls = pm(p_tls);
        calm = calm_ms * 1000;
        G().set("tls", tls).set("calm", calm).set("poll", pm(350)).set("cost", g.logu(1, 40)).set("loglevel", pm(120) ? 0 : pm(100) ? 2 : 6);
    }
    // failures of the system calls themselves; `scale` 0..1000
    void sysfaults(int scale) {
        auto rate = [&](const char* k, int p, i64 hi) {
            if (pm(p * scale / 1000)) G().set(k, g.logu(5, hi));
        };
        rate("p_eintr", 400, 300);
        rate("p_spurious", 300, 300);
        rate("p_subset", 400, 500);
        rate("p_permute", 600, 1000);
        rate("p_short", 500, 700);
        rate("p_eagain", 400, 400);
        if (pm(150 * scale / 1000)) {
            G().set("p_stall", g.logu(1, 30));
            G().set("stall", g.logu(1000, 300000));
        }
    }
    void net(Rec& c, int hostile) {
        c.set("seg", pm(300) ? 0 : g.range(0, 4));
        c.set("rec", g.range(0, 2));
        c.set("lat", g.logu(10, 20000)).set("jit", pm(500) ? 0 : g.logu(10, 20000));
        if (pm(hostile)) {
            c.set("scap", g.logu(tls ? 1500 : 300, 60000));
            if (pm(500)) c.set("rate", g.logu(20000, 3000000));
            if (pm(600)) c.set("dchunk", g.logu(1, 20000));
        }
        if (pm(hostile / 2)) c.set("rcap", g.logu(200, 60000));
        if (pm(120)) c.set("pt", g.logu(100, 500000)).set("pl", g.logu(1000, 1500000));
        if (tls && pm(300)) c.set("tls12", 1);
        if (pm(250)) c.set("odd", g.logu(10, 1000));
        if (tls && pm(300)) c.set("alpn", g.range(1, 5));
        if (pm(100)) {  // stream identifiers may begin anywhere
            static const i64 round[] = {0x80, 0x100, 0x8000, 0x10000, 0x800000, 0x1000000, 0x40000000, 0x7fff0000};
            c.set("sid0", pm(500) ? g.logu(3, 0x7fff0000) : round[g.below(8)] - g.range(1, 20));
        }
    }
    ClientScn& client(i64 t, Role role, int hostile) {
        ClientScn c;
        c.c.kind = "client";
        c.c.set("id", ncl++).set("t", t).set("role", role).set("tls", tls);
        net(c.c, hostile);
        s.clients.push_back(c);
        return s.clients.back();
    }
    Rec& add(ClientScn& c, const char* kind, i64 d = 0) {
        c.steps.push_back(Rec{kind, {}, {}});
        if (d) c.steps.back().set("d", d);
        return c.steps.back();
    }
    Rec& hello(ClientScn& c, bool vary = true) {
        Rec& h = add(c, "hello", pm(200) ? g.logu(10, 50000) : 0);
        h.set("iws", 2147483647).set("wu", 2147483647ll - 65535);
        if (vary && pm(400)) h.set("mfs", g.pm(500) ? 16384 : g.logu(16384, 16777215));
        if (vary && pm(300)) h.set("push", 0);
        if (vary && pm(200)) h.set("mhl", g.logu(65536, 1 << 24));
        if (vary && pm(150)) h.set("extra", g.range(1, 4));
        if (vary && pm(250)) h.set("hts", pm(300) ? 4096 : g.logu(4096, 1 << 20));
        if (h.i.count("hts") && pm(150)) h.set("hts0", pm(500) ? g.logu(1, 200000) : 0);
        return h;
    }
    i64 gap(const Opt& o) { return pm(o.p_gap) ? g.logu(1, o.gap) : 0; }
    Rec& req(ClientScn& c, const Opt& o) {
        Rec& r = add(c, "req", gap(o));
        r.set("id", rid++).set("m", g.below(7)).set("p", pm(o.p_nf) ? 8 : o.npath ? 8 - 1 - (i64)g.below((u64)o.npath) : (i64)g.below(8));
        static const std::vector<i64> sts = {200, 200, 200, 200, 201, 204, 206, 301, 302, 304, 307, 400, 401, 403, 404, 418, 429, 500, 502, 503, 299, 599};
        r.set("st", g.pick(sts));
        i64 bl = pm(250) ? 0 : pm(o.p_big) ? g.logu(1, o.bl) : g.logu(1, std::min<i64>(o.bl, 600));
        if (pm(60) && o.bl > 16500) {
            static const std::vector<i64> edge = {16255, 16256, 16257, 16383, 16384, 16385, 32511, 32512, 32513, 65535, 65536};
            bl = std::min(o.bl, g.pick(edge));
        }
        if (pm(60)) {
            static const std::vector<i64> taken = {204, 304, 404};
            i64 any = g.range(200, 599);
            if (std::find(taken.begin(), taken.end(), any) == taken.end()) r.set("st", any);
        }
        if (r.get("st") == 204 || r.get("st") == 304) bl = 0;
        r.set("bl", bl);
        if (o.rn && pm(600)) r.set("rn", g.range(0, o.rn)).set("rs", (i64)g.below(pm(500) ? 40 : 100000)).set("rv", pm(100) ? o.rv : g.logu(1, o.rv));
        if (o.p_huge && pm(o.p_huge)) r.set("rn", g.range(1, 2)).set("rs", (i64)g.below(100000)).set("rv", g.logu(5000, 70000));
        if (o.nh) r.set("nh", g.range(0, o.nh));
        if (pm(o.p_any)) r.set("any", 1);
        r.set("hs", (i64)g.below(pm(500) ? 40 : 100000)).set("vl", pm(100) ? o.vl : g.logu(1, o.vl));
        if (!o.plainenc) r.set("enc", g.range(1, 1 << 30));
        if (pm(o.p_cont)) r.set("fr", g.range(1, 4));
        if (pm(o.p_pad)) r.set("pad", pm(200) ? 1 : g.logu(1, 256));
        if (pm(o.p_prio)) r.set("prio", g.range(1, 0x7fffffff));
        if (pm(o.p_tsu)) {
            r.set("tsu", pm(300) ? 0 : g.logu(1, 4096));
            if (pm(400)) r.set("tsu2", std::max<i64>(r.get("tsu"), g.logu(1, 4096)));
        }
        if (pm(o.p_up)) {
            r.set("dn", pm(o.up > 9000 ? 500 : 0) ? g.logu(9000, o.up) : g.logu(1, 9000)).set("df", g.logu(1, 5));
            if (pm(200)) r.set("dpad", g.logu(1, 100));
            if (pm(o.p_tr * 3)) r.set("tr", g.range(1, 1000000));
        } else if (pm(o.p_tr))
            r.set("tr", g.range(1, 1000000));
        if (o.p_late && (r.get("dn") || r.get("tr")) && pm(o.p_late)) r.set("late", g.range(1, 5));
        if (pm(o.p_thr)) r.set("thr", g.range(1, 7));
        if (pm(o.p_400)) r.set("nopath", g.range(1, 2));
        if (pm(o.p_us)) r.set("us", g.logu(1, o.us));
        if (pm(15)) r.set("skip", g.logu(1, 8000));
        return r;
    }
    void ctl(ClientScn& c, const Opt& o) {
        switch (g.below(8)) {
            case 0:
            case 1:
                add(c, "ping", gap(o)).set("s", (i64)g.below(1000000));
                break;
            case 2: {
                Rec& r = add(c, "settings", gap(o));
                if (pm(300)) r.set("mfs", g.logu(16384, 16777215));
                if (pm(300)) r.set("extra", g.range(1, 3));
                if (pm(100)) r.set("iws", 2147483647);
                break;
            }
            case 3:
                add(c, "wu", gap(o)).set("stream", g.below(2)).set("inc", g.logu(1, 100000));
                break;
            case 4:
                add(c, "prio", gap(o)).set("s", (i64)g.below(1 << 30));
                break;
            case 5:
                add(c, "unk", gap(o)).set("s", (i64)g.below(1 << 30)).set("n", pm(100) ? 16384 : g.logu(1, 300) - 1);
                break;
            case 6:
                add(c, "ping", gap(o)).set("s", (i64)g.below(1000000)).set("ack", 1);
                break;
            default:
                if (tls) add(c, "keyupdate", gap(o)).set("peer", g.below(2));
        }
    }
    void traffic(ClientScn& c, int n, const Opt& o) {
        i64 sync = pm(350) ? g.range(0, 3) : -1;  // waits for responses, or pipelines
        for (int k = 0; k < n; k++) {
            while (pm(o.p_ctl)) ctl(c, o);
            req(c, o);
            if (pm(o.p_cancel)) add(c, "cancel");
            if (sync >= 0 && pm(600)) add(c, "await").set("k", sync);
        }
        while (pm(o.p_ctl)) ctl(c, o);
    }
    ClientScn& wb(i64 t, int n, const Opt& o, int hostile) {
        ClientScn& c = client(t, WB, hostile);
        hello(c);
        if (pm(200)) add(c, "awaithello");
        traffic(c, n, o);
        c.c.set("end", pm(300)).set("ed", g.logu(10, 200000));
        return c;
    }
    // very many requests on one connection
    void marathon(int p, const Opt& o) {
        if (!pm(p)) return;
        Opt q = o;
        q.p_huge = q.p_big = q.p_gap = q.p_ctl = q.p_us = q.p_cancel = 0;
        q.bl = 40;
        q.up = 20;
        q.nh = std::min(q.nh, 4);
        q.rn = std::min(q.rn, 4);
        q.vl = std::min(q.vl, 60);
        q.rv = std::min(q.rv, 60);
        ClientScn& c = client(g.range(0, 100000), WB, 0);
        hello(c);
        traffic(c, (int)g.logu(200, 1500), q);
        c.c.i.erase("pl");
        c.c.set("lat", g.logu(10, 300)).set("jit", 0);
    }
    // one very large response
    void giant(int p, const Opt& o) {
        if (!pm(p)) return;
        ClientScn& c = client(g.range(0, 100000), WB, 0);
        hello(c);
        Opt q = o;
        q.p_cancel = q.p_thr = q.p_400 = 0;
        traffic(c, (int)g.below(3), q);
        Rec& r = req(c, q);
        r.set("st", 200).set("bl", 16777216 + g.range(-3, 40000)).set("m", 0).set("p", (i64)g.below(8));
        r.i.erase("nopath");
        traffic(c, (int)g.range(1, 3), q);
        c.c.i.erase("pl");
        c.c.set("lat", 20).set("jit", 0).set("seg", 0);
    }
    // goodbye in the stream itself
    void goodbye(ClientScn& c) {
        switch (g.below(4)) {
            case 0:
                add(c, "fin", pm(500) ? 0 : g.logu(1, 300000));
                break;
            case 2:
                add(c, "goaway", pm(500) ? 0 : g.logu(1, 300000));
                break;
            case 1:
                add(c, "fin", 0);
                break;
            default:
                break;
        }
    }
    void probe_client() {
        // after everything: a fresh client that must be served
        ClientScn c;
        c.c.kind = "client";
        c.c.set("id", 9000).set("t", calm + 20000).set("role", WB).set("tls", tls).set("lat", 50);
        Rec h{"hello", {}, {}};
        h.set("iws", 2147483647).set("wu", 2147483647ll - 65535);
        c.steps.push_back(h);
        for (int k = 0; k < 2; k++) {
            Rec r{"req", {}, {}};
            r.set("id", 90000 + k).set("p", 0).set("st", 200).set("bl", 700 * k);
            c.steps.push_back(r);
        }
        c.c.set("ed", 1000);
        s.clients.push_back(c);
    }
    // the machine has been up for long, perhaps until a narrow counter of its time is about to wrap
    void aged(int p) {
        if (!pm(p)) return;
        static const i64 wraps[] = {4294967296ll / 1000000, 2147483648ll / 1000, 4294967296ll / 1000, 2147483648ll};
        G().set("ago", pm(400) ? g.logu(1, 40000000) : std::max<i64>(0, wraps[g.below(4)] - 1000 - g.range(0, 12)));
    }
    void jumps(int p) {
        while (pm(p)) {
            Rec f{"jump", {}, {}};
            f.set("at", g.range(0, std::max<i64>(calm, G().get("linger")))).set("by", (pm(500) ? -1 : 1) * g.logu(1, 400000000));
            s.faults.push_back(f);
        }
    }
    // ---------------------------------------------------------------- misbehaviour
    void bad(ClientScn& c, const Opt& o, bool poison) {
        c.c.set("role", BAD);
        i64 b = g.range(0, tls ? 13 : 10);
        if (b == 13) b = 12;
        if (!tls && pm(80)) b = 13;
        if (b != 0) {
            hello(c);
            Opt q = o;
            q.p_cancel = 0;
            traffic(c, (int)g.below(4), q);
        }
        if (pm(200)) add(c, "sleep", g.logu(10, 200000));
        add(c, "bad", pm(400) ? g.logu(1, 20000) : 0).set("b", b).set("s", (i64)g.below(1 << 20));
        if (poison)
            for (i64 k = g.range(0, 3); k > 0; k--) {
                Rec& r = req(c, o);
                r.i.erase("nopath");
                r.i.erase("thr");
                r.set("poison", 1);
            }
    }
    void misbehave(i64 t, const Opt& o) {
        int kind = (int)g.below(13);
        ClientScn& c = client(t, FUZZ, 300);
        auto rq = [&](int n) {
            Opt q = o;
            q.p_400 = 0;
            traffic(c, n, q);
        };
        switch (kind) {
            case 0:  // garbage from the first byte
                for (i64 k = g.range(1, 4); k > 0; k--) add(c, "garbage", pm(300) ? g.logu(1, 50000) : 0).set("s", (i64)g.below(1 << 30)).set("n", g.logu(1, 3000)).set("wire", 1);
                break;
            case 1:  // garbage after a proper start
                hello(c);
                rq((int)g.below(3));
                add(c, "garbage", pm(300) ? g.logu(1, 50000) : 0).set("s", (i64)g.below(1 << 30)).set("n", g.logu(1, 3000)).set("wire", pm(300));
                break;
            case 2:
            case 3: {  // almost valid traffic
                hello(c);
                for (i64 k = g.range(1, 6); k > 0; k--) {
                    Rec& r = req(c, o);
                    r.kind = "mutate";
                    r.set("s", (i64)g.below(1 << 30)).set("n", g.logu(1, 6));
                    r.i.erase("thr");
                }
                break;
            }
            case 4:
            case 5:
                bad(c, o, true);
                c.c.set("role", pm(500) ? BAD : FUZZ);
                break;
            case 6:  // abandons the handshake, or says nothing
                if (tls) c.c.set("hslim", g.logu(1, 900));
                add(c, "sleep", g.logu(100, 400000));
                if (pm(500)) add(c, pm(500) ? "close" : "rst");
                break;
            case 7:  // cleartext to a TLS server, TLS-like bytes to a cleartext one
                c.c.set("plain", 1);
                if (tls) {
                    hello(c);
                    rq(1);
                } else
                    add(c, "raw").sets("hex", "16030100f8010000f40303" + hex(std::string(40, 'x')));
                break;
            case 8:  // reset or close in the middle of big responses
            case 9: {
                hello(c);
                Opt q = o;
                q.bl = 400000;
                q.p_big = 700;
                traffic(c, (int)g.range(1, 5), q);
                if (pm(400)) c.c.set("rate", g.logu(5000, 100000));
                Rec& r = add(c, pm(600) ? "rst" : "close", g.logu(1, 300000));
                r.set("ord", g.below(2)).set("notify", g.below(2));
                break;
            }
            case 10: {  // asks for a lot and never reads
                c.c.set("nr", 1);
                if (!tls) add(c, "pause");
                hello(c);
                Opt q = o;
                q.bl = 300000;
                q.p_big = 900;
                q.p_cancel = 0;
                traffic(c, (int)g.range(1, 8), q);
                if (tls) add(c, "pause", g.logu(100, 5000));
                break;
            }
            case 11:  // connects and goes
                if (pm(500)) add(c, "sleep", g.logu(1, 30000));
                add(c, pm(500) ? "close" : "rst").set("ord", 1);
                break;
            default:  // half a frame, then the end
                hello(c);
                rq((int)g.below(2));
                add(c, "raw").sets("hex", hex(std::string("\x00\x10\x00\x01\x05\x00\x00\x00", 8)) + hex(std::string((size_t)g.below(60), 'h')));
                if (pm(700)) add(c, pm(500) ? "fin" : "close", g.logu(1, 100000)).set("abrupt", g.below(2));
        }
    }
    // a client which has always sent more by the time the server looks again, for seconds
    void deluge(i64 t) {
        i64 cost = g.range(60, 150), rcap = g.logu(300, 3000);
        G().set("cost", cost);
        if (G().get("loglevel") == 0) G().set("loglevel", 2);
        ClientScn& c = client(t, FUZZ, 0);
        c.c.i.erase("pl");
        c.c.set("seg", 0).set("rec", 0).set("lat", 10).set("jit", 0).set("rcap", rcap).set("plain", 0);
        hello(c, false).i.erase("d");
        bool ping = pm(300);
        i64 sz = ping ? 8 : g.logu(20, 1000);
        i64 bytes = std::min<i64>(5000000, g.range(1500000, 5000000) / cost * rcap);
        add(c, "flood", g.range(1, 1000)).set("k", ping ? 1 : 4).set("n", bytes / (9 + sz)).set("sz", sz).set("s", (i64)g.below(1000000));
        if (pm(400)) add(c, pm(700) ? "rst" : "close", g.logu(1000, 3000000)).set("ord", 0);
    }
    // several of them, each resetting in mid-flow, while others come and go all the time
    void deluges(const Opt& o) {
        for (i64 k = g.range(1, 4); k > 0; k--) {
            deluge(g.range(0, calm / 2));
        }
        for (i64 k = g.range(10, 60); k > 0; k--) {
            ClientScn& c = wb(g.range(0, calm), 1, o, 0);
            c.c.set("ed", g.logu(10, 30000)).set("end", 0);
        }
    }
    // very many connections which all have much for the server to do at the same time
    void rush(i64 t) {
        Opt o;
        o.bl = 300;
        o.p_gap = o.p_us = o.p_ctl = o.p_thr = 0;
        i64 lat = g.logu(10, 2000);
        {  // while the server is busy with somebody
            ClientScn& c = client(t, WB, 0);
            c.c.i.erase("pl");
            hello(c);
            Rec& r = req(c, o);
            r.set("d", 250000).set("p", g.below(6)).set("us", 40000).set("m", 0).set("st", 200);
        }
        for (i64 k = g.range(18, 70); k > 0; k--) {
            ClientScn& c = client(t + g.range(0, 20), WB, 0);
            c.c.i.erase("pl");
            c.c.i.erase("rate");
            c.c.set("lat", lat).set("jit", 0).set("seg", 0).set("rec", 0);
            hello(c);
            add(c, "ping", 250000 + g.range(0, 20000)).set("s", (i64)g.below(1000000));
            for (i64 n = g.range(1, 3); n > 0; n--) {
                Rec& r = req(c, o);
                r.set("m", 1).set("p", g.below(6)).set("st", 200);
                i64 fs = g.logu(5, 100);
                r.set("dn", std::min<i64>(fs * g.range(80, 300), 20000)).set("dfs", fs);
            }
        }
    }
    // others are closed as idle at that very time
    void idle_rush() {
        i64 t = g.range(0, 20000), spread = g.logu(2000, 40000);
        for (i64 k = g.range(10, 50); k > 0; k--) {
            ClientScn& c = client(t + g.range(0, spread), FUZZ, 0);
            c.c.i.erase("pl");
            c.c.i.erase("rate");
            c.c.set("lat", g.range(10, 500)).set("jit", 0).set("seg", 0);
            hello(c).i.erase("d");
            add(c, "sleep", 9000000);
        }
        rush(t + 5000000 - 250000 - 20000 + g.range(0, 20000));
    }
    void victim(int p) {
        // system calls fail for this connection only
        if (!pm(p)) return;
        Opt o;
        ClientScn& c = wb(g.range(0, calm), 1, o, 0);
        c.c.set("victim", 1 << g.below(tls ? 3 : 2));
    }
    // no memory for what this one asks for
    void starved(int p, const Opt& o) {
        if (!pm(p)) return;
        G().set("p_alloc", g.logu(20, 700));
        for (i64 k = g.range(1, 4); k > 0; k--) {
            Opt q = o;
            q.bl = pm(500) ? 400000 : 20000;
            q.p_big = 600;
            q.rn = 8;
            q.p_cancel = 0;
            ClientScn& c = client(g.range(0, calm), FUZZ, 200);
            hello(c);
            traffic(c, (int)g.logu(1, 20), q);
            c.c.set("victim", 8).set("end", pm(500));
        }
    }
    void accept_faults(int p) {
        if (pm(p)) G().set("p_accept", g.logu(10, 500));
        while (pm(p / 2)) {
            static const std::vector<i64> errs = {24, 23, 105, 12, 103, 71, 4, 1};
            Rec f{"accept", {}, {}};
            i64 a = g.range(0, calm);
            f.set("from", a).set("to", std::min(calm, a + g.logu(1000, 600000))).set("err", g.pick(errs));
            s.faults.push_back(f);
        }
    }
    Rec& rec(const char* kind) {
        s.faults.push_back(Rec{kind, {}, {}});
        return s.faults.back();
    }
    // ---------------------------------------------------------------- static files
    Rec& sreq(ClientScn& c, const std::string& path, const std::string& file, i64 d = 0) {
        Rec& r = add(c, "req", d);
        r.set("id", rid++).set("m", pm(250) ? 6 : 0).set("x", X_STATIC).sets("path", path);
        if (!file.empty()) r.sets("file", file);
        if (pm(300)) r.set("enc", g.range(1, 1 << 30)).set("hs", (i64)g.below(40));
        return r;
    }
};

std::string pct(Rng& g, const std::string& s) {
    std::string o;
    for (char c : s) {
        if ((c == '.' || c == '/') && g.pm(500)) {
            o += c == '.' ? (g.pm(500) ? "%2e" : "%2E") : (g.pm(500) ? "%2f" : "%2F");
        } else
            o.push_back(c);
    }
    return o;
}

void gen_c13(Gen& G) {
    Rng& g = G.g;
    G.world(150, g.range(200, 800));
    G.G().set("app", G.pm(300));
    // the layout: served directory "w..." among siblings
    static const std::vector<std::string> roots = {"www", "srv/www", "a/b/www", "www.d", "w"};
    std::string root = g.pick(roots);
    std::string parent = root.find('/') == std::string::npos ? "" : root.substr(0, root.rfind('/') + 1);
    std::string base = root.substr(root.rfind('/') + 1);
    i64 cs = 1;
    i64 insz = 11;
    std::vector<std::string> in, out;
    auto infile = [&](const std::string& n) {
        insz += 7 + (i64)g.below(5);
        G.rec("file").set("c", cs++).set("n", insz).sets("name", root + "/" + n);
        in.push_back(n);
    };
    i64 outsz = 5003;
    auto outfile = [&](const std::string& n) {
        outsz += 13 + (i64)g.below(9);
        G.rec("file").set("c", 1000 + cs++).set("n", outsz).set("out", 1).sets("name", n);
        out.push_back(n);
    };
    G.rec("dir").sets("name", root);
    infile("index.html");
    infile("a.txt");
    if (G.pm(700)) infile("sub/b.css");
    if (G.pm(500)) infile("sub/deep/c.bin");
    if (G.pm(300)) infile("..hidden");
    if (G.pm(300)) infile("...");
    if (G.pm(300)) infile("sp ace.txt");
    if (G.pm(300)) infile("pct%2e%2e.txt");
    if (G.pm(300)) G.rec("dir").sets("name", root + "/empty");
    outfile("secret.txt");
    outfile(parent + base + "-old/secret.txt");  // the root's name is a prefix of this one
    if (G.pm(600)) outfile(parent + base + "2/index.html");
    if (G.pm(600)) outfile(parent + "index.html");
    if (G.pm(400)) outfile(parent + base + ".txt");
    if (G.pm(400)) outfile("etc/passwd");
    if (G.pm(300)) outfile(parent + "a.txt");
    // links
    std::vector<std::string> links;
    auto link = [&](const std::string& n, const std::string& to) {
        G.rec("link").sets("name", n).sets("to", to);
        if (n.compare(0, root.size() + 1, root + "/") == 0) links.push_back(n.substr(root.size() + 1));
    };
    auto target = [&]() -> std::string {
        switch (g.below(9)) {
            case 0:
                return "@/" + g.pick(out);
            case 1:
                return "@/" + parent + base + "-old";
            case 2:
                return "..";
            case 3:
                return "../" + base + "-old/secret.txt";
            case 4:
                return "@";
            case 5:
                return "@/" + root + "/" + g.pick(in);
            case 6:
                return "sub";
            case 7:
                return "/etc";
            default:
                return "../" + base + "-old";
        }
    };
    for (i64 k = g.range(0, 4); k > 0; k--) link(root + "/l" + std::to_string(k), target());
    if (G.pm(300) && !links.empty()) link(root + "/chain", links[0]);
    if (G.pm(150)) link(root + "/loop", "loop");
    if (G.pm(200)) link(root + "/sub/up", "../..");
    std::string as = root;
    i64 rel = 0;
    switch (g.below(8)) {
        case 0:
            as = root + "/";
            break;
        case 1:
            as = root + "/../" + base;
            break;
        case 2:
            link("served", "@/" + root);
            as = "served";
            break;
        case 3:
            rel = 1;
            break;
        case 4:
            rel = 1;
            as = "./" + root + "/.";
            break;
        case 5:
            as = root + "//";
            break;
        default:
            break;
    }
    G.rec("root").sets("path", as).set("rel", rel);
    if (G.G().get("app") && G.pm(300)) {
        G.rec("file").set("c", cs++).set("n", 333).sets("name", "nf.html");
        G.rec("nf").sets("name", "nf.html");
    }
    if (G.pm(200)) G.rec("fsfault").set("p_stat", g.logu(5, 200)).set("p_open", G.pm(300) ? 100 : 0).set("p_eintr", 100);
    for (i64 k = g.range(1, 3); k > 0; k--) {
        ClientScn& c = G.client(g.range(0, 50000), WB, 100);
        G.hello(c);
        for (i64 n = g.range(4, 24); n > 0; n--) {
            std::string p, file;
            bool esc = true;
            static const std::vector<std::string> ups = {"..", "../..", "../../..", "sub/../..", "sub/../../" + std::string("x/.."), "./..", "empty/../..", ".../..", "..hidden/../.."};
            // prefixes a normalisation may stumble over
            static const std::vector<std::string> odd = {"x/../", "missing/gone/../../", "a.txt/../", "loop/../", "sub/../", "sub/missing/../../", "empty/..//", "./", "l1/../", "%Z/../", "x/.//../"};
            std::string pre = G.pm(400) ? g.pick(odd) : "";
            if (G.pm(30)) pre = std::string((size_t)g.range(200, 2000), 'n') + "/../";
            switch (g.below(12)) {
                case 0:
                    p = "/static/" + g.pick(in);
                    file = root + "/" + p.substr(8);
                    if (file.find('?') != std::string::npos) file.clear();
                    esc = false;
                    break;
                case 1:
                    p = "/static/" + g.pick(ups) + "/" + g.pick(out);
                    break;
                case 2:
                    p = "/static/../" + base + "-old/secret.txt";
                    break;
                case 3: {
                    // absolute path smuggled in
                    p = "/static/" + std::string(G.pm(500) ? "/" : "") + "%F" + "/" + g.pick(out);
                    break;
                }
                case 4:
                    p = "/static" + pct(g, "/../" + g.pick(out));
                    break;
                case 5:
                    p = links.empty() ? "/static/.." : "/static/" + pre + g.pick(links) + (G.pm(600) ? "/" + g.pick(out) : "");
                    break;
                case 6:
                    p = links.empty() ? "/static/." : "/static/" + pre + g.pick(links) + "/" + base + "-old/secret.txt";
                    break;
                case 7:
                    p = "/static-old/secret.txt";
                    break;
                case 8:
                    p = "/static" + std::string(G.pm(500) ? "-old/secret.txt" : "/../secret.txt") + "?" + std::string(G.pm(500) ? "x=/../.." : "");
                    break;
                case 9: {
                    p = "/static";
                    for (i64 q = g.range(1, 7); q > 0; q--) {
                        static const std::vector<std::string> parts = {"..", ".", "", "sub", "...", "..hidden", "l1", "l2", "chain", "up", "empty", "x", "secret.txt", "index.html", "%2e%2e", "..%00", "loop", "missing", "a.txt", "%Z", "l2%Z"};
                        p += "/" + g.pick(parts);
                    }
                    break;
                }
                case 10:
                    p = links.empty() ? "/static/sub/.." : "/static/" + pre + g.pick(links) + "/secret.txt" + (G.pm(100) ? "%Z.txt" : "");
                    break;
                default:
                    p = "/static/" + pre + g.pick(ups) + "/" + base + (G.pm(500) ? "-old" : "2") + "/" + (G.pm(500) ? "secret.txt" : "index.html");
            }
            Rec& r = G.sreq(c, p, file, G.pm(300) ? g.logu(1, 5000) : 0);
            if (esc) r.set("esc", 1);
            if (!links.empty() && G.pm(120)) {
                std::string l = g.pick(links);
                G.rec("relink").set("rq", r.get("id")).sets("name", root + "/" + l).sets("to", target());
            } else if (G.pm(15))
                G.rec("relink").set("rq", r.get("id")).sets("name", root + "/sub").sets("to", target());
        }
        c.c.set("ed", 1000);
    }
}
void gen_c14(Gen& G) {
    Rng& g = G.g;
    G.world(200, g.range(200, 800));
    bool app = G.pm(500);
    G.G().set("app", app);
    static const std::vector<std::string> exts = {"html", "css", "js", "json", "png", "txt", "bin", "svg", "pdf", "woff2", "htm", "xml", "jpg", "jpeg", "gif", "ico", "zip", "woff", "ttf", "webp", "dat", "tar", "TXT", "html.txt", "txt.html", "min.js", "json.zip", "x"};
    std::vector<std::string> files;
    bool big = false;
    for (i64 k = g.range(1, 6); k > 0; k--) {
        std::string n = (G.pm(300) ? "d/" : "") + std::string("f") + std::to_string(k) + "." + g.pick(exts);
        if (G.pm(80)) n = g.pick(std::vector<std::string>{"index.html", "LICENSE", "d/README", ".hidden", "a b.txt", "v1.2/notes.css", "d.js/data.json"});
        i64 sz = G.pm(100) ? 0 : G.pm(300) ? g.logu(1, 400000) : g.logu(1, 20000);
        if (k == 1 && G.pm(30)) {
            sz = g.logu(1 << 20, 6 << 20);
            big = true;
        }
        G.rec("file").set("c", 10 + k).set("n", sz).sets("name", "www/" + n);
        files.push_back(n);
    }
    bool hole = G.pm(40);  // a file too large for 32 bits, of which only the length is ever asked
    if (hole) G.rec("file").set("hole", 1).set("n", (G.pm(500) ? 1ll << 31 : 1ll << 32) + g.range(-2, 5000)).sets("name", "www/disk.img");
    G.rec("root").sets("path", "www");
    bool nf = app && G.pm(600);
    if (nf) {
        G.rec("file").set("c", 500).set("n", g.logu(1, 30000)).sets("name", "nf/404.html");
        G.rec("nf").sets("name", "nf/404.html");
    }
    bool faults = G.pm(700);
    if (faults) {
        Rec& f = G.rec("fsfault");
        if (G.pm(400)) f.set("p_open", g.logu(20, 500));
        if (G.pm(500)) f.set("p_read", g.logu(20, 500));
        if (G.pm(400)) f.set("p_stat", g.logu(20, 300));
        if (G.pm(500)) f.set("p_short", g.logu(50, 1000));
        if (G.pm(300)) f.set("p_eintr", g.logu(50, 500));
    }
    if (G.pm(300)) G.sysfaults(700);
    Opt o;
    for (i64 k = g.range(1, 3); k > 0; k--) {
        ClientScn& c = G.client(g.range(0, 50000), WB, big ? 0 : 250);
        G.hello(c);
        for (i64 n = g.range(2, 14); n > 0; n--) {
            if (G.pm(100)) {
                G.req(c, o).i.erase("nopath");
                if (nf) c.steps.back().set("p", 0);
                continue;
            }
            if (hole && G.pm(300)) {
                G.sreq(c, "/static/disk.img", "www/disk.img").set("m", 6);
                continue;
            }
            std::string f = g.pick(files);
            bool miss = G.pm(nf ? 300 : 80);
            Rec& r = G.sreq(c, miss ? (nf && G.pm(500) ? "/missing" : "/static/missing.html") : f == "index.html" && G.pm(500) ? (G.pm(500) ? "/static" : "/static/") : "/static/" + f + (G.pm(100) ? "?v=1" : ""), miss ? "" : "www/" + f, G.pm(400) ? g.logu(1, 10000) : 0);
            if (G.pm(350)) {
                Rec& m = G.rec("mut");
                m.set("rq", r.get("id")).set("k", g.range(1, 14)).set("op", g.below(4)).set("n", G.pm(300) ? 0 : g.logu(1, 60000)).sets("name", miss && nf ? "nf/404.html" : "www/" + f);
            }
            if (G.pm(300)) G.add(c, "await").set("k", 0);
        }
        c.c.set("ed", 1000);
    }
    if (!nf) G.probe_client();
}
void gen_c15(Gen& G) {
    Rng& g = G.g;
    G.world(300, g.range(200, 1500));
    G.G().set("app", 1).set("log", 1).set("loglevel", G.pm(300) ? 2 : 6);
    if (G.pm(250)) G.G().set("p_log", g.logu(5, 400)).set("stderr_null", 1);
    G.sysfaults(500);
    G.jumps(400);
    if (G.pm(400)) G.G().set("tz", g.range(1, 4));
    if (G.pm(200)) G.G().set("oldlog", g.logu(1, 300));
    Opt o;
    o.bl = 40000;
    if (G.pm(250)) o.bl = 400000;
    o.p_nf = 200;
    o.p_400 = 80;
    o.p_thr = 60;
    o.p_cancel = 30;
    if (G.pm(200)) {
        G.rec("file").set("c", 500).set("n", g.logu(1, 3000)).sets("name", "nf/404.html");
        G.rec("nf").sets("name", "nf/404.html");
    }
    bool nf = !G.s.faults.empty() && G.s.faults.back().kind == "nf";
    bool st = G.pm(250);
    if (st) {
        G.rec("file").set("c", 11).set("n", g.logu(1, 30000)).sets("name", "www/a.txt");
        G.rec("root").sets("path", "www");
    }
    auto weird = [&](const char* pre) {
        std::string v = std::string(pre) + "%U";
        static const std::vector<std::string> bits = {"\"", "\" 200 0 \"-\" \"-\"", "\\", "\\\"", "\n", "\r\n", "\n10.0.0.1 - - [01/Jan/2030:00:00:00 +0000] \"GET / HTTP/2\" 200 5 \"-\" \"x\"", "\t", "\x1b[2J", "\x7f", "\xff\xfe", "%s%n", "{}", std::string(1, '\0'), " ", "[x]", "\xc2\x85", "\\x22"};
        for (i64 k = g.range(1, 3); k > 0; k--) {
            v += g.pick(bits);
            if (G.pm(300)) v += "z";
        }
        if (G.pm(300)) v += "%U";
        return v;
    };
    for (i64 k = g.range(1, 4); k > 0; k--) {
        ClientScn& c = G.client(g.range(0, 100000), WB, 150);
        if (G.pm(700)) {
            c.c.set("zl", 1);
            c.c.i.erase("rate");
        }
        G.hello(c);
        for (i64 n = g.range(1, 14); n > 0; n--) {
            if (G.pm(o.p_ctl)) G.ctl(c, o);
            if (st && G.pm(200)) {
                G.sreq(c, G.pm(300) ? "/static/none.txt" : G.pm(200) ? "/static/../x" : "/static/a.txt", "", 0);
                continue;
            }
            Rec& r = G.req(c, o);
            if (nf && r.get("p") == 8) r.set("p", 1);
            if (G.pm(150)) r.sets("ua", weird("ua-"));
            if (G.pm(40)) r.sets("ua", "ua-%U" + std::string((size_t)g.logu(100, 3900), 'u'));
            if (G.pm(150)) r.sets("ref", weird("https://x/"));
            else if (G.pm(300)) r.sets("ref", "https://example.test/%U");
            if (G.pm(100)) r.sets("ua", "Mozilla/5.0 (X11; Linux) %U");
            if (G.pm(100)) {
                r.sets("path", weird("/p/")).set("x", nf ? X_STATIC : X_404).set("p", 8);
                r.i.erase("nopath");
                r.i.erase("thr");
            }
            if (G.pm(20)) {
                r.sets("ua", "").sets("ref", "https://example.test/%U");
            }
            if (G.pm(o.p_cancel)) G.add(c, "cancel");
            if (G.pm(200)) G.add(c, "await").set("k", g.below(2));
        }
        if (G.pm(150)) G.add(c, G.pm(500) ? "rst" : "close", g.logu(1, 100000)).set("ord", 1);
        c.c.set("ed", 1000);
    }
    if (G.pm(250)) {
        Rec f{"stop", {}, {}};
        f.set("at", g.range(1000, G.calm)).set("how", g.below(2));
        G.s.faults.push_back(f);
    }
}
void gen_c22(Gen& G) {
    Rng& g = G.g;
    G.world(1000, g.range(100, 600));
    G.G().set("app", G.pm(600)).set("loglevel", 6);
    static const std::vector<std::string> cert = {"rsa", "ec", "rsa2", "combo", "ed", "text", "chain", "rev", "der", "other", "trunc", "garbage", "empty", "dir", "missing", "dangling", "none"},
                                          key = {"rsa", "ec", "rsa2", "combo", "ed", "text", "chain", "rev", "der", "enc", "other", "pub", "trunc", "garbage", "empty", "dir", "missing", "dangling", "none"};
    std::string c = g.pick(cert), k = g.pick(key);
    switch (g.below(4)) {
        case 0:  // a pair
            k = c = cert[g.below(8)];
            break;
        case 1:  // one side is right
            (G.pm(500) ? c : k) = cert[g.below(8)];
            break;
        case 2: {
            std::string& x = G.pm(500) ? c : k;
            x = cert[g.below(8)];
            (&x == &c ? k : c) = cert[g.below(8)];
            break;
        }
        default:
            break;
    }
    G.rec("tls").sets("cert", c).sets("key", k).set("env", g.below(2));
    if (G.pm(400)) {
        Rec& f = G.rec("fsfault");
        if (G.pm(400)) f.set("p_open", g.logu(20, 700));
        if (G.pm(500)) f.set("p_read", g.logu(20, 700));
        if (G.pm(400)) f.set("p_stat", g.logu(20, 700));
        if (G.pm(600)) f.set("p_short", g.logu(50, 1000));
    }
    if (G.pm(250)) {
        bool x = G.pm(500);
        G.rec("tlsswap").set("k", g.range(1, 9)).set("key", x).sets("to", x ? g.pick(key) : g.pick(cert));
    }
    if (G.pm(300)) G.sysfaults(500);
    Opt o;
    o.bl = 2000;
    for (i64 n = g.range(1, 3); n > 0; n--) {
        ClientScn& cl = G.wb(g.range(0, 60000), (int)g.logu(1, 5), o, 0);
        cl.c.set("ed", 1000);
    }
}
void gen_c21(Gen& G) {
    Rng& g = G.g;
    G.world(250, g.range(200, 1500));
    if (G.pm(400)) G.sysfaults(600);
    // none of these is the beginning of another
    static const std::vector<std::vector<std::string>> sets = {{"/static", "/app", "/a/b"}, {"/s", "/app/", "/x"}, {"/files/", "/a", "/static/other"}};
    std::vector<std::string> prefixes = g.pick(sets);
    for (size_t k = prefixes.size(); k > 1; k--) std::swap(prefixes[k - 1], prefixes[g.below(k)]);
    prefixes.resize(G.pm(200) ? 0 : G.pm(500) ? 1 : g.range(2, 3));
    std::vector<std::string> files = {"index.html", "a.txt", "d/b.css", "GET"};
    std::vector<std::string> pool = {"/", "/app", "/app/1", "/app/1/", "/app/12", "/App/1", "/x", "/a/b/c", "/_ion", "*", "/static", "/static/other", "/app/1?x=1", "/app/1?", "/app//1", "/app/./1", "/static?x", "/app/1#y", "/x/../app/1"};
    std::map<std::string, std::string> file_of;
    for (size_t d = 0; d < prefixes.size(); d++) {
        std::string dir = "www" + (d ? std::to_string(d) : std::string());
        const std::string& prefix = prefixes[d];
        std::string slash = prefix.back() == '/' ? "" : "/";
        for (size_t k = 0; k < files.size(); k++) {
            if (d && k != 0 && G.pm(500)) continue;  // not in every directory
            G.rec("file").set("c", 10 + (i64)(k + 10 * d)).set("n", g.logu(1, 9000)).sets("name", dir + "/" + files[k]);
            pool.push_back(prefix + slash + files[k]);
            file_of[prefix + slash + files[k]] = dir + "/" + files[k];
        }
        file_of[prefix] = file_of[prefix + slash] = dir + "/index.html";
        pool.push_back(prefix + slash);
        pool.push_back(prefix + slash + "missing");
        if (!d) G.rec("root").sets("path", "www");
    }
    bool mapped = !prefixes.empty();
    while (pool.size() > 4 && G.pm(850)) pool.erase(pool.begin() + (long)g.below(pool.size()));
    // registrations, in an order of their own
    i64 nr = g.range(0, 24), nm = G.pm(700) ? g.range(0, 6) : 0;
    std::vector<i64> map_at;
    for (size_t d = 0; d < prefixes.size(); d++) map_at.push_back(g.range(0, nr + nm));
    for (i64 k = nr + nm, i = 0; k >= 0; k--, i++) {
        for (size_t d = 0; d < prefixes.size(); d++)
            if (i == map_at[d]) {
                Rec& m = G.rec("map");
                m.sets("prefix", prefixes[d]);
                if (d) m.sets("dir", "www" + std::to_string(d));
            }
        if (!k) break;
        if ((i64)g.below((u64)k) < nm) {
            nm--;
            G.rec("mw").set("k", g.range(0, 2));
        } else
            G.rec("route").sets("path", g.pick(pool)).set("m", G.pm(600) ? (G.pm(500) ? 0 : 6) : (i64)g.below(7));
    }
    Opt o;
    o.p_thr = 40;
    o.p_400 = 20;
    o.p_cancel = 10;
    o.bl = 20000;
    for (i64 k = g.range(1, 5); k > 0; k--) {
        ClientScn& c = G.client(g.range(0, 200000), WB, 150);
        G.hello(c);
        for (i64 n = g.range(2, 30); n > 0; n--) {
            if (G.pm(80)) G.ctl(c, o);
            Rec& r = G.req(c, o);
            std::string p = g.pick(pool);
            r.sets("path", p).set("m", G.pm(600) ? (G.pm(500) ? 0 : 6) : (i64)g.below(7));
            if (mapped && file_of.count(p)) r.sets("file", file_of[p]);
            if (G.pm(200)) G.add(c, "await").set("k", g.below(3));
        }
    }
}
void gen_c16(Gen& G) {
    Rng& g = G.g;
    G.world(200, g.range(200, 3000));
    G.G().set("status", 1).set("app", G.pm(600));
    G.sysfaults(500);
    G.jumps(500);
    G.aged(500);
    Opt o;
    o.p_thr = G.pm(400) ? 150 : 0;
    o.p_us = G.pm(500) ? 300 : 0;
    o.us = 20000;
    o.p_nf = 150;
    o.p_400 = 40;
    o.bl = 2000;
    for (i64 k = g.range(1, 5); k > 0; k--) {
        ClientScn& c = G.client(g.range(0, 300000), WB, 100);
        G.hello(c);
        Opt q = o;
        q.gap = G.pm(300) ? 400000 : 5000;
        for (i64 n = g.range(1, 16); n > 0; n--) {
            if (G.pm(400)) {
                Rec& r = G.add(c, "req", G.gap(q));
                r.set("id", G.rid++).set("m", 0).set("x", X_STATUS).sets("path", "/_ion/status");
            } else
                G.req(c, q);
        }
        Rec& r = G.add(c, "req", 0);
        r.set("id", G.rid++).set("m", 0).set("x", X_STATUS).sets("path", "/_ion/status");
        c.c.set("ed", 1000);
        if (G.pm(150)) G.add(c, G.pm(500) ? "rst" : "close", g.logu(1, 100000)).set("ord", 1);
    }
    if (G.pm(300)) G.misbehave(g.range(0, 300000), o);
    if (G.pm(40)) {  // handlers which take minutes
        std::vector<Rec*> app;
        for (auto& c : G.s.clients)
            for (auto& r : c.steps)
                if (r.kind == "req" && r.get("x") != X_STATUS && r.get("p") < 8) app.push_back(&r);
        i64 sum = 0;
        for (i64 k = app.empty() ? 0 : g.range(1, 4); k > 0; k--) {
            Rec* r = g.pick(app);
            if (r->get("us") > 1000000) continue;
            sum += r->set("us", g.logu(1000000, 2500000000ll)).get("us");
        }
        G.G().set("tmax", 60000000 + sum);
    }
}

void gen_main(Gen& G, const std::string& p) {
    Rng& g = G.g;
    Opt o;
    if (p == "C01") {
        G.world(500, g.range(300, 3000));
        G.sysfaults(700);
        o.bl = G.pm(300) ? 1500000 : 150000;
        o.p_big = 600;
        o.p_cancel = 20;
        o.rv = 400;
        for (i64 k = g.range(1, 4); k > 0; k--) {
            ClientScn& c = G.wb(g.range(0, 100000), (int)g.logu(1, 16), o, 850);
            if (G.pm(150)) G.add(c, G.pm(500) ? "rst" : "close", g.logu(1, 1000000)).set("ord", g.below(2)).set("notify", 1);
            else if (G.pm(150)) {
                size_t at = 1 + g.below(c.steps.size());
                Rec r{"pause", {}, {}};
                r.set("d", g.logu(1, 3000));
                c.steps.insert(c.steps.begin() + (long)at, r);
                G.add(c, "resume", g.logu(1000, 3000000));
            }
        }
        G.giant(6, o);
    } else if (p == "C02") {
        G.world(500, g.range(300, 3000));
        if (G.pm(400)) G.sysfaults(500);
        o.p_cont = 250;
        o.p_up = 300;
        o.p_pad = 200;
        o.vl = G.pm(200) ? 4000 : 60;
        if (G.pm(200)) {  // header blocks of several kilobytes, so that what a record carries takes more than one read
            o.vl = 4000;
            o.nh = (int)g.range(10, 40);
            o.up = 60000;
        }
        for (i64 k = g.range(1, 4); k > 0; k--) {
            ClientScn& c = G.wb(g.range(0, 100000), (int)g.logu(1, 24), o, 300);
            c.c.set("seg", g.range(1, 4));
            if (G.pm(250)) c.c.set("seg", 0).set("rec", 0);
            if (G.pm(250)) c.c.set("seg", 0).set("rcap", 1 << 17);
            if (G.pm(500)) {
                // everything in one burst, then the end of the stream
                if (G.pm(500))
                    for (auto& st : c.steps) st.i.erase("d");
                G.goodbye(c);
            }
        }
    } else if (p == "C03") {
        G.world(400, g.range(300, 2000));
        G.sysfaults(600);
        o.p_ctl = 300;
        o.bl = G.pm(250) ? 200000 : 60000;
        o.p_thr = 30;
        o.p_cancel = 20;
        o.p_400 = 60;
        o.p_late = 100;
        if (G.pm(300)) o.npath = (int)g.range(1, 3);
        for (i64 k = g.range(1, 7); k > 0; k--) G.wb(g.range(0, 300000), (int)g.logu(1, 40), o, 250);
        G.marathon(15, o);
        G.giant(6, o);
    } else if (p == "C04") {
        G.world(600, g.range(500, 3000));
        G.sysfaults(400);
        o.bl = 50000;
        o.gap = 60000;
        for (i64 k = g.range(1, 3); k > 0; k--) {
            G.wb(g.range(0, 300000), (int)g.logu(2, 20), o, 250);
        }
        for (i64 k = g.range(1, 9); k > 0; k--) G.misbehave(g.range(0, G.calm), o);
        G.starved(150, o);
        // (never with a crowd at the door as well: a busy server lets in one a round)
        if (G.pm(80))
            G.pm(500) ? G.deluge(g.range(0, G.calm)) : G.deluges(o);
        else if (G.pm(50))
            G.rush(g.range(0, G.calm / 2));
        else if (G.pm(30))
            G.idle_rush();
        else if (G.pm(60))
            for (i64 k = g.range(20, 100); k > 0; k--) {
                ClientScn& c = G.client(g.range(0, G.calm), FUZZ, 0);
                G.add(c, G.pm(500) ? "close" : "rst", g.logu(1, 100000)).set("ord", 1);
            }
        G.probe_client();
    } else if (p == "C05") {
        G.world(500, g.range(500, 3000));
        G.sysfaults(700);
        if (G.pm(300)) G.G().set("p_pollerr", g.logu(5, 200));
        if (G.pm(200)) G.G().set("p_sockopt", g.logu(50, 500));
        G.accept_faults(500);
        o.bl = 100000;
        o.gap = 60000;
        o.p_thr = 60;
        for (i64 k = g.range(0, 3); k > 0; k--) G.wb(g.range(0, G.calm), (int)g.logu(1, 10), o, 400);
        for (i64 k = g.range(1, 10); k > 0; k--) G.misbehave(g.range(0, G.calm), o);
        for (int k = 0; k < 3; k++) G.victim(250);
        G.starved(200, o);
        G.probe_client();
    } else if (p == "C06") {
        G.world(500, g.range(500, 2500));
        G.sysfaults(400);
        o.gap = 20000;
        for (i64 k = g.range(0, 2); k > 0; k--) G.wb(g.range(0, 300000), (int)g.logu(1, 8), o, 100);
        for (i64 k = g.range(1, 8); k > 0; k--) {
            ClientScn& c = G.client(g.range(0, G.calm), BAD, 100);
            c.c.i.erase("rate");
            G.bad(c, o, true);
        }
    } else if (p == "C07") {
        G.world(200, g.range(500, 2500));
        if (G.pm(300)) G.sysfaults(400);
        o.nh = G.pm(300) ? 40 : 10;
        o.vl = G.pm(200) ? 4000 : G.pm(500) ? 300 : 30;
        o.p_cont = 250;
        o.p_pad = 250;
        o.p_prio = 250;
        o.p_tsu = 200;
        o.p_tr = 80;
        o.p_late = 400;
        o.bl = 300;
        o.rn = 1;
        o.p_gap = 200;
        o.p_any = 100;
        for (i64 k = g.range(1, 3); k > 0; k--) G.wb(g.range(0, 100000), (int)g.logu(2, 80), o, 150);
        G.marathon(15, o);
    } else if (p == "C08") {
        G.world(200, g.range(500, 2500));
        if (G.pm(300)) G.sysfaults(400);
        o.rn = G.pm(300) ? 60 : 12;
        o.rv = G.pm(200) ? 4000 : G.pm(500) ? 300 : 30;
        o.bl = 300;
        o.nh = 2;
        o.p_gap = 300;
        o.p_nf = 40;
        o.p_any = 100;
        o.p_huge = 8;
        if (G.pm(30)) {  // header blocks of every size around one which fills its frames exactly
            ClientScn& c = G.client(g.range(0, 100000), WB, 0);
            G.hello(c);
            c.c.i.erase("pl");
            i64 full = 16384 * (G.pm(600) ? 1 : g.range(2, 3));
            for (i64 n = full - 150; n < full - 20; n++) {
                Rec& r = G.req(c, o);
                for (auto k : {"rn", "thr", "us", "dn", "tr", "nopath"}) r.i.erase(k);
                r.set("m", 0).set("p", 0).set("st", 200).set("bl", 0).set("xl", n);
                if (r.get("id") % 40 == 0) G.add(c, "await").set("k", 20);
            }
        }
        G.marathon(15, o);
        for (i64 k = g.range(1, 3); k > 0; k--) {
            ClientScn& c = G.client(g.range(0, 100000), WB, 150);
            Rec& h = G.hello(c);
            auto hts = [&]() -> i64 { return G.pm(200) ? 0 : G.pm(300) ? g.logu(1, 300) : G.pm(400) ? 4096 : G.pm(500) ? g.logu(100, 5000) : g.logu(4096, 200000); };
            if (G.pm(500)) h.set("hts", hts());
            int pset = G.pm(500) ? (int)g.range(20, 200) : 0;
            for (i64 n = g.logu(2, 90); n > 0; n--) {
                while (G.pm(pset)) {
                    Rec& st = G.add(c, "settings", G.gap(o)).set("hts", hts());
                    if (G.pm(250)) st.set("hts0", hts());
                }
                if (G.pm(100)) G.ctl(c, o);
                G.req(c, o);
                if (G.pm(150)) G.add(c, "await").set("k", g.below(3));
            }
            c.c.set("ed", 1000);
        }
    } else if (p == "C09") {
        i64 linger = G.pm(40) ? g.range(30000, 150000) : g.range(7000, 22000);
        G.world(500, linger);
        G.G().set("linger", linger * 1000).set("cost", 2);
        if (G.pm(300)) G.sysfaults(300);
        G.G().i.erase("p_stall");
        G.jumps(600);
        G.aged(400);
        o.bl = 3000;
        if (G.pm(150)) {  // the server is never without an event for long
            ClientScn& c = G.client(0, WB, 0);
            c.c.i.erase("pl");
            c.c.i.erase("seg");
            G.hello(c);
            i64 every = g.logu(2000, 18000);
            G.add(c, "ping").set("s", g.range(0, 1000000)).set("every", every).set("rep", std::min<i64>(linger * 1000 / every, 4000));
            c.c.set("end", 1);
        }
        if (G.pm(50)) G.deluge(g.range(0, linger * 500));
        for (i64 k = g.range(1, 8); k > 0; k--) {
            i64 t = g.range(0, linger * 500);
            switch (g.below(11)) {
                case 0: {  // says nothing at all
                    ClientScn& c = G.client(t, FUZZ, 0);
                    c.c.set("plain", 1);
                    break;
                }
                case 1: {  // gives up inside the handshake or the preface
                    ClientScn& c = G.client(t, FUZZ, 0);
                    if (G.tls)
                        c.c.set("hslim", g.logu(1, 900));
                    else
                        G.add(c, "raw").sets("hex", hex(std::string("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n").substr(0, g.below(24))));
                    break;
                }
                case 2: {  // connected, preface only
                    ClientScn& c = G.client(t, WB, 0);
                    c.c.set("end", 1);
                    if (G.pm(700)) G.hello(c);
                    break;
                }
                case 3: {  // requests, then silence
                    ClientScn& c = G.wb(t, (int)g.range(1, 4), o, 100);
                    c.c.set("end", 1);
                    break;
                }
                case 4: {  // half a frame, then silence
                    ClientScn& c = G.client(t, FUZZ, 0);
                    G.hello(c);
                    G.add(c, "raw", g.logu(1, 100000)).sets("hex", hex(std::string("\x00\x00\x20\x01\x05\x00\x00\x00\x01\x82", 10)));
                    break;
                }
                case 5: {  // a response nobody reads
                    ClientScn& c = G.client(t, FUZZ, 0);
                    c.c.set("nr", 1).set("scap", g.logu(2000, 40000));
                    if (!G.tls) G.add(c, "pause");
                    G.hello(c);
                    Opt q = o;
                    q.bl = 200000;
                    q.p_big = 1000;
                    G.traffic(c, (int)g.range(1, 3), q);
                    Rec& r = G.req(c, q);
                    r.set("bl", 150000).set("p", 0).set("st", 200);
                    r.i.erase("nopath");
                    if (G.tls) G.add(c, "pause", g.logu(100, 3000));
                    break;
                }
                case 6:
                case 7: {  // always something within the deadline
                    ClientScn& c = G.client(t, WB, 50);
                    c.c.i.erase("pl");
                    G.hello(c);
                    i64 total = 0;
                    while (total < linger * 1000 - t) {
                        i64 d = G.pm(600) ? g.range(4200000, 4850000) : g.range(500000, 4500000);
                        if (G.pm(500))
                            G.add(c, "ping", d).set("s", (i64)g.below(1000000));
                        else
                            G.req(c, o).set("d", d);
                        total += d;
                    }
                    c.c.set("end", 1);
                    break;
                }
                case 8: {  // an upload that trickles in
                    ClientScn& c = G.client(t, WB, 0);
                    c.c.i.erase("pl");
                    G.hello(c);
                    if (G.pm(400)) {  // a frame which comes in pieces, each just before the deadline
                        std::string u("\x00\x00\x28\xfe\x00\x00\x00\x00\x00", 9);
                        u.resize(49, 'u');
                        size_t at = 0;
                        while (at < u.size()) {
                            size_t n = std::min<size_t>(u.size() - at, (size_t)g.range(5, 20));
                            G.add(c, "raw", g.range(3500000, 4850000)).sets("hex", hex(u.substr(at, n)));
                            at += n;
                        }
                    } else
                    for (i64 n = g.range(3, 8); n > 0; n--) {
                        // whole small frames, each just before the deadline
                        G.add(c, "unk", g.range(3500000, 4850000)).set("s", (i64)g.below(1000)).set("n", g.range(0, 20));
                    }
                    G.req(c, o).set("d", g.range(3000000, 4800000));
                    c.c.set("end", G.pm(500));
                    break;
                }
                case 9: {  // a download that trickles out
                    ClientScn& c = G.client(t, WB, 0);
                    c.c.i.erase("pl");
                    c.c.set("scap", g.logu(4000, 20000)).set("rate", g.range(9000, 40000)).set("dchunk", 3000);
                    G.hello(c);
                    Rec& r = G.req(c, o);
                    r.set("bl", g.range(50000, 200000)).set("p", 1).set("st", 200);
                    r.i.erase("nopath");
                    c.c.set("end", G.pm(500));
                    break;
                }
                default: {  // partitioned for a while
                    ClientScn& c = G.wb(t, (int)g.range(1, 4), o, 100);
                    c.c.set("pt", g.logu(100, 3000000)).set("pl", g.range(1000000, 9000000)).set("end", 1);
                }
            }
        }
    } else if (p == "C10") {
        G.G().set("mem", 1);
        G.world(250, g.range(1500, 4000));
        bool full = G.pm(650);
        G.sysfaults(300);
        G.G().i.erase("p_stall");
        if (G.pm(400)) G.accept_faults(500);
        o.bl = 3000;
        o.nh = 1;
        o.rn = 0;
        o.p_ctl = 30;
        if (G.pm(150)) {  // all of them end in the same way, and others arrive after that
            int how = (int)g.below(6);
            i64 at = g.range(400000, 1000000), gap = G.pm(500) ? 0 : g.logu(1, 3000);
            i64 m = G.pm(700) ? g.range(125, 132) : g.range(20, 100);
            for (i64 k = 0; k < m; k++) {
                i64 t = g.range(0, 200000);
                ClientScn& c = G.client(t, FUZZ, 0);
                bool hello = how == 4 || how == 5 || G.pm(700);
                if (hello) G.hello(c);
                if (hello && G.pm(300)) G.req(c, o);
                i64 stay = std::max<i64>(1000, at - t + k * gap);
                if (how == 0) {
                    if (hello && G.pm(100)) G.add(c, "ping", g.range(1000, 600000)).set("s", (i64)g.below(1000000));
                    G.add(c, "sleep", 6500000);
                } else if (how <= 3) {
                    static const char* ends[] = {"", "close", "rst", "fin"};
                    G.add(c, ends[how], stay).set("ord", g.below(2)).set("notify", g.below(2)).set("abrupt", G.pm(500));
                } else if (how == 4)
                    G.add(c, "garbage", stay).set("s", (i64)g.below(1 << 30)).set("n", g.logu(30, 3000)).set("wire", G.pm(300));
                else
                    G.add(c, "goaway", stay);
            }
            for (i64 k = g.range(0, 6); k > 0; k--) G.wb(g.range(200000, at), 1, o, 0);
            i64 end = how == 0 ? 5900000 : at + 200000 + m * gap;
            for (i64 k = g.range(3, 20); k > 0; k--) G.wb(end + g.range(0, 1500000), 1, o, 0);
            G.G().set("linger", end + 2000000);
            return;
        }
        i64 n = full ? g.range(120, 170) : g.range(5, 60);
        i64 spread = g.logu(1000, G.calm / 2);
        if (G.pm(250)) {  // every place taken, for most of the run
            n = g.range(3, 25);
            for (i64 k = g.range(126, 134); k > 0; k--) {
                ClientScn& c = G.client(g.range(0, 200000), G.pm(700) ? WB : FUZZ, 0);
                if (c.c.get("role") == WB || G.pm(500)) G.hello(c);
                if (G.pm(100)) G.req(c, o);
                i64 stay = G.pm(900) ? g.range(G.calm - 200000, G.calm) : g.range(300000, G.calm);
                if (c.c.get("role") == WB)
                    G.add(c, "ping", stay).set("s", (i64)g.below(1000000)), c.c.set("ed", g.logu(10, 200000));
                else
                    G.add(c, G.pm(500) ? "close" : "rst", stay).set("ord", 1);
            }
        }
        for (i64 k = 0; k < n; k++) {
            i64 t = g.range(0, spread);
            int kind = (int)g.below(10);
            if (kind < 4) {
                ClientScn& c = G.wb(t, (int)g.below(3), o, 30);
                if (G.pm(700)) G.add(c, "sleep", g.range(100000, G.calm));
                if (G.pm(300)) G.goodbye(c);
                c.c.set("end", G.pm(200)).set("ed", g.logu(10, 500000));
            } else if (kind < 5)
                G.misbehave(t, o);
            else if (kind < 8) {
                ClientScn& c = G.client(t, FUZZ, 0);
                if (G.pm(500)) G.hello(c);
                static const std::vector<std::string> ends = {"close", "rst", "fin", "sleep"};
                G.add(c, g.pick(ends).c_str(), g.range(100000, G.calm)).set("ord", g.below(2)).set("notify", g.below(2)).set("abrupt", 1);
            } else {
                ClientScn& c = G.wb(t, 1, o, 0);
                c.c.set("end", 1);
                if (G.pm(200)) c.c.set("victim", 1 << g.below(G.tls ? 3 : 2));
            }
        }
        // later arrivals use the freed places
        for (i64 k = g.range(0, 20); k > 0; k--) G.wb(g.range(spread, G.calm), 1, o, 0);
        if (G.pm(150)) {
            Rec f{"stop", {}, {}};
            f.set("at", g.range(1000, G.calm)).set("how", 2);
            G.s.faults.push_back(f);
        }
    } else if (p == "C11") {
        G.world(400, g.range(50, 3000));
        bool app = G.pm(500);
        G.G().set("app", app).set("loglevel", app ? (G.pm(500) ? 2 : 1) : 6);
        if (app && G.pm(300)) G.G().set("status", 1);
        if (app && G.pm(300)) G.G().set("ut", 1);
        G.sysfaults(600);
        G.G().i.erase("p_stall");
        o.bl = 200000;
        o.p_big = 300;
        o.p_us = 300;
        o.us = 20000;
        bool many = G.pm(100);
        for (i64 k = many ? g.range(40, 135) : g.range(0, 5); k > 0; k--) {
            ClientScn& c = G.wb(g.range(0, G.calm), (int)g.logu(1, many ? 3 : 20), o, 400);
            if (G.pm(300)) G.add(c, G.pm(600) ? "rst" : "close", g.logu(1, 100000)).set("ord", g.below(2));
        }
        for (i64 k = g.range(0, 3); k > 0; k--) G.misbehave(g.range(0, G.calm), o);
        if (G.pm(60)) G.deluge(g.range(0, G.calm));
        if (app && G.pm(300)) {
            G.G().set("loglevel", G.pm(500) ? 2 : 0);
            Rec f{"pipe", {}, {}};
            f.set("at", g.range(1000, G.calm));
            G.s.faults.push_back(f);
            // somebody connects later, so that there is something to log
            Opt q;
            G.wb(G.calm + 5000, 1, q, 0);
        } else if (!app && G.pm(60))
            G.G().set("stop0", 1);
        else if (G.pm(900)) {
            Rec f{"stop", {}, {}};
            f.set("at", G.pm(150) ? g.range(0, 300) : g.range(0, G.calm)).set("how", app ? (i64)g.below(2) : 2);
            if (G.pm(500)) f.set("again", g.logu(1, 30000));
            G.s.faults.push_back(f);
        }
    } else if (p == "C12") {
        G.world(400, g.range(500, 3000));
        G.sysfaults(400);
        o.bl = 400000;
        o.p_big = 700;
        o.gap = 1000;
        o.p_up = 40;
        for (i64 k = g.range(1, 3); k > 0; k--) {
            ClientScn& c = G.client(g.range(0, 100000), WB, 200);
            c.c.set("scap", g.logu(G.tls ? 3000 : 1000, 100000)).set("rcap", g.logu(2000, 200000));
            G.hello(c);
            G.add(c, "awaithello");
            G.add(c, "pause");
            G.traffic(c, (int)g.range(3, 60), o);
            if (G.pm(400)) {
                G.add(c, "resume", g.logu(1000, 1000000));
                if (G.pm(500)) G.traffic(c, (int)g.range(1, 10), o);
            }
            for (auto& st : c.steps)
                if (st.kind == "await") st.kind = "sleep";
            c.c.set("ed", 1000);
        }
        if (G.pm(500)) G.wb(g.range(0, 300000), 4, Opt{}, 0);
    } else if (p == "C17") {
        G.world(300, g.range(300, 2000));
        G.sysfaults(400);
        o.p_thr = (int)g.range(50, 700);
        o.bl = 30000;
        o.rn = 8;
        for (i64 k = g.range(1, 5); k > 0; k--) G.wb(g.range(0, 300000), (int)g.logu(1, 30), o, 250);
        G.probe_client();
    } else if (p == "C18") {
        G.world(300, g.range(300, 2000));
        G.sysfaults(600);
        o.p_ctl = (int)g.range(300, 800);
        o.bl = 40000;
        for (i64 k = g.range(1, 4); k > 0; k--) {
            ClientScn& c = G.wb(g.range(0, 300000), (int)g.logu(1, 16), o, 350);
            if (G.pm(200)) G.goodbye(c);
        }
    } else if (p == "C19") {
        G.world(200, g.range(300, 2000));
        if (G.pm(300)) G.sysfaults(400);
        o.bl = 300000;
        o.p_big = 500;
        o.rn = G.pm(300) ? 60 : 4;
        o.rv = G.pm(300) ? 4000 : 40;
        if (G.pm(150)) {  // header blocks of more than one frame
            o.rn = (int)g.range(60, 200);
            o.rv = 4000;
            o.bl = 3000;
        }
        for (i64 k = g.range(1, 3); k > 0; k--) {
            ClientScn& c = G.client(g.range(0, 100000), WB, 250);
            Rec& h = G.add(c, "hello");
            if (G.pm(500)) h.set("iws", g.logu(1, 100000));
            if (G.pm(400)) h.set("mfs", g.logu(16384, 100000));
            if (G.pm(300)) h.set("wu", g.logu(1, 1000000));
            c.c.set("wum", 1);
            G.traffic(c, (int)g.logu(1, 12), o);
            c.c.set("ed", 1000);
        }
    } else if (p == "C25") {
        G.world(350, g.range(300, 3000));
        G.sysfaults(500);
        o.p_up = (int)g.range(300, 1000);
        o.up = G.pm(300) ? 1500000 : 300000;
        o.bl = 60000;
        o.p_ctl = 100;
        o.p_tr = 40;
        o.p_late = 150;
        o.p_cancel = 20;
        if (G.pm(40)) G.rush(g.range(0, G.calm / 2));
        for (i64 k = g.range(1, 3); k > 0; k--) {
            ClientScn& c = G.wb(g.range(0, 300000), (int)g.logu(1, 16), o, 200);
            c.c.set("rate", 0);
            c.c.i.erase("pl");
            if (G.pm(250)) {  // very many small frames, most of them padding
                i64 fs = g.logu(20, 2000), pad = g.range(1, 201);
                for (auto& st : c.steps)
                    if (st.get("dn")) {
                        st.set("dfs", fs).set("dpad", pad);
                        st.set("dn", std::min<i64>(st.get("dn"), fs * 3000));
                    }
            }
            if (G.pm(150)) G.goodbye(c);
        }
        G.probe_client();
    } else if (p == "C24") {
        G.world(350, g.range(500, 3000));
        G.G().set("mem", 1).set("loglevel", 6);  // (a log line for each table entry of each flooding request takes its time)
        if (G.pm(300)) G.sysfaults(300);
        o.bl = 60000;
        o.nh = 3;
        for (i64 k = g.range(0, 2); k > 0; k--) G.wb(g.range(0, G.calm), (int)g.logu(1, 30), o, 100);
        if (G.pm(150)) {  // clients which would remember a lot of what they are sent
            G.G().i.erase("p_short");
            Opt w = o;
            w.bl = 600;
            w.rn = 60;
            w.rv = 4000;
            i64 hts = G.pm(500) ? 4294967295ll : g.logu(1 << 20, 1 << 30);
            for (i64 k = g.range(2, 6); k > 0; k--) {
                ClientScn& c = G.wb(g.range(0, 50000), (int)g.range(40, 90), w, 700);
                for (auto& st : c.steps)
                    if (st.kind == "hello") st.set("hts", hts).i.erase("hts0");
                    else if (st.kind == "req") st.set("rn", 60).set("rv", 8000).set("rs", (i64)g.below(100000));
                c.c.i.erase("rate");
            }
        }
        for (i64 k = g.range(1, 4); k > 0; k--) {
            ClientScn& c = G.client(g.range(0, G.calm / 2), FUZZ, 100);
            c.c.i.erase("rate");
            G.hello(c);
            if (G.pm(150)) G.add(c, "pause");
            for (i64 n = g.range(1, 5); n > 0; n--) {
                if (G.pm(500)) {
                    Rec& b = G.add(c, "bomb", g.logu(1, 100000));
                    b.set("k", g.below(4)).set("n", g.logu(10, 70000)).set("nl", g.logu(1, 4096)).set("vl", g.logu(1, 4096)).set("s", g.below(1000000)).set("req", g.below(2)).set("huff", g.below(2));
                    if (G.pm(400)) b.set("tsu", G.pm(500) ? 65536 : g.logu(1, 65536));
                    if (G.pm(200)) b.set("fs", g.logu(200, 16384));
                    if (G.pm(100)) b.set("open", 1);
                } else if (G.pm(60)) {  // a header block or a body without end
                    G.add(c, "flood", g.logu(1, 100000)).set("k", std::array<i64, 3>{0, 4, 6}[g.below(3)]).set("n", g.range(1500, 3000)).set("sz", 16384 - (i64)g.below(400)).set("s", g.below(1000000));
                    break;
                } else {
                    i64 kind = g.below(8), sz = g.logu(1, 4000);
                    if (G.pm(200)) sz = 16000;
                    if (kind == 7) sz = std::min<i64>(sz, 3900);
                    i64 n = std::min<i64>(g.logu(20, 20000), 3000000 / (sz + 30));
                    if (G.pm(150)) sz = kind == 1 ? 8 : g.logu(1, 8), n = g.range(30000, 75000);
                    G.add(c, "flood", g.logu(1, 100000)).set("k", kind).set("n", n).set("sz", sz).set("s", g.below(1000000));
                }
            }
            if (G.pm(500)) G.add(c, "sleep", g.range(1000, 2000000));
            c.c.set("end", G.pm(300));
        }
        if (G.pm(150))
            for (i64 k = g.range(5, 60); k > 0; k--) {
                ClientScn& c = G.client(g.range(0, G.calm), FUZZ, 0);
                if (G.pm(700)) G.hello(c);
                G.add(c, G.pm(300) ? "sleep" : G.pm(500) ? "close" : "rst", g.logu(1, 1000000)).set("ord", 1);
            }
    } else {  // C20
        G.world(400, g.range(500, 3000));
        G.sysfaults(1000);
        G.G().set("poll", g.below(2));
        o.bl = 150000;
        o.p_big = 300;
        o.p_us = 300;
        o.gap = 100000;
        for (i64 k = g.range(1, 6); k > 0; k--) {
            ClientScn& c = G.wb(g.range(0, G.calm / 2), (int)g.logu(1, 20), o, 700);
            if (G.pm(300)) {
                Rec r{"pause", {}, {}};
                r.set("d", g.logu(1, 100000));
                c.steps.insert(c.steps.begin() + (long)(1 + g.below(c.steps.size())), r);
            }
            if (G.pm(300)) c.c.set("pt", g.logu(100, 1000000)).set("pl", g.logu(10000, 3000000));
        }
        G.accept_faults(150);
        if (G.pm(300)) G.misbehave(g.range(0, G.calm), o);
        if (G.pm(60))
            G.deluge(g.range(0, G.calm));
        else if (G.pm(60))
            G.rush(g.range(0, G.calm / 2));
        else if (G.pm(30))
            G.idle_rush();
        G.probe_client();
    }
}
}  // namespace

Scenario generate(const std::string& profile, u64 seed) {
    Gen G(profile, seed);
    if (profile == "C13")
        gen_c13(G);
    else if (profile == "C14")
        gen_c14(G);
    else if (profile == "C15")
        gen_c15(G);
    else if (profile == "C16")
        gen_c16(G);
    else if (profile == "C21")
        gen_c21(G);
    else if (profile == "C22")
        gen_c22(G);
    else
        gen_main(G, profile);
    // a custom 404 page takes the place of an application's 404
    bool nf = false;
    for (auto& f : G.s.faults) nf |= f.kind == "nf";
    if (nf)
        for (auto& c : G.s.clients)
            for (auto& r : c.steps)
            {
                if (r.get("st") == 404) r.set("st", 403);
                if (r.get("p") == 6 || r.get("p") == 7) r.set("p", r.get("p") - 3);
            }
    return G.s;
}
std::vector<std::string> profiles() {
    std::vector<std::string> o;
    for (int k = 1; k <= 25; k++) {
        if (k == 23) continue;  // not applicable
        char b[8];
        snprintf(b, sizeof b, "C%02d", k);
        o.push_back(b);
    }
    return o;
}
// Which kinds of violation mean that the property of this profile is broken. (The others are
// some other property's business, even if a run of this profile happens to show them.)
bool counts(const std::string& p, const std::string& c) {
    static const std::set<std::string> life = {"crash", "server_ended", "hang", "ended_unrequested", "blocking"};
    static const std::set<std::string> exact = {"stream_corrupt", "body_mismatch", "resp_status", "resp_headers", "resp_dup", "resp_missing", "tls_corrupt", "hpack_resp", "conn_closed"};
    static const std::set<std::string> once = {"hdr_mismatch", "dup_handled", "phantom", "unhandled", "unserved"};
    static const std::map<std::string, std::set<std::string>> own = {
        {"C01", {"unserved"}},
        {"C02", {"hdr_mismatch", "dup_handled", "phantom", "unhandled", "unserved"}},
        {"C03", {"misrouted", "hdr_mismatch", "dup_handled", "phantom", "unhandled", "unserved"}},
        {"C04", {"hdr_mismatch", "dup_handled", "unhandled", "unserved", "idle_early"}},
        {"C05", {"unserved", "unhandled", "bad_fd", "conn_closed"}},
        {"C06", {"poison_handled", "bad_not_closed", "phantom"}},
        {"C07", {"hdr_mismatch", "conn_closed", "unhandled", "phantom", "dup_handled"}},
        {"C08", {"hpack_resp", "resp_headers", "resp_status", "stream_corrupt", "frame_size", "conn_closed", "resp_missing"}},
        {"C09", {"idle_late", "idle_early", "conn_closed"}},
        {"C10", {"memory_kept", "over_limit_served", "over_limit_waiting", "fd_leak", "bad_fd", "unserved", "dead_kept", "conn_closed"}},
        {"C11", {"stop_late", "stop_status", "server_ended", "ended_unrequested", "crash", "hang"}},
        {"C12", {"buffer_unbounded", "spin", "resp_missing", "unhandled", "body_mismatch", "stream_corrupt", "conn_closed"}},
        {"C13", {"static_escape"}},
        {"C14", {"static_content", "static_length", "static_type", "static_head_body", "static_status", "static_refused", "file_leak", "resp_missing", "conn_closed", "fd_leak", "stream_corrupt"}},
        {"C15", {"log_forged", "log_early", "log_dup", "log_wrong", "log_late", "log_order", "log_missing", "resp_missing", "conn_closed"}},
        {"C16", {"status_page"}},
        {"C17", {"misrouted", "hdr_mismatch", "dup_handled", "unhandled", "unserved"}},
        {"C18", {"settings_first", "ctl_order", "stream_corrupt", "conn_closed"}},
        {"C19", {"frame_size", "flow_control", "stream_corrupt", "resp_missing", "body_mismatch", "conn_closed"}},
        {"C20", {"unhandled", "unserved", "ctl_order"}},
        {"C25", {"upload_stuck", "upload_window", "unserved", "unhandled", "resp_missing", "conn_closed", "hdr_mismatch", "stream_corrupt", "dup_handled", "phantom"}},
        {"C24", {"memory_unbounded", "memory_kept", "unserved", "conn_closed"}},
        {"C22", {"tls_started", "tls_served", "tls_refused", "tls_alpn", "tls_cert", "tls_corrupt", "unserved", "conn_closed"}},
        {"C21", {"misrouted", "mw_order", "resp_status", "resp_headers", "body_mismatch", "unhandled", "static_content", "static_refused", "static_status"}},
    };
    static const std::set<std::string> with_exact = {"C01", "C02", "C03", "C04", "C17", "C20"};
    (void)once;
    auto it = own.find(p);
    if (it != own.end() && it->second.count(c)) return true;
    if (with_exact.count(p) && exact.count(c)) return true;
    if (p != "C13" && p != "C16" && life.count(c)) return true;
    return false;
}
}  // namespace sim
