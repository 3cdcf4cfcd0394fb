// One simulated run: server, clients, faults, oracles.
#pragma once
#include "client.h"

namespace sim {
// runs the scenario in S; never returns
[[noreturn]] void run_world();
void warm_up();

// static file serving (statics.cpp)
void static_setup();                       // creates the files of the scenario
std::string static_dir(const std::string& name);
void static_faults();                      // arms file faults and changes
void static_entry(Req* r);                 // the request has reached the application
void static_check(Req* r);                 // the response is complete
void static_head(Req* r);                  // the response head arrived
void static_done();                        // end of run
extern std::string static_root_arg, static_404_arg;

// access log (accesslog.cpp)
void log_setup();
void log_entry(Req* r);
void log_exit(Req* r);                    // handled by the application
void log_head(Req* r);                     // the client sees the response: the line must be there
void log_write(Conn* c, std::string_view b);
void log_done();
extern std::string log_path;
std::string scratch();                     // scratch directory of this run

// TLS configuration at start (tlsconf.cpp)
struct TlsConf {
    bool on = false, usable = false, env = false, flagged = false;
    std::string cert, key;
};
extern TlsConf TC;
void tlsconf_setup();
void tlsconf_serving();
bool tlsconf_refused(bool failed);
void tlsconf_peer(struct ssl_st* ssl, const std::string& who);
void tlsconf_done();

// memory the server holds (mem.cpp)
struct MemUse {
    bool on = false;
    i64 live = 0, peak = 0, base = 0, biggest = 0;
    i64 bound() const;
};
extern MemUse MU;
void mem_setup();
void mem_done();
void mem_at_rest();

// scenario generation (gen.cpp)
Scenario generate(const std::string& profile, u64 seed);
std::vector<std::string> profiles();
bool counts(const std::string& profile, const std::string& cls);
}  // namespace sim
