// Histories of a server with the bundled services: those of h_srv.cpp, where A may also name a service as its kind:
//      E echo, K cookie, H hello, N allow-nothing, L log
#define NO_MAIN
#include "h_srv.cpp"
#include "EchoService.hpp"
#include "CookieService.hpp"
#include "HelloService.hpp"
#include "AllowNothingService.hpp"
#include "LogService.hpp"
struct Svc : public Srv {
    plugins::EchoService e; plugins::CookieService k; plugins::HelloService h; plugins::AllowNothingService n; plugins::LogService l;
    Svc(const std::string& a) : Srv(a) {}
    virtual void service(char kind, const http::request_ptr& q, const tcp::connection_ptr& c) {
        switch (kind) { case 'E': e(q, c); break; case 'K': k(q, c); break; case 'H': h(q, c); break; case 'N': n(q, c); break; case 'L': l(q, c); break; }
    }
};
int main(int argc, char** argv) {
    PION_LOG_CONFIG_BASIC; PION_LOG_SETLEVEL_FATAL(PION_GET_LOGGER("pion"));
    if (argc > 1) g_quiet = atoi(argv[1]);
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.size() < 2) continue;
        guard(20); g_now = 1700000000; std::string o;
        { Svc s(w[1]); for (size_t i = 2; i < w.size(); ++i) o += (i > 2 ? "," : "") + s.step(w[i]); }
        words f = cut(w[1], ';');
        printf("{\"id\":%s,\"auth\":\"%s\",\"au\":[%s,%s,%s],\"steps\":[%s]}\n", w[0].c_str(), f[0].c_str(), seq(f.size() > 1 ? unrle(f[1]) : "").c_str(), seq(f.size() > 2 ? unrle(f[2]) : "").c_str(), seq(f.size() > 3 ? unrle(f[3]) : "").c_str(), o.c_str());
        fflush(stdout);
    }
    return 0;
}
