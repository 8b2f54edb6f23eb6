// A plug-in server and its configuration: one thread, loopback connections, services that are linked in.
//  argv: scratch directory (for configuration files) and the directory that '@' stands for in configurations
//  id ops...   L;text load a configuration  l;text the same, asked for without its extension  M ask for a missing one  A;res;kind add_service  V;res;kind load_service
//              O;res;name;value set_service_option  B start  E stop  X clear  Z destroy  P;path;n|b|c;user;pass request  K;user;pass log in  D;name look for a plug-in
#include "vh.hpp"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <errno.h>
#include <thread>
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <pion/scheduler.hpp>
#include <pion/plugin.hpp>
#include <pion/algorithm.hpp>
#include <pion/http/plugin_server.hpp>
#include <pion/http/response_writer.hpp>
using namespace pion; using namespace vh;
static words cut(const std::string& s, char d) { words w; std::string c; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == d) { w.push_back(c); c.clear(); } else c += s[i]; } w.push_back(c); return w; }
struct OneThread : public scheduler {
    boost::asio::io_service io; boost::asio::io_service::work work;
    OneThread() : work(io) {}
    virtual boost::asio::io_service& get_io_service(void) { return io; }
    virtual void startup(void) { m_is_running = true; }
};
struct Svc; static std::vector<Svc*> alive; static long serial = 0; static std::string gone;   // gone: [number, how] of services destroyed
struct Svc : public http::plugin_service {
    long n; char kind; std::string opts; long no, starts, stops; const char* how;
    Svc(char k) : n(++serial), kind(k), no(0), starts(0), stops(0), how("delete") { alive.push_back(this); }
    virtual ~Svc() { alive.erase(std::find(alive.begin(), alive.end(), this)); gone += (gone.empty() ? "" : ",") + std::string("[") + num(n) + ",\"" + how + "\"," + num(starts) + "," + num(stops) + "]"; }
    virtual void operator()(const http::request_ptr& q, const tcp::connection_ptr& c) {
        http::response_writer_ptr w(http::response_writer::create(c, *q, boost::bind(&tcp::connection::finish, c)));
        w->write("svc " + num(n) + " " + get_relative_resource(q->get_resource())); w->send();
    }
    virtual void set_option(const std::string& a, const std::string& b) { if (a == "bad") http::plugin_service::set_option(a, b); opts += (no++ ? ",[" : "[") + seq(a) + "," + seq(b) + "]"; }
    virtual void start(void) { ++starts; }
    virtual void stop(void) { ++stops; }
};
static void* make_a(void) { return static_cast<http::plugin_service*>(new Svc('A')); }
static void* make_b(void) { return static_cast<http::plugin_service*>(new Svc('B')); }
static void end_a(void* p) { Svc* s = static_cast<Svc*>(static_cast<http::plugin_service*>(p)); s->how = s->kind == 'A' ? "destroy" : "foreign"; delete s; }
static void end_b(void* p) { Svc* s = static_cast<Svc*>(static_cast<http::plugin_service*>(p)); s->how = s->kind == 'B' ? "destroy" : "foreign"; delete s; }
struct Lab {
    OneThread sched; http::plugin_server* server; std::string dir, at, cookie, log; int files;
    Lab(const std::string& d, const std::string& a) : server(0), dir(d), at(a), files(0) {
        plugin::reset_plugin_directories(); serial = 0; gone.clear();
        server = new http::plugin_server(sched, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4::loopback(), 0));
    }
    ~Lab() { if (server) apart(1); }
    // stop, clear and destroy wait for nobody here, but the scheduler has to run
    void apart(int what) {
        sched.io.reset(); std::thread th([this] { sched.io.run(); });
        if (what == 0) server->stop(false); else if (what == 2) server->clear(); else { if (server->is_listening()) server->stop(false); delete server; server = 0; }
        sched.io.stop(); th.join(); sched.io.reset();
    }
    std::string exchange(const std::string& q) {
        int fd = ::socket(AF_INET, SOCK_STREAM, 0), one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(server->get_port()); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (::connect(fd, (sockaddr*)&a, sizeof a)) _exit(99);
        if (::send(fd, q.data(), q.size(), MSG_NOSIGNAL) != (ssize_t)q.size()) _exit(99);
        std::string r; char b[65536];
        for (;;) { sched.io.poll(); ssize_t n = ::recv(fd, b, sizeof b, MSG_DONTWAIT); if (n > 0) r.append(b, n); else if (n == 0 || (errno != EAGAIN && errno != EINTR)) break; else usleep(50); }
        ::close(fd); for (int i = 0; i < 200 && server->get_connections() > 0; ++i) { sched.io.poll(); usleep(50); }
        return r;
    }
    std::string file(const std::string& text, bool ext) {
        std::string base = dir + "/c" + num(getpid()) + "_" + num(++files), f = base + ".conf"; std::ofstream o(f.c_str(), std::ios::binary);
        for (size_t i = 0; i < text.size(); ++i) if (text[i] == 64) o << at; else o.put(text[i]);
        return ext ? f : base;
    }
    void step(const std::string& t) {
        words f = cut(t, ';'); char o = f[0][0]; std::string r = "ok", body; long code = 0; words a; for (size_t i = 1; i < f.size(); ++i) a.push_back(f[i]);
        gone.clear();
        if (o != 'D' && !server) return;
        try {
            if (o == 'L' || o == 'l') { std::string n = file(unrle(a[0]), o == 'L'); try { server->load_service_config(n); } catch (...) { unlink((n + (o == 'L' ? "" : ".conf")).c_str()); throw; } unlink((n + (o == 'L' ? "" : ".conf")).c_str()); }
            else if (o == 'M') server->load_service_config(dir + "/missing.conf");
            else if (o == 'A') { Svc* s = new Svc(a[1][0]); try { server->add_service(unrle(a[0]), s); } catch (...) { s->how = "caller"; delete s; throw; } }
            else if (o == 'V') server->load_service(unrle(a[0]), "Svc" + a[1]);
            else if (o == 'O') server->set_service_option(unrle(a[0]), unrle(a[1]), unrle(a[2]));
            else if (o == 'B') server->start();
            else if (o == 'E') apart(0);
            else if (o == 'X') apart(2);
            else if (o == 'Z') apart(1);
            else if (o == 'D') { std::string p; if (plugin::find_plugin_file(p, a[0])) { body = p; size_t k = body.find(at); if (k == 0) body = "@" + body.substr(at.size()); } else r = "no"; }
            else if ((o == 'P' || o == 'K') && server->is_listening()) {
                std::string q = "GET " + (o == 'P' ? unrle(a[0]) : "/login?user=" + algorithm::url_encode(unrle(a[0])) + "&pass=" + algorithm::url_encode(unrle(a[1]))) + " HTTP/1.1\r\nConnection: close\r\n";
                if (o == 'P' && a[1] == "b") { std::string e; algorithm::base64_encode(unrle(a[2]) + ":" + unrle(a[3]), e); q += "Authorization: Basic " + e + "\r\n"; }
                if (o == 'P' && a[1] == "c") q += "Cookie: " + cookie + "\r\n";
                std::string s = exchange(q + "\r\n"); size_t sp = s.find(' '), h = s.find("\r\n\r\n"); if (sp == std::string::npos || h == std::string::npos) r = "broken"; else { code = atol(s.c_str() + sp); body = s.substr(h + 4); }
                size_t k = s.find("Set-Cookie: "); if (k < h) { cookie = s.substr(k + 12, s.find_first_of(";\r", k + 12) - k - 12); if (o == 'K') body = "cookie"; } else if (o == 'K') body = "none";
                if (code != 200 && o == 'P') body.clear();
            } else r = "off";
        } catch (std::exception& e) { r = "error"; }
        std::string live; for (size_t i = 0; i < alive.size(); ++i) { Svc& s = *alive[i]; live += (i ? "," : "") + std::string("{\"n\":") + num(s.n) + ",\"k\":\"" + s.kind + "\",\"r\":" + seq(s.get_resource()) + ",\"o\":[" + s.opts + "],\"b\":" + num(s.starts) + ",\"e\":" + num(s.stops) + "}"; }
        std::string args; for (size_t i = 0; i < a.size(); ++i) args += (i ? "," : "") + std::string((isdigit(a[i][0]) || a[i] == "-") && o != 'D' ? seq(unrle(a[i])) : seq(a[i]));
        log += (log.empty() ? "" : ",") + std::string("{\"op\":\"") + (o == 'l' ? 'L' : o) + "\",\"a\":[" + args + "],\"r\":\"" + r + "\",\"code\":" + num(code) + ",\"body\":" + seq(body) + ",\"live\":[" + live + "],\"gone\":[" + gone + "],\"on\":" + boo(server && server->is_listening()) + "}";
    }
};
int main(int argc, char** argv) {
    PION_LOG_CONFIG_BASIC; PION_LOG_SETLEVEL_FATAL(PION_GET_LOGGER("pion"));
    plugin::add_static_entry_point("SvcA", (void*)make_a, (void*)end_a); plugin::add_static_entry_point("SvcB", (void*)make_b, (void*)end_b);
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.size() < 2) continue;
        guard(20); std::string log; { Lab l(argv[1], argv[2]); for (size_t i = 1; i < w.size(); ++i) l.step(w[i]); log = l.log; }
        printf("{\"id\":%s,\"steps\":[%s]}\n", w[0].c_str(), log.c_str()); fflush(stdout);
    }
    return 0;
}
