// Read timeouts: readers and a server on loopback connections, one thread, a clock that stands still until it is moved.
//  id kind T messages ops...      kind: srv (http::server) | req | rsp (http readers with set_timeout(T), used like the server uses them)
//  messages: runs "|" runs ..     (what every client sends, one after the other; requests for /h are held by the handler)
//  op: C;c connect   S;c;n send the next n bytes   E;c end sending   T;ms move the clock   R;c answer the held request   P let the server run
#include "vh.hpp"
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/time.h>
#include <sys/timerfd.h>
#include <linux/sockios.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <fcntl.h>
#include <errno.h>
#include <thread>
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <pion/scheduler.hpp>
#include <pion/http/server.hpp>
#include <pion/http/request_reader.hpp>
#include <pion/http/response_reader.hpp>
#include <pion/http/response_writer.hpp>
using namespace pion; using namespace vh;
static long long g_ms = 0;                   // the clock
static const long long BASE = 1700000000LL;
extern "C" {
int gettimeofday(struct timeval* tv, void*) { if (tv) { tv->tv_sec = BASE + g_ms / 1000; tv->tv_usec = g_ms % 1000 * 1000; } return 0; }
int clock_gettime(clockid_t, struct timespec* ts) { ts->tv_sec = BASE + g_ms / 1000; ts->tv_nsec = g_ms % 1000 * 1000000; return 0; }
time_t time(time_t* t) { time_t v = BASE + g_ms / 1000; if (t) *t = v; return v; }
int timerfd_create(int, int) { errno = EINVAL; return -1; }      // the reactor then asks the clock itself
}
static words cut(const std::string& s, char d) { words w; std::string c; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == d) { w.push_back(c); c.clear(); } else c += s[i]; } w.push_back(c); return w; }
static std::string K(const char* k, long long v) { return std::string(",\"") + k + "\":" + num(v); }
struct OneThread : public scheduler {
    boost::asio::io_service io; boost::asio::io_service::work work;
    OneThread() : work(io) {}
    virtual boost::asio::io_service& get_io_service(void) { return io; }
    virtual void startup(void) { m_is_running = true; }
};
struct Client { int fd; bool eof, fin; std::string got; size_t sent; http::request_ptr held; tcp::connection_ptr cn; Client() : fd(-1), eof(false), fin(false), sent(0) {} };
struct Lab; static Lab* g;
struct Lab {
    OneThread sched; std::string kind; unsigned T; std::string stream; std::vector<Client> cl; std::string log; bool first; http::server* server; boost::asio::ip::tcp::acceptor acc; std::map<tcp::connection*, int> who;
    void ev(const std::string& s) { log += (first ? "" : ",") + s; first = false; }
    struct Server : public http::server {
        Lab* l; Server(Lab* l_) : http::server(l_->sched, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4::loopback(), 0)), l(l_) {}
        virtual void handle_connection(const tcp::connection_ptr& c) { l->know(c); http::server::handle_connection(c); }
    };
    // which client a connection belongs to
    void know(const tcp::connection_ptr& c) {
        boost::system::error_code ec; int p = c->get_socket().remote_endpoint(ec).port(); if (ec) return;
        c->get_socket().set_option(boost::asio::ip::tcp::no_delay(true), ec);
        for (size_t i = 0; i < cl.size(); ++i) { sockaddr_in a; socklen_t n = sizeof a; if (cl[i].fd >= 0 && !getsockname(cl[i].fd, (sockaddr*)&a, &n) && ntohs(a.sin_port) == p) { who[c.get()] = i; } }
    }
    Lab(const words& w) : kind(w[1]), T(atoi(w[2].c_str())), first(true), server(0), acc(sched.io) {
        g = this; words m = cut(w[3], '|'); for (size_t i = 0; i < m.size(); ++i) stream += unrle(m[i]);
        if (kind == "srv") { server = new Server(this); server->add_resource("/n", boost::bind(&Lab::now, this, _1, _2)); server->add_resource("/h", boost::bind(&Lab::hold, this, _1, _2)); server->start(); }
        else { boost::asio::ip::tcp::endpoint e(boost::asio::ip::address_v4::loopback(), 0); acc.open(e.protocol()); acc.bind(e); acc.listen(); }
    }
    ~Lab() {
        for (size_t i = 0; i < cl.size(); ++i) { if (cl[i].held) { cl[i].cn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE); if (server) cl[i].cn->finish(); else cl[i].cn->close(); } cl[i].held.reset(); cl[i].cn.reset(); ::close(cl[i].fd); }
        pump();
        if (server) { std::thread th([this] { sched.io.run(); }); server->stop(false); sched.io.stop(); th.join(); delete server; }
        g = 0;
    }
    int port() { return server ? server->get_port() : acc.local_endpoint().port(); }
    void answer(const http::request_ptr& q, const tcp::connection_ptr& c) { http::response_writer_ptr w(http::response_writer::create(c, *q, boost::bind(&tcp::connection::finish, c))); w->write("ok!"); w->send(); }
    void done(int c, bool ok, const char* err, long n) { ev("{\"e\":\"done\"" + K("c", c + 1) + ",\"ok\":" + boo(ok) + ",\"err\":\"" + err + "\"" + K("n", n) + "}"); }
    void now(const http::request_ptr& q, const tcp::connection_ptr& c) { done(who[c.get()], true, "none", q->get_content_length()); answer(q, c); }
    void hold(const http::request_ptr& q, const tcp::connection_ptr& c) { int i = who[c.get()]; done(i, true, "none", q->get_content_length()); cl[i].held = q; cl[i].cn = c; }
    // readers without a server
    static const char* name(const boost::system::error_code& ec) { return !ec ? "none" : ec == boost::asio::error::operation_aborted ? "aborted" : ec == boost::asio::error::eof ? "eof" : "other"; }
    void start(const tcp::connection_ptr& c) {
        if (kind == "req") { http::request_reader_ptr r(http::request_reader::create(c, boost::bind(&Lab::got_req, this, _1, _2, _3))); r->set_timeout(T); r->receive(); }
        else { static http::request asked; http::response_reader_ptr r(http::response_reader::create(c, asked, boost::bind(&Lab::got_rsp, this, _1, _2, _3))); r->set_timeout(T); r->receive(); }
    }
    void got_req(http::request_ptr q, tcp::connection_ptr c, const boost::system::error_code& ec) {
        int i = who[c.get()]; bool ok = !ec && q->is_valid(); done(i, ok, name(ec), ok ? (long)q->get_content_length() : 0);
        if (!ok) { c->close(); return; }
        if (q->get_resource() == "/h") { cl[i].held = q; cl[i].cn = c; } else next(c);
    }
    void got_rsp(http::response_ptr q, tcp::connection_ptr c, const boost::system::error_code& ec) {
        int i = who[c.get()]; bool ok = !ec && q->is_valid(); done(i, ok, name(ec), ok ? (long)q->get_content_length() : 0);
        if (!ok) c->close(); else next(c);
    }
    void next(const tcp::connection_ptr& c) { if (c->get_keep_alive()) start(c); else c->close(); }
    bool drain() {
        bool any = false; char b[65536];
        for (size_t i = 0; i < cl.size(); ++i) for (;;) { Client& k = cl[i]; if (k.fd < 0 || k.eof) break; int one = 1; setsockopt(k.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
            ssize_t n = ::recv(k.fd, b, sizeof b, MSG_DONTWAIT); if (n > 0) { k.got.append(b, n); any = true; continue; }
            if (n == 0 || (errno != EAGAIN && errno != EINTR)) { k.eof = true; any = true; } break; }
        return any;
    }
    bool unsent() { for (size_t i = 0; i < cl.size(); ++i) { int v = 0; if (cl[i].fd >= 0 && !cl[i].eof && ioctl(cl[i].fd, SIOCOUTQ, &v) == 0 && v > 0) return true; } return false; }
    void pump() { for (int idle = 0; ; ) { bool any = sched.io.poll() > 0; if (drain()) any = true; if (any) { idle = 0; continue; } if (++idle > 2 && !(unsent() && idle < 2000)) break; usleep(idle > 2 ? 300 : 60); } }
    void rest() {
        pump(); std::string a, b;
        for (size_t i = 0; i < cl.size(); ++i) { long n = 0; for (size_t p = 0; (p = cl[i].got.find("ok!", p)) != std::string::npos; p += 3) ++n; a += (i ? "," : "") + num(n); b += (i ? "," : "") + boo(cl[i].eof); }
        ev("{\"e\":\"rest\",\"g\":[" + a + "],\"x\":[" + b + "]}");
    }
    void step(const std::string& t) {
        words f = cut(t, ';'); char o = f[0][0]; long v = f.size() > 1 ? atol(f[1].c_str()) : 0;
        if (o == 'C') {
            cl.push_back(Client()); Client& k = cl.back(); k.fd = ::socket(AF_INET, SOCK_STREAM, 0); int one = 1; setsockopt(k.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
            sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port()); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if (::connect(k.fd, (sockaddr*)&a, sizeof a)) _exit(99);
            ev("{\"e\":\"open\"}");
            if (!server) { tcp::connection_ptr c(new tcp::connection(sched.io)); if (c->accept(acc)) _exit(98); know(c); start(c); }
            rest();
        } else if (o == 'S') { Client& k = cl[v - 1]; if (k.fin) return; long n = std::min<long>(atol(f[2].c_str()), stream.size() - k.sent); ev("{\"e\":\"send\"" + K("c", v) + K("n", n) + "}"); size_t d = 0; while (d < (size_t)n) { ssize_t r = ::send(k.fd, stream.data() + k.sent + d, n - d, MSG_NOSIGNAL); if (r <= 0) break; d += r; } k.sent += n; }
        else if (o == 'E') { if (cl[v - 1].fin) return; cl[v - 1].fin = true; ev("{\"e\":\"fin\"" + K("c", v) + "}"); ::shutdown(cl[v - 1].fd, SHUT_WR); }
        else if (o == 'T') { ev("{\"e\":\"adv\"" + K("n", v) + "}"); g_ms += v; }
        else if (o == 'R') { Client& k = cl[v - 1]; if (!k.held) return; ev("{\"e\":\"reply\"" + K("c", v) + "}"); http::request_ptr q = k.held; tcp::connection_ptr c = k.cn; k.held.reset(); k.cn.reset(); if (server) answer(q, c); else next(c); c.reset(); rest(); }
        else if (o == 'P') { ev("{\"e\":\"run\"}"); rest(); }
    }
};
int main() {
    PION_LOG_CONFIG_BASIC; PION_LOG_SETLEVEL_FATAL(PION_GET_LOGGER("pion"));
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.size() < 4) continue;
        guard(20); g_ms = 0; std::string log;
        { Lab l(w); for (size_t i = 4; i < w.size(); ++i) l.step(w[i]); log = l.log; }
        printf("{\"id\":%s,\"end\":\"done\",\"log\":[%s]}\n", w[0].c_str(), log.c_str()); fflush(stdout);
    }
    return 0;
}
