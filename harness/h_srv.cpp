// Histories of an HTTP server: one thread runs the server's I/O and plays every client, so that a history has one outcome.
//  id auth op op ...
//  auth: none | basic;realm | cookie;login;logout;redirect          (strings as runs)
//  op: C;c connect   S;c;bytes   K;c;j;before;after (bytes around the j-th session cookie received)   E;c half close   X;c drop
//      A;resource;tag;kind   D;resource   R;from;to   F;i finish the i-th deferred request   H;nbs custom handlers   L;max content length
//      U;a|u|r;name;password   Z;r|p;resource   T;seconds
// kinds: n now, d deferred, s written at once and finished inside the handler, g asks the server for its connections, c two chunks,
//        t throws std::exception, b throws boost::exception, x asks to close, u answers without a length and closes
#include "vh.hpp"
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <linux/sockios.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <fcntl.h>
#include <errno.h>
#include <thread>
#include <boost/asio.hpp>
#include <boost/exception/all.hpp>
#include <pion/scheduler.hpp>
#include <pion/http/server.hpp>
#include <pion/http/basic_auth.hpp>
#include <pion/http/cookie_auth.hpp>
#include <pion/http/response_writer.hpp>
using namespace pion; using namespace vh;
static time_t g_now = 1700000000;
extern "C" time_t time(time_t* t) { if (t) *t = g_now; return g_now; }
static int g_quiet = 1;
static words cut(const std::string& s, char d) { words w; std::string c; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == d) { w.push_back(c); c.clear(); } else c += s[i]; } w.push_back(c); return w; }
struct OneThread : public scheduler {     // the harness itself runs the service
    boost::asio::io_service io; boost::asio::io_service::work work;
    OneThread() : work(io) {}
    virtual boost::asio::io_service& get_io_service(void) { return io; }
    virtual void startup(void) { m_is_running = true; }
};
struct Boom : public boost::exception {};
struct Client { int fd; bool open, eof; std::string got, all; Client() : fd(-1), open(false), eof(false) {} };
struct Srv; static Srv* g;
struct TestServer : public http::server {
    TestServer(scheduler& s) : http::server(s, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4::loopback(), 0)) {}
    virtual void handle_connection(const tcp::connection_ptr& c) { boost::system::error_code ec; c->get_socket().set_option(boost::asio::ip::tcp::no_delay(true), ec); http::server::handle_connection(c); }
};
struct Held { http::request_ptr rq; tcp::connection_ptr cn; std::string text; };
struct Srv {
    OneThread sched; TestServer server; user_manager_ptr users; http::auth_ptr auth; std::vector<Client> cl; std::vector<Held> held;
    std::string calls; int ncalls; std::vector<std::string> cookies;
    Srv(const std::string& a, bool start = true) : server(sched), ncalls(0) {
        g = this; words f = cut(a, ';'); users.reset(new user_manager);
        if (f[0] == "basic") auth.reset(new http::basic_auth(users, unrle(f[1])));
        else if (f[0] == "cookie") auth.reset(new http::cookie_auth(users, unrle(f[1]), unrle(f[2]), unrle(f[3])));
        if (auth) server.set_authentication(auth);
        if (start) server.start();
    }
    virtual ~Srv() {
        for (size_t i = 0; i < held.size(); ++i) if (held[i].cn) { held[i].cn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE); held[i].cn->finish(); }
        held.clear();
        for (size_t i = 0; i < cl.size(); ++i) if (cl[i].fd >= 0) ::close(cl[i].fd);
        pump(); std::thread th([this] { sched.io.run(); });
        server.stop(false); sched.io.stop(); th.join(); g = 0;
    }
    std::string called(const std::string& tag, const http::request_ptr& q, const std::string& msg) {
        ++ncalls; user_ptr u = q->get_user();
        calls += std::string(calls.empty() ? "" : ",") + "{\"t\":" + seq(tag) + ",\"m\":" + seq(q->get_method()) + ",\"r\":" + seq(q->get_resource()) + ",\"o\":" + seq(q->get_original_resource())
            + ",\"q\":" + seq(q->get_query_string()) + ",\"b\":" + rle(std::string(q->get_content() ? q->get_content() : "", q->get_content() ? q->get_content_length() : 0))
            + ",\"u\":[" + (u ? seq(u->get_username()) : "") + "],\"x\":" + seq(msg) + "}";
        return tag + "#" + num(ncalls);
    }
    static void answer(const http::request_ptr& q, const tcp::connection_ptr& c, const std::string& text, int code, bool chunks) {
        http::response_writer_ptr w(http::response_writer::create(c, *q, boost::bind(&tcp::connection::finish, c)));
        if (code != 200) { w->get_response().set_status_code(code); w->get_response().set_status_message("E"); }
        if (chunks) { g->parts(w, text, 0); } else { w->write(text); w->send(); }
    }
    // two chunks, then the last one
    void parts(http::response_writer_ptr w, std::string text, int k) {
        size_t h = text.size() / 2;
        if (k == 0) { w->write(text.substr(0, h)); w->send_chunk(boost::bind(&Srv::parts, this, w, text, 1)); }
        else if (k == 1) { w->clear(); w->write(text.substr(h)); w->send_chunk(boost::bind(&Srv::parts, this, w, text, 2)); }
        else { w->clear(); w->send_final_chunk(); }
    }
    virtual void service(char, const http::request_ptr&, const tcp::connection_ptr&) {}
    void handle(std::string tag, char kind, const http::request_ptr& q, const tcp::connection_ptr& c) {
        std::string text = called(tag, q, "");
        switch (kind) {
        default: service(kind, q, c); break;
        case 'n': answer(q, c, text, 200, false); break;
        case 'c': answer(q, c, text, 200, true); break;
        case 'g': server.get_connections(); answer(q, c, text, 200, false); break;
        case 'd': { Held h; h.rq = q; h.cn = c; h.text = text; held.push_back(h); break; }
        case 't': throw std::runtime_error("boom <" + text + ">");
        case 'b': throw Boom();
        case 'x': c->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE); answer(q, c, text, 200, false); break;
        case 's': { http::response r(*q); r.set_content(q->get_method() == "HEAD" ? std::string() : text); boost::system::error_code ec; r.send(*c, ec); c->finish(); break; }
        case 'u': { c->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE); http::response_writer_ptr w(http::response_writer::create(c, *q, boost::bind(&tcp::connection::finish, c))); w->get_response().set_do_not_send_content_length(); w->write(text); w->send(); break; }
        }
    }
    void custom(std::string tag, int code, const http::request_ptr& q, const tcp::connection_ptr& c) { answer(q, c, called(tag, q, ""), code, false); }
    void failed(const http::request_ptr& q, const tcp::connection_ptr& c, const std::string& msg) { answer(q, c, called("SE", q, msg), 500, false); }
    virtual void took(size_t c, const char* b, size_t n) { cl[c].got.append(b, n); }      // bytes from the server
    virtual std::string more(size_t) { return ""; }
    virtual bool news(size_t) { return false; }
    virtual void dial(size_t c) {
        if (cl.size() <= c) cl.resize(c + 1);
        Client& k = cl[c]; k.fd = ::socket(AF_INET, SOCK_STREAM, 0); int one = 1; setsockopt(k.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(server.get_port()); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (::connect(k.fd, (sockaddr*)&a, sizeof a) != 0) { perror("connect"); _exit(99); }
        fcntl(k.fd, F_SETFL, O_NONBLOCK); k.open = true; k.eof = false; k.got.clear(); k.all.clear();
    }
    virtual void half(size_t c) { ::shutdown(cl[c].fd, SHUT_WR); }
    virtual void drop(size_t c) { ::close(cl[c].fd); cl[c].fd = -1; cl[c].open = false; }
    bool drain() {
        bool any = false; char b[65536];
        for (size_t i = 0; i < cl.size(); ++i) {
            Client& k = cl[i]; int one = 1; if (!k.open || k.fd < 0) continue;
            setsockopt(k.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
            for (;;) { ssize_t n = ::recv(k.fd, b, sizeof b, 0);
                if (n > 0) { took(i, b, n); any = true; continue; }
                if (n == 0 || (errno != EAGAIN && errno != EINTR)) { k.open = false; k.eof = true; any = true; }
                break; }
        }
        return any;
    }
    bool unsent() { for (size_t i = 0; i < cl.size(); ++i) { int v = 0; if (cl[i].open && ioctl(cl[i].fd, SIOCOUTQ, &v) == 0 && v > 0) return true; } return false; }
    void pump() {
        int idle = 0;
        for (;;) {
            bool any = sched.io.poll() > 0; if (drain()) any = true;
            if (any) { idle = 0; continue; }
            if (++idle > 2 && !(unsent() && idle < 2000)) break;
            std::vector<pollfd> p; for (size_t i = 0; i < cl.size(); ++i) if (cl[i].open) { pollfd f; f.fd = cl[i].fd; f.events = POLLIN; f.revents = 0; p.push_back(f); }
            timespec ts; ts.tv_sec = 0; ts.tv_nsec = g_quiet * 300000L; ppoll(p.data(), p.size(), &ts, 0);
        }
    }
    virtual void send(size_t c, const std::string& d) { raw(c, d); }
    void raw(size_t c, const std::string& d) {   // in full; a closed connection takes nothing
        size_t off = 0;
        while (off < d.size() && cl[c].open) { ssize_t n = ::send(cl[c].fd, d.data() + off, d.size() - off, MSG_NOSIGNAL);
            if (n > 0) { off += n; continue; }
            if (errno == EAGAIN) { sched.io.poll(); drain(); continue; }
            break; }
    }
    void learn(const std::string& s) {            // session cookies
        size_t p = 0; const std::string k = "pion_session_id=\"";
        while ((p = s.find(k, p)) != std::string::npos) { p += k.size(); size_t e = s.find('"', p); if (e != std::string::npos && e > p) cookies.push_back(s.substr(p, e - p)); }
    }
    virtual bool other(const words&, size_t&, std::string&, std::string&) { return false; }
    std::string step(const std::string& t) {
        words f = cut(t, ';'); char o = f[0][0]; size_t c = 0; std::string a, b, n = "0", k = "0";
        switch (o) {
        case 'C': c = atoi(f[1].c_str()); dial(c); break;
        case 'S': c = atoi(f[1].c_str()); a = unrle(f[2]); send(c, a); break;
        case 'K': { c = atoi(f[1].c_str()); size_t j = atoi(f[2].c_str()); a = unrle(f[3]) + (cookies.empty() ? std::string("none") : cookies[j % cookies.size()]) + unrle(f[4]); send(c, a); break; }
        case 'E': c = atoi(f[1].c_str()); half(c); break;
        case 'X': c = atoi(f[1].c_str()); drop(c); break;
        case 'A': a = unrle(f[1]); b = f[2]; k = num(f[3][0]); server.add_resource(a, boost::bind(&Srv::handle, this, f[2], f[3][0], _1, _2)); break;
        case 'D': a = unrle(f[1]); server.remove_resource(a); break;
        case 'R': a = unrle(f[1]); b = unrle(f[2]); server.add_redirect(a, b); break;
        case 'F': { size_t i = atoi(f[1].c_str()); n = f[1]; if (i < held.size() && held[i].cn) { Held h = held[i]; held[i] = Held(); answer(h.rq, h.cn, h.text, 200, false); } break; }
        case 'H': a = f[1]; if (a.find('n') != std::string::npos) server.set_not_found_handler(boost::bind(&Srv::custom, this, std::string("NF"), 404, _1, _2));
            if (a.find('b') != std::string::npos) server.set_bad_request_handler(boost::bind(&Srv::custom, this, std::string("BR"), 400, _1, _2));
            if (a.find('s') != std::string::npos) server.set_error_handler(boost::bind(&Srv::failed, this, _1, _2, _3)); break;
        case 'L': n = f[1]; server.set_max_content_length(atol(f[1].c_str())); break;
        case 'U': k = num(f[1][0]); a = unrle(f[2]); b = unrle(f[3]); if (f[1] == "a") auth->add_user(a, b); else if (f[1] == "u") auth->update_user(a, b); else auth->remove_user(a); break;
        case 'Z': k = num(f[1][0]); a = unrle(f[2]); if (f[1] == "r") auth->add_restrict(a); else auth->add_permit(a); break;
        case 'T': n = f[1]; g_now += atol(f[1].c_str()); break;
        default: if (other(f, c, a, n)) break; fprintf(stderr, "bad op %s\n", t.c_str()); _exit(99);
        }
        pump();
        std::string r = std::string("{\"op\":\"") + o + "\",\"c\":" + num(c) + ",\"a\":" + (strchr("SKJNM", o) ? rle(a) : seq(a)) + ",\"b\":" + seq(b) + ",\"n\":" + n + ",\"k\":" + k + ",\"calls\":[" + calls + "],\"out\":[";
        bool first = true; calls.clear();
        for (size_t i = 0; i < cl.size(); ++i) if (!cl[i].got.empty() || cl[i].eof || news(i)) {
            r += std::string(first ? "" : ",") + "{\"c\":" + num(i) + ",\"d\":" + rle(cl[i].got) + ",\"e\":" + boo(cl[i].eof) + more(i) + "}"; first = false;
            learn(cl[i].got); cl[i].got.clear(); cl[i].eof = false; }
        return r + "],\"nc\":" + num(server.get_connections()) + "}";
    }
};
#ifndef NO_MAIN
int main(int argc, char** argv) {
    PION_LOG_CONFIG_BASIC; PION_LOG_SETLEVEL_FATAL(PION_GET_LOGGER("pion"));
    if (argc > 1) g_quiet = atoi(argv[1]);
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.size() < 2) continue;
        guard(20); g_now = 1700000000; std::string o;
        { Srv s(w[1]); for (size_t i = 2; i < w.size(); ++i) o += (i > 2 ? "," : "") + s.step(w[i]); }
        words f = cut(w[1], ';');
        printf("{\"id\":%s,\"auth\":\"%s\",\"au\":[%s,%s,%s],\"steps\":[%s]}\n", w[0].c_str(), f[0].c_str(), seq(f.size() > 1 ? unrle(f[1]) : "").c_str(), seq(f.size() > 2 ? unrle(f[2]) : "").c_str(), seq(f.size() > 3 ? unrle(f[3]) : "").c_str(), o.c_str());
        fflush(stdout);
    }
    return 0;
}
#endif
