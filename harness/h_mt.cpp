// An HTTP server with several threads under a deterministic thread scheduler, with clients on real loopback sockets.
// Input line: id seed mode spurious workers auth phases...   auth: none, basic, cookie;  phase: thread programs separated by "/", ops separated by ","
//   q<k><x><cred> client k asks for resource x and waits for the answer; cred: - none, s the session it got last, t<j> the session client j got last, b<u><p> user and password
//   A<x><kind> add resource x (kind: n answers, p answers from another job, x removes itself and answers, r registers itself anew and answers, t throws), X<x> remove it, R<x><x> redirect
//   U<u><p> / V<u><p> / N<u> add, change, remove a user, Y<x> restrict, P<x> permit, y yield, t<h> that many half hours pass
#include "vh.hpp"
#include "vsched.hpp"
#include <pion/scheduler.hpp>
#include <pion/algorithm.hpp>
#include <pion/http/server.hpp>
#include <pion/http/basic_auth.hpp>
#include <pion/http/cookie_auth.hpp>
#include <pion/http/response_writer.hpp>
#ifdef MT_FILES            // FileService on /a, for what nothing orders (P30):  f<c><s> add it with cache and scan settings, s / S stop / start it, W<n> write a file anew, E<n> erase it
#include <pion/http/plugin_server.hpp>
#include "FileService.hpp"
#endif
#include <sys/wait.h>
#include <netinet/tcp.h>
#include <sys/stat.h>
#include <fstream>
#include <sys/socket.h>
#include <arpa/inet.h>
#include <poll.h>
#include <errno.h>
using namespace pion; using namespace vh;
static std::string g_log; static int g_call = 0; static bool g_first = true; static long long g_id; static int g_fd;
static void ev(const std::string& s) { VsQuiet q; g_log += (g_first ? "" : ",") + s; g_first = false; }
static std::string K(const char* k, long long v) { return std::string(",\"") + k + "\":" + num(v); }
static std::string T(const char* k, const std::string& v) { std::string o = std::string(",\"") + k + "\":["; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + num((unsigned char)v[i]); return o + "]"; }
static int call(const char* op, const std::string& a = "", const std::string& b = "", int s = 0, const std::string& u = "", const std::string& p = "") { VsQuiet q; int c = ++g_call; ev(std::string("{\"e\":\"call\",\"op\":\"") + op + "\"" + K("c", c) + T("a", a) + T("b", b) + K("s", s) + T("u", u) + T("p", p) + "}"); return c; }
static void ret(int c, long long r = 0, int t = 0, int k = 0) { ev("{\"e\":\"ret\"" + K("c", c) + K("r", r) + K("t", t) + K("k", k) + "}"); }
static void out(const char* end) {
    std::string o = "{\"id\":" + num(g_id) + ",\"end\":\"" + end + "\",\"steps\":" + num(vs_steps()) + ",\"log\":[" + g_log + "]}\n";
    size_t d = 0; while (d < o.size()) { ssize_t n = write(g_fd, o.data() + d, o.size() - d); if (n <= 0) break; d += n; }
    _exit(0);
}
static void on_stuck(const char* why) { out(why); }
#ifdef VS_RACE
static void on_race(const char* what) { ev(std::string("{\"e\":\"race\",\"at\":\"") + what + "\"}"); }
#endif
static const char* RES[] = {"", "/a", "/a/b", "/a/b/c", "/ab", "/b", "/login", "/logout", "/r", "/r2", "/a/", "/a/bc", "/a/f0", "/a/f1", "/a/d/f2"};
static std::string res(char c) { return RES[c <= '9' ? c - '0' : c - 'a' + 10]; }
static std::string uname_of(char c) { return std::string("u") + c; }
static std::string pass(char c) { return std::string("p") + c; }
static std::string g_dir;
#ifdef MT_FILES
static plugins::FileService* g_files = 0;
static void write_file(int n, char c) { VsQuiet q; std::ofstream f((g_dir + (n == 2 ? "/d/f2" : n == 1 ? "/f1" : "/f0")).c_str()); f << std::string(20 + 100 * n, c); }
#endif
static http::server* g_srv; static scheduler* g_sched; static http::auth_ptr g_auth; static in_addr_t g_addr;
static void answer(http::request_ptr q, tcp::connection_ptr c, int tag) {
    http::response_writer_ptr w(http::response_writer::create(c, *q, boost::bind(&tcp::connection::finish, c)));
    w << "T" << tag << "E"; vs_yield(); w->send();
}
struct Handler {
    std::string name; char kind; int tag; unsigned magic;
    Handler(const std::string& n, char k, int t) : name(n), kind(k), tag(t), magic(0x5aa5) {}
    Handler(const Handler& h) : name(h.name), kind(h.kind), tag(h.tag), magic(h.magic) {}
    ~Handler() { magic = 0; }
    void operator()(const http::request_ptr& q, const tcp::connection_ptr& c) {
        user_ptr u = q->get_user();
        ev("{\"e\":\"h\"" + K("c", atoi(q->get_header("X-Call").c_str())) + K("t", magic == 0x5aa5 ? tag : -1) + T("u", u ? u->get_username() : "") + "}");
        vs_yield();
        if (magic != 0x5aa5) ev("{\"e\":\"lost\"}");
        int t = tag; char k = kind; std::string n = name;
        if (k == 't') throw std::runtime_error("no");
        if (k == 'p') { g_sched->post(boost::bind(answer, q, c, t)); return; }
        if (k == 'x' || k == 'r') { int i = call("X", n); vs_yield(); g_srv->remove_resource(n); ret(i); vs_yield(); }
        if (k == 'r') { int i = call("A", n, "", 0, "", "n"); vs_yield(); g_srv->add_resource(n, Handler(n, 'n', i)); ret(i); vs_yield(); }
        answer(q, c, t);
    } };
struct Client { int fd, session; Client() : fd(-1), session(0) {} };
static Client g_cl[16]; static std::map<std::string, int> g_ids; static std::map<int, std::string> g_cookie;   // sessions: number <-> identifier
static bool ask(Client& cl, const std::string& t, std::string& o) {
    if (cl.fd < 0) { cl.fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(g_srv->get_port()); a.sin_addr.s_addr = g_addr; if (::connect(cl.fd, (sockaddr*)&a, sizeof a)) return false; }
    if (::send(cl.fd, t.data(), t.size(), MSG_NOSIGNAL) != (ssize_t)t.size()) return false;
    while (true) {
        size_t e = o.find("\r\n\r\n");
        if (e != std::string::npos && o.find("Transfer-Encoding: chunked") < e) { if (o.size() >= e + 9 && o.compare(o.size() - 7, 7, "\r\n0\r\n\r\n") == 0) return true; }
        else if (e != std::string::npos) { size_t l = o.find("Content-Length: "); size_t n = l < e ? atoi(o.c_str() + l + 16) : 0; if (o.size() >= e + 4 + n) return o.size() == e + 4 + n; }
        char b[4096];
#ifdef MT_FILES
        int one = 1; ::setsockopt(cl.fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);      // answers come in several pieces
#endif
        ssize_t k = ::recv(cl.fd, b, sizeof b, MSG_DONTWAIT);
        if (k > 0) { o.append(b, k); continue; }
        if (k < 0 && errno == EAGAIN) { pollfd p = {cl.fd, POLLIN, 0}; ::poll(&p, 1, -1); continue; }
        ::close(cl.fd); cl.fd = -1; return false;
    }
}
static void request(const std::string& q, bool cookies) {
    VsQuiet quiet;
    Client& cl = g_cl[q[1] - '0']; std::string r = res(q[2]), u, p, h; int s = 0; bool login = q[3] == 'b' && cookies;
    if (q[3] == 's') s = cl.session; else if (q[3] == 't') s = g_cl[q[4] - '0'].session; else if (q[3] == 'b') { u = uname_of(q[4]); p = pass(q[5]); }
    if (s) h = "Cookie: pion_session_id=\"" + g_cookie[s] + "\"\r\n";
    if (!u.empty() && !login) { std::string b; algorithm::base64_encode(u + ":" + p, b); h = "Authorization: Basic " + b + "\r\n"; }
    int c = call("q", r, "", s, u, p); vs_yield();
    std::string o; bool ok = ask(cl, "GET " + (r.empty() ? "/" : r) + (login ? "?user=" + u + "&pass=" + p : "") + " HTTP/1.1\r\nX-Call: " + num(c) + "\r\n" + h + "\r\n", o);
    int st = ok ? atoi(o.c_str() + 9) : 0, t = 0, k = 0;
    size_t b = o.find("\r\n\r\nT"); if (ok && b != std::string::npos) t = atoi(o.c_str() + b + 5);
    size_t a = o.find("pion_session_id=\""); if (ok && a != std::string::npos) {
        std::string id = o.substr(a + 17, o.find('"', a + 17) - a - 17);
        if (!id.empty()) { int& n = g_ids[id]; if (!n) n = c; k = n; g_cookie[k] = id; cl.session = k; }
    }
    ret(c, st, t, k); vs_yield();
}
struct Prog { words ops; bool cookies; void operator()() const {
    for (size_t i = 0; i < ops.size(); ++i) {
        const std::string& q = ops[i]; char o = q[0]; char nm[2] = {o, 0};
        if (o == 'y') { vs_yield(); continue; }
        if (o == 't') { vs_advance((q[1] - '0') * 1800000000000LL); vs_yield(); continue; }
#ifdef MT_FILES
        if (o == 'f') {
            write_file(0, 'a'); write_file(1, 'b'); write_file(2, 'c');
            g_files = new plugins::FileService; g_files->set_resource("/a"); g_files->set_option("directory", g_dir); g_files->set_option("cache", std::string(1, q[1])); g_files->set_option("scan", std::string(1, q[2])); g_files->set_option("max_chunk_size", "50");
            g_files->start(); g_srv->add_resource("/a", boost::ref(*g_files)); vs_yield(); continue;
        }
        if (o == 's' || o == 'S') { if (o == 's') g_files->stop(); else g_files->start(); vs_yield(); continue; }
        if (o == 'W') { write_file(q[1] - '0', 'a' + i); vs_yield(); continue; }
        if (o == 'E') { VsQuiet quiet; unlink((g_dir + "/f" + q[1]).c_str()); continue; }
#endif
        if (o == 'C') { g_srv->clear(); continue; }
        if (o == 'q') { request(q, cookies); continue; }
        bool us = o == 'U' || o == 'V' || o == 'N', two = o == 'R';
        if (!g_auth && (us || o == 'Y' || o == 'P')) continue;
        std::string x = us ? "" : res(q[1]), y = two ? res(q[2]) : "", u = us ? uname_of(q[1]) : "", p = us && o != 'N' ? pass(q[2]) : o == 'A' ? q.substr(2, 1) : "";
        int c = call(nm, x, y, 0, u, p); long long r = 0; vs_yield();
        switch (o) {
        case 'A': g_srv->add_resource(x, Handler(x, q[2], c)); break;
        case 'X': g_srv->remove_resource(x); break;
        case 'R': g_srv->add_redirect(x, y); break;
        case 'U': r = g_auth->add_user(u, p); break;
        case 'V': r = g_auth->update_user(u, p); break;
        case 'N': r = g_auth->remove_user(u); break;
        case 'Y': g_auth->add_restrict(x); break;
        case 'P': g_auth->add_permit(x); break;
        }
        ret(c, r); vs_yield();
    } } };
static words cut(const std::string& s, char d) { words w; std::string c; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == d) { w.push_back(c); c.clear(); } else c += s[i]; } w.push_back(c); return w; }
static void child(const words& w) {
    g_id = atoll(w[0].c_str());
    PION_LOG_CONFIG_BASIC; PION_LOG_SETLEVEL_FATAL(PION_GET_LOGGER("pion"));
    unsigned a = (unsigned)getpid(); char ip[40]; snprintf(ip, sizeof ip, "127.%u.%u.%u", 1 + (a >> 14) % 250, (a >> 7) & 127, 1 + (a & 127)); g_addr = inet_addr(ip);
    vs_on_stuck = on_stuck;
#ifdef VS_RACE
    vs_on_race = on_race;
#endif
    vs_spurious = atoi(w[3].c_str()); vs_real_net = true;
    single_service_scheduler* sched = new single_service_scheduler; g_sched = sched; sched->set_num_threads(atoi(w[4].c_str()));
    g_srv = new http::server(*sched, boost::asio::ip::tcp::endpoint(boost::asio::ip::address::from_string(ip), 0));
    if (w[5] != "none") { user_manager_ptr m(new user_manager); if (w[5] == "basic") g_auth.reset(new http::basic_auth(m)); else g_auth.reset(new http::cookie_auth(m, "/login", "/logout")); g_srv->set_authentication(g_auth); }
    vs_start(atoi(w[1].c_str()), atoi(w[2].c_str()), 200000);
    alarm(40);
    g_srv->start();
    for (size_t p = 6; p < w.size(); ++p) {
        words progs = cut(w[p], '/');
        for (size_t i = 0; i < progs.size(); ++i) {
            Prog* g = new Prog; g->ops = cut(progs[i], ','); g->cookies = w[5] == "cookie"; pthread_t h;
            struct F { static void* f(void* a) { (*(Prog*)a)(); return 0; } };
            pthread_create(&h, 0, F::f, g); pthread_detach(h);
        }
        vs_quiesce();
        ev("{\"e\":\"quiet\"}");
    }
    out("done");
}
int main(int n, char** a) {
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.empty()) continue;
        std::cout.flush();
        int fd[2]; if (pipe(fd)) return 3;
        pid_t pid = fork();
        if (pid == 0) { close(fd[0]); g_fd = fd[1]; if (n > 1) { g_dir = std::string(a[1]) + "/" + num(getpid()); mkdir(g_dir.c_str(), 0755); mkdir((g_dir + "/d").c_str(), 0755); } child(w); }
        close(fd[1]);
        std::string o; char b[65536]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) o.append(b, k);
        close(fd[0]);
        int st; waitpid(pid, &st, 0);
        if (o.empty() || o[o.size() - 1] != '\n') o = "{\"id\":" + w[0] + ",\"end\":\"died " + num(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + "\",\"steps\":0,\"log\":[]}\n";
        std::cout << o;
    }
}
