// A TCP server under a deterministic thread scheduler, with clients on real loopback sockets.
// Input line: id seed mode spurious workers phases...   phase: thread programs separated by "/", ops separated by ","
//   S start, T stop(false), W stop(true), J join, Q get_connections, L is_listening, B / U occupy / free the port, Z destroy the server, E shut the scheduler down, y yield
//   C<k><script> client k connects; script: what handle_connection does, one letter a call:
//     c close and finish, f finish, k finish keeping the connection, r read (finish with keep-alive after data, without at the end), d keep it for later, o forget it;  f when it is used up
//   D<k> client k closes, w<k> client k sends a byte, F<k> / K<k> finish client k's kept connection without / with keep-alive
#include "vh.hpp"
#include "vsched.hpp"
#include <pion/scheduler.hpp>
#include <pion/tcp/server.hpp>
#include <sys/wait.h>
#include <sys/socket.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <errno.h>
using namespace pion; using namespace vh;
static std::string g_log; static int g_call = 0; static bool g_first = true; static long long g_id; static int g_fd;
static void ev(const std::string& s) { VsQuiet q; g_log += (g_first ? "" : ",") + s; g_first = false; }
#ifdef VS_RACE
static void on_race(const char* what) { ev(std::string("{\"e\":\"race\",\"at\":\"") + what + "\"}"); }
#endif
static std::string K(const char* k, long long v) { return std::string(",\"") + k + "\":" + num(v); }
static int call(const char* op, int k = 0, int s = 0) { int c = ++g_call; ev(std::string("{\"e\":\"call\",\"op\":\"") + op + "\"" + K("c", c) + K("k", k) + K("s", s) + K("t", vs_self()) + "}"); return c; }
static void ret(int c, long long r = 0) { ev("{\"e\":\"ret\"" + K("c", c) + K("r", r) + "}"); }
static void out(const char* end) {
    std::string o = "{\"id\":" + num(g_id) + ",\"end\":\"" + end + "\",\"steps\":" + num(vs_steps()) + ",\"log\":[" + g_log + "]}\n";
    size_t d = 0; while (d < o.size()) { ssize_t n = write(g_fd, o.data() + d, o.size() - d); if (n <= 0) break; d += n; }
    _exit(0);
}
static void on_stuck(const char* why) { out(why); }
struct Client { int fd, port; bool up; std::string script; size_t at; tcp::connection_ptr kept; int serial; Client() : fd(-1), port(0), up(false), at(0), serial(0) {} };
static Client g_cl[64]; static int g_serial = 0; static std::map<tcp::connection*, int> g_ser;   // a connection's number, while it is known
static int g_block = -1;
static void finish(const tcp::connection_ptr& c, int s, bool ka) {
    vs_order(c.get());
    c->set_lifecycle(ka ? tcp::connection::LIFECYCLE_KEEPALIVE : tcp::connection::LIFECYCLE_CLOSE);
    int n = call(ka ? "K" : "F", 0, s); c->finish(); ret(n);
}
static void on_read(tcp::connection_ptr c, int s, const boost::system::error_code& ec, size_t n) {
    ev("{\"e\":\"rx\"" + K("s", s) + K("n", ec ? 0 : n) + "}");
    vs_yield();
    finish(c, s, !ec);
}
struct Server : public tcp::server {
    Server(scheduler& s, const boost::asio::ip::tcp::endpoint& e) : tcp::server(s, e) {}
    virtual void handle_connection(const tcp::connection_ptr& c) {
        vs_order(c.get());
        int& s = g_ser[c.get()]; int k = 0;
        boost::system::error_code ec; boost::asio::ip::tcp::endpoint p = c->get_socket().remote_endpoint(ec);
        if (!ec) for (int i = 1; i < 64; ++i) if (g_cl[i].port == p.port()) k = i;
        // a connection that was forgotten may have left its address to another one
        if (s && (c->get_lifecycle() == tcp::connection::LIFECYCLE_CLOSE)) s = 0;
        bool fresh = !s; if (fresh) s = ++g_serial;
        int me = s;
        ev("{\"e\":\"h\"" + K("s", me) + K("k", k) + K("f", fresh) + K("t", vs_self()) + "}");
        vs_yield();
        char b = 'f'; if (k && g_cl[k].at < g_cl[k].script.size()) b = g_cl[k].script[g_cl[k].at++];
        switch (b) {
        case 'f': finish(c, me, false); break;
        case 'c': c->close(); vs_yield(); finish(c, me, false); break;
        case 'k': finish(c, me, true); break;
        case 'd': g_cl[k].serial = me; g_cl[k].kept = c; vs_order(c.get()); ev("{\"e\":\"kept\"" + K("s", me) + "}"); break;
        case 'o': ev("{\"e\":\"drop\"" + K("s", me) + "}"); g_ser.erase(c.get()); break;
        case 'r': ev("{\"e\":\"rd\"" + K("s", me) + "}"); c->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE); c->async_read_some(boost::bind(on_read, c, me, boost::asio::placeholders::error, boost::asio::placeholders::bytes_transferred)); break;
        }
    }
    virtual void before_starting() { ev("{\"e\":\"bs\"}"); }
    virtual void after_stopping() { ev("{\"e\":\"as\"}"); }
};
static Server* g_srv; static scheduler* g_sched; static in_addr_t g_addr;
static sockaddr_in where(int port) { sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = g_addr; return a; }
struct Prog { words ops; void operator()() const {
    for (size_t i = 0; i < ops.size(); ++i) {
        const std::string& q = ops[i]; char o = q[0]; size_t e = 1; int k = 0; while (e < q.size() && isdigit(q[e])) k = k * 10 + (q[e++] - '0');
        char nm[2] = {o, 0}; Client& cl = g_cl[k];
        if (o == 'y') { vs_yield(); continue; }
        if ((o == 'F' || o == 'K') && !cl.kept) continue;
        if ((o == 'D' || o == 'w') && !cl.up) continue;
        if ((o == 'U') == (g_block < 0) && (o == 'U' || o == 'B')) continue;
        if (o == 'F' || o == 'K') { tcp::connection_ptr c; c.swap(cl.kept); vs_order(c.get()); int s = cl.serial; vs_yield(); finish(c, s, o == 'K'); c.reset(); vs_yield(); continue; }
        if (o == 'C') { cl.script = q.substr(e); cl.at = 0; cl.fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a = where(0); socklen_t l = sizeof a; ::bind(cl.fd, (sockaddr*)&a, l); ::getsockname(cl.fd, (sockaddr*)&a, &l); cl.port = ntohs(a.sin_port); }
        bool plain = o == 'D' || o == 'w'; if (plain) ev(std::string("{\"e\":\"") + nm + "\"" + K("k", k) + "}");
        int c = plain ? 0 : call(nm, k); long long r = 0;
        vs_yield();
        switch (o) {
        case 'S': try { g_srv->start(); } catch (std::exception&) { r = -1; } break;
        case 'T': g_srv->stop(false); break;
        case 'W': g_srv->stop(true); break;
        case 'Z': delete g_srv; g_srv = 0; break;
        case 'J': g_srv->join(); break;
        case 'E': g_sched->shutdown(); break;
        case 'Q': { size_t n = g_srv->get_connections(); r = n > 1000000 ? 1000000 : n; break; }
        case 'L': r = g_srv->is_listening(); break;
        case 'C': { sockaddr_in a = where(g_srv->get_port()); r = g_srv->get_port() && ::connect(cl.fd, (sockaddr*)&a, sizeof a) == 0; cl.up = r; if (!r) { ::close(cl.fd); cl.fd = -1; cl.port = 0; } else fcntl(cl.fd, F_SETFL, O_NONBLOCK); break; }
        case 'D': cl.up = false; ::close(cl.fd); cl.fd = -1; break;
        case 'w': if (::send(cl.fd, "x", 1, MSG_NOSIGNAL) == 1) r = 1; break;
        case 'B': { g_block = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a = where(g_srv->get_port()); if (::bind(g_block, (sockaddr*)&a, sizeof a)) { r = -1; ::close(g_block); g_block = -1; } break; }
        case 'U': ::close(g_block); g_block = -1; break;
        }
        if (!plain) ret(c, r);
        vs_yield();
    } } };
static words cut(const std::string& s, char d) { words w; std::string c; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == d) { w.push_back(c); c.clear(); } else c += s[i]; } w.push_back(c); return w; }
static void child(const words& w) {
    g_id = atoll(w[0].c_str());
    PION_LOG_CONFIG_BASIC; PION_LOG_SETLEVEL_FATAL(PION_GET_LOGGER("pion"));
    unsigned a = (unsigned)getpid(); char ip[40]; snprintf(ip, sizeof ip, "127.%u.%u.%u", 1 + (a >> 14) % 250, (a >> 7) & 127, 1 + (a & 127)); g_addr = inet_addr(ip);
    vs_on_stuck = on_stuck;
#ifdef VS_RACE
    vs_on_race = on_race;
#endif
    vs_spurious = atoi(w[3].c_str()); vs_real_net = true;
    single_service_scheduler* sched = new single_service_scheduler; g_sched = sched; sched->set_num_threads(atoi(w[4].c_str()));
    g_srv = new Server(*sched, boost::asio::ip::tcp::endpoint(boost::asio::ip::address::from_string(ip), 0));
    vs_start(atoi(w[1].c_str()), atoi(w[2].c_str()), 120000);
    alarm(40);
    for (size_t p = 5; p < w.size(); ++p) {
        words progs = cut(w[p], '/');
        for (size_t i = 0; i < progs.size(); ++i) {
            Prog* g = new Prog; g->ops = cut(progs[i], ','); pthread_t h;
            struct F { static void* f(void* a) { (*(Prog*)a)(); return 0; } };
            pthread_create(&h, 0, F::f, g); pthread_detach(h);
        }
        vs_quiesce();
        std::string eofs, ups;      // what the clients see
        for (int i = 1; i < 64; ++i) if (g_cl[i].up) { char b[16]; ssize_t n = ::recv(g_cl[i].fd, b, sizeof b, MSG_PEEK); bool e = n == 0 || (n < 0 && errno != EAGAIN); std::string& t = e ? eofs : ups; t += (t.empty() ? "" : ",") + num(i); }
        ev("{\"e\":\"quiet\",\"eof\":[" + eofs + "],\"up\":[" + ups + "]}");
    }
    out("done");
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.empty()) continue;
        std::cout.flush();
        int fd[2]; if (pipe(fd)) return 3;
        pid_t pid = fork();
        if (pid == 0) { close(fd[0]); g_fd = fd[1]; child(w); }
        close(fd[1]);
        std::string o; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) o.append(b, n);
        close(fd[0]);
        int st; waitpid(pid, &st, 0);
        if (o.empty() || o[o.size() - 1] != '\n') o = "{\"id\":" + w[0] + ",\"end\":\"died " + num(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + "\",\"steps\":0,\"log\":[]}\n";
        std::cout << o;
    }
}
