// tcp::stream under a deterministic thread scheduler, with a peer on a real loopback socket.
// Input line: id seed mode spurious phases...   phase: user program "/" peer program "/" canceller program, ops separated by ","
//   user: r<n> read, g get, p peek, u unget, a put back another byte, s<n> readsome, w<n> write, W<n> sputn, c put, f flush, x close, Z destroy, y yield
//   peer: w<n> send, e end sending, x close, r<n> read until n bytes are there, y yield;   canceller: k cancel what is pending, y yield
// Byte i of either direction is i % 251 + 5. mode 0/1: how threads are chosen, + 2: the sockets hold little.
#include "vh.hpp"
#include "vsched.hpp"
#include <list>
#include <pion/tcp/stream.hpp>
#include <sys/wait.h>
#include <sys/socket.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <linux/sockios.h>
#include <sys/syscall.h>
#include <poll.h>
#include <errno.h>
using namespace pion; using namespace vh;
static std::string g_log; static bool g_first = true; static long long g_id; static int g_fd, g_peer = -1; static long g_wants = 0, g_prog = 0;
static void ev(const std::string& s) { VsQuiet q; g_log += (g_first ? "" : ",") + s; g_first = false; }
#ifdef VS_RACE
static void on_race(const char* what) { ev(std::string("{\"e\":\"race\",\"at\":\"") + what + "\"}"); }
#endif
static std::string K(const char* k, long long v) { return std::string(",\"") + k + "\":" + num(v); }
static std::string runs(const std::string& b) {
    std::string o = "["; size_t i = 0;
    while (i < b.size()) { size_t j = i + 1; while (j < b.size() && (unsigned char)b[j] == ((unsigned char)b[j - 1] - 5 + 1) % 251 + 5) ++j; o += (i ? ",[" : "[") + num((unsigned char)b[i]) + "," + num(j - i) + "]"; i = j; if (o.size() > 4000) break; }
    return o + "]";
}
static void out(const char* end) {
    std::string o = "{\"id\":" + num(g_id) + ",\"end\":\"" + end + "\",\"steps\":" + num(vs_steps()) + ",\"log\":[" + g_log + "]}\n";
    size_t d = 0; while (d < o.size()) { ssize_t n = write(g_fd, o.data() + d, o.size() - d); if (n <= 0) break; d += n; }
    _exit(0);
}
static void on_stuck(const char* why) { out(why); }
static tcp::stream* g_s; static tcp::connection_ptr g_conn; static boost::asio::io_service* g_io; static long g_w = 0, g_sent = 0;
static std::string data(long from, long n) { std::string s(n, 0); for (long i = 0; i < n; ++i) s[i] = (char)((from + i) % 251 + 5); return s; }
static bool g_busy;
// what lies behind the buffers: another member of the connection, and the stream object behind its buffer
static const char* const MARK = (const char*)0x5a5a5a5a5a5a5a5aULL; static char g_behind[8];
static const char* behind() { return (const char*)g_s->rdbuf() + sizeof(tcp::stream_buffer); }
static void intact() {
    const char *a = MARK, *b = MARK;
    if (g_conn) g_conn->load_read_pos(a, b);
    if (a != MARK || b != MARK) ev("{\"e\":\"wrote behind the read buffer\"}");
    if (g_s && memcmp(g_behind, behind(), sizeof g_behind)) { ev("{\"e\":\"wrote behind the write buffer\"}"); memcpy((char*)behind(), g_behind, sizeof g_behind); }
}
static void user(const std::string& q) {
    char o = q[0]; long n = q.size() > 1 ? atol(q.c_str() + 1) : 0, r = 0; std::string b; char nm[2] = {o, 0};
    if (!g_s) return;
    ev(std::string("{\"e\":\"call\",\"op\":\"") + nm + "\"" + K("n", n) + "}");
    g_busy = true; vs_yield();
    tcp::stream& s = *g_s; s.clear();
    switch (o) {
    case 'r': b.resize(n); s.read(&b[0], n); r = s.gcount(); b.resize(r); break;
    case 'g': { int c = s.get(); if (c != EOF) { b.assign(1, (char)c); r = 1; } break; }
    case 'p': { int c = s.peek(); if (c != EOF) { b.assign(1, (char)c); r = 1; } break; }
    case 'u': s.unget(); r = s.good(); break;
    case 'a': { s.putback((char)3); r = s.good(); break; }
    case 's': b.resize(n); r = s.readsome(&b[0], n); b.resize(r); break;
    case 'w': b = data(g_w, n); g_w += n; s.write(b.data(), n); b.clear(); r = s.good(); break;
    case 'W': b = data(g_w, n); g_w += n; r = s.rdbuf()->std::streambuf::sputn(b.data(), n) == n; b.clear(); break;
    case 'c': b = data(g_w++, 1); s.put(b[0]); b.clear(); r = s.good(); break;
    case 'f': s.flush(); r = s.good(); break;
    case 'x': s.close(); r = 1; break;
    case 'Z': delete g_s; g_s = 0; g_conn.reset(); r = 1; break;
    }
    intact(); g_busy = false; ev("{\"e\":\"ret\"" + K("r", r) + ",\"b\":" + runs(b) + "}");
    vs_yield();
}
static void peer(const std::string& q) {
    char o = q[0]; long n = q.size() > 1 ? atol(q.c_str() + 1) : 0;
    if (g_peer < 0) return;
    vs_yield();
    if (o == 'w') {
        if (g_sent < 0) return;
        ev("{\"e\":\"ps\"" + K("n", n) + "}"); std::string b = data(g_sent, n); g_sent += n;
        size_t d = 0; while (d < b.size()) { ssize_t k = ::send(g_peer, b.data() + d, b.size() - d, MSG_NOSIGNAL | MSG_DONTWAIT); if (k > 0) d += k; else if (errno == EAGAIN) { pollfd p = {g_peer, POLLOUT, 0}; ::poll(&p, 1, -1); } else break; }
    } else if (o == 'e') { if (g_sent < 0) return; ev("{\"e\":\"pe\"}"); g_sent = -1; ::shutdown(g_peer, SHUT_WR); }
    else if (o == 'x') { ev("{\"e\":\"px\"}"); g_sent = -1; ::close(g_peer); g_peer = -1; }
    else if (o == 'r') {
        std::string b; g_wants = n;
        while ((long)b.size() < n) { char t[65536]; ssize_t k = ::recv(g_peer, t, std::min((long)sizeof t, n - (long)b.size()), MSG_DONTWAIT); if (k > 0) { b.append(t, k); g_prog += k; continue; } if (k < 0 && errno == EAGAIN) { pollfd p = {g_peer, POLLIN, 0}; ::poll(&p, 1, -1); continue; } break; }
        g_wants = 0; ev("{\"e\":\"pr\"" + K("n", n) + K("r", b.size()) + ",\"b\":" + runs(b) + "}");
    }
    vs_yield();
}
static void do_cancel() { if (g_conn) g_conn->cancel(); }
static std::list<words> g_todo[3]; static bool g_on[3];
struct Prog { int who; void operator()() const {
  for (; !g_todo[who].empty();) { words ops = g_todo[who].front(); g_todo[who].pop_front();
    for (size_t i = 0; i < ops.size(); ++i) {
        if (ops[i].empty()) continue;
        if (ops[i][0] == 'y') vs_yield();
        else if (who == 0) user(ops[i]); else if (who == 1) peer(ops[i]);
        else { vs_yield(); if (!g_s) continue; ev("{\"e\":\"cn\"}"); g_io->post(do_cancel); }
    } }
  g_on[who] = false; } };
static words cut(const std::string& s, char d) { words w; std::string c; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == d) { w.push_back(c); c.clear(); } else c += s[i]; } w.push_back(c); return w; }
struct Io { static void* f(void*) { boost::asio::io_service::work w(*g_io); g_io->run(); return 0; } };
struct Th { static void* f(void* a) { (*(Prog*)a)(); return 0; } };
static void child(const words& w) {
    g_id = atoll(w[0].c_str());
    vs_on_stuck = on_stuck;
#ifdef VS_RACE
    vs_on_race = on_race;
#endif
    vs_spurious = atoi(w[3].c_str()); vs_real_net = true;
    g_io = new boost::asio::io_service;
    boost::asio::ip::tcp::acceptor acc(*g_io, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4::loopback(), 0));
    g_peer = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(acc.local_endpoint().port()); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    bool small = atoi(w[2].c_str()) & 2; int lo = 1; if (small) setsockopt(g_peer, SOL_SOCKET, SO_RCVBUF, &lo, sizeof lo);
    if (::connect(g_peer, (sockaddr*)&a, sizeof a)) _exit(7);
    g_conn.reset(new tcp::connection(*g_io));
    if (g_conn->accept(acc)) _exit(8);
    if (small) setsockopt(g_conn->get_socket().native_handle(), SOL_SOCKET, SO_SNDBUF, &lo, sizeof lo);
    g_s = new tcp::stream(g_conn);
    acc.close();
    g_conn->save_read_pos(MARK, MARK); memcpy(g_behind, behind(), sizeof g_behind);
    vs_start(atoi(w[1].c_str()), atoi(w[2].c_str()) & 1, 400000);
    alarm(40);
    pthread_t h; pthread_create(&h, 0, Io::f, 0); pthread_detach(h);
    for (size_t p = 4; p < w.size(); ++p) {
        words progs = cut(w[p], '/');
        for (size_t i = 0; i < progs.size(); ++i) { g_todo[i].push_back(cut(progs[i], ',')); if (g_on[i]) continue; g_on[i] = true; Prog* g = new Prog; g->who = i; pthread_create(&h, 0, Th::f, g); pthread_detach(h); }
        vs_quiesce();
        for (int t = 0, same = 0; t < (small ? 60 : 8) && (g_busy || g_wants); ++t) {      // the kernel may take its time to move what is on its way
            int a = 0, b = 0; if (g_peer >= 0) ioctl(g_peer, SIOCOUTQ, &a); if (g_conn) ioctl(g_conn->get_socket().native_handle(), SIOCOUTQ, &b);
            if (a <= 0 && b <= 0 && !(small && g_wants)) break;
            size_t l = g_log.size() + g_prog; syscall(SYS_poll, 0, 0, small ? 50 : 260); vs_quiesce(); same = l == g_log.size() + g_prog ? same + 1 : 0; if (small ? same > 8 : t > 2 && same) break;
        }
        ev("{\"e\":\"quiet\"" + K("n", g_wants) + "}");
    }
    out("done");
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.empty()) continue;
        std::cout.flush();
        int fd[2]; if (pipe(fd)) return 3;
        pid_t pid = fork();
        if (pid == 0) { close(fd[0]); g_fd = fd[1]; child(w); }
        close(fd[1]);
        std::string o; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) o.append(b, n);
        close(fd[0]);
        int st; waitpid(pid, &st, 0);
        if (o.empty() || o[o.size() - 1] != '\n') o = "{\"id\":" + w[0] + ",\"end\":\"died " + num(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + "\",\"steps\":0,\"log\":[]}\n";
        std::cout << o;
    }
}
