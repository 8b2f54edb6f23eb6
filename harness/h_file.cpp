// Histories of web servers with file services: one thread runs the server's I/O and plays the client.
//  argv: quiet base           base: a directory for the user this drops its privileges to; every case has a tree of its own in it
//  id op op ...               paths are relative to the tree, "@" at the start of a value is the directory p/q/r of it, the working directory is p/q/r/x/y
//  N;resource                 O;resource;name;value    G start   P stop    T;seconds    Q;bytes   (strings as runs)
//  W;path;content;mtime;mode  D;path;mode (directory)  X;path remove       M;path;mtime;mode
#include "vh.hpp"
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <fcntl.h>
#include <utime.h>
#include <grp.h>
#include <errno.h>
#include <thread>
#include <boost/asio.hpp>
#include <boost/exception/all.hpp>
#include <boost/filesystem.hpp>
#include <pion/scheduler.hpp>
#include <pion/http/plugin_server.hpp>
#include "FileService.hpp"
using namespace pion; using namespace vh; namespace fs = boost::filesystem;
static time_t g_now = 1700000000;
extern "C" time_t time(time_t* t) { if (t) *t = g_now; return g_now; }
static int g_quiet = 1;
static words cut(const std::string& s, char d) { words w; std::string c; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == d) { w.push_back(c); c.clear(); } else c += s[i]; } w.push_back(c); return w; }
struct OneThread : public scheduler {
    boost::asio::io_service io; boost::asio::io_service::work work;
    OneThread() : work(io) {}
    virtual boost::asio::io_service& get_io_service(void) { return io; }
    virtual void startup(void) { m_is_running = true; }
};
struct TestServer : public http::plugin_server {
    TestServer(scheduler& s) : http::plugin_server(s, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4::loopback(), 0)) {}
    virtual void handle_connection(const tcp::connection_ptr& c) { boost::system::error_code ec; c->get_socket().set_option(boost::asio::ip::tcp::no_delay(true), ec); http::plugin_server::handle_connection(c); }
};
struct World {
    OneThread sched; TestServer server; int fd; std::string got; bool eof; bool on; std::string top, at;
    World(const std::string& t) : server(sched), fd(-1), eof(false), on(false), top(t), at(t + "/p/q/r") {
        fs::create_directories(at + "/x/y"); if (chdir((at + "/x/y").c_str())) _exit(96);
    }
    ~World() { if (fd >= 0) ::close(fd); stop(); }
    void stop() { if (!on) return; pump(); sched.io.reset(); std::thread th([this] { sched.io.run(); }); server.stop(false); sched.io.stop(); th.join(); sched.io.reset(); on = false; }
    void dial() {
        fd = ::socket(AF_INET, SOCK_STREAM, 0); int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(server.get_port()); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (::connect(fd, (sockaddr*)&a, sizeof a) != 0) { perror("connect"); _exit(99); }
        fcntl(fd, F_SETFL, O_NONBLOCK); eof = false; pump();
    }
    bool drain() {
        bool any = false; char b[65536]; int one = 1; if (fd < 0 || eof) return false;
        setsockopt(fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one);
        for (;;) { ssize_t n = ::recv(fd, b, sizeof b, 0);
            if (n > 0) { got.append(b, n); any = true; continue; }
            if (n == 0 || (errno != EAGAIN && errno != EINTR)) { eof = true; any = true; }
            break; }
        return any;
    }
    void pump() {
        int idle = 0;
        while (idle <= 2) {
            bool any = sched.io.poll() > 0; if (drain()) any = true;
            if (any) { idle = 0; continue; }
            ++idle; pollfd f; f.fd = fd; f.events = POLLIN; f.revents = 0;
            timespec ts; ts.tv_sec = 0; ts.tv_nsec = g_quiet * 300000L; ppoll(&f, fd >= 0 && !eof, &ts, 0);
        }
    }
    // everything there is, except the directories that are always there
    std::string snapshot() {
        std::string o = "["; std::vector<std::string> all; 
        for (fs::recursive_directory_iterator i(top), e; i != e; ++i) all.push_back(i->path().string().substr(top.size() + 1));
        std::sort(all.begin(), all.end());
        for (size_t i = 0; i < all.size(); ++i) {
            const std::string p = top + "/" + all[i]; struct stat st; if (lstat(p.c_str(), &st)) continue;
            std::string c; bool dir = S_ISDIR(st.st_mode);
            if (!dir) { if (!(st.st_mode & 0400)) chmod(p.c_str(), st.st_mode | 0400); std::ifstream is(p.c_str(), std::ios::binary); std::stringstream ss; ss << is.rdbuf(); c = ss.str(); if (!(st.st_mode & 0400)) chmod(p.c_str(), st.st_mode & 07777); }
            o += (i ? "," : "") + std::string("{\"p\":") + seq(all[i]) + ",\"d\":" + boo(dir) + ",\"c\":" + rle(c) + ",\"t\":" + num(dir ? 0 : (long long)st.st_mtime) + ",\"r\":" + boo(st.st_mode & 0400) + ",\"w\":" + boo(st.st_mode & 0200) + "}";
        }
        return o + "]";
    }
    void mark(const std::string& p, const std::string& t, const std::string& mode) { chmod(p.c_str(), 0644); struct utimbuf u; u.actime = u.modtime = atol(t.c_str()); utime(p.c_str(), &u); chmod(p.c_str(), strtol(mode.c_str(), 0, 8)); }
    std::string step(const std::string& t) {
        words f = cut(t, ';'); char o = f[0][0]; std::string a, b, c, d; bool ok = true; long long n = 0;
        for (size_t i = 1; i < f.size() && i < 4; ++i) (i == 1 ? a : i == 2 ? b : c) = f[i];
        switch (o) {
        case 'N': a = unrle(a); server.add_service(a, new plugins::FileService); break;
        case 'O': { a = unrle(a); b = unrle(b); c = unrle(c); std::string v = c; if (!v.empty() && v[0] == '@') v = at + v.substr(1); try { server.set_service_option(a, b, v); } catch (std::exception&) { ok = false; } break; }
        case 'G': try { server.start(); on = true; } catch (std::exception&) { ok = false; } break;
        case 'P': stop(); if (fd >= 0) { ::close(fd); fd = -1; got.clear(); } break;
        case 'T': n = atol(f[1].c_str()); g_now += n; break;
        case 'W': { a = unrle(a); std::string p = top + "/" + a; chmod(p.c_str(), 0644); std::ofstream os(p.c_str(), std::ios::binary | std::ios::trunc); os << unrle(b); os.close(); mark(p, f[3], f[4]); break; }
        case 'M': a = unrle(a); if (fs::is_regular_file(top + "/" + a)) mark(top + "/" + a, f[2], f[3]); break;
        case 'D': { a = unrle(a); std::string p = top + "/" + a; mkdir(p.c_str(), 0755); chmod(p.c_str(), strtol(f[2].c_str(), 0, 8)); break; }
        case 'X': { a = unrle(a); boost::system::error_code ec; fs::remove_all(top + "/" + a, ec); break; }
        case 'Q': { if (fd < 0 || eof) { if (fd >= 0) ::close(fd); fd = -1; if (on) dial(); } a = unrle(a); size_t off = 0;
            while (fd >= 0 && off < a.size() && !eof) { ssize_t k = ::send(fd, a.data() + off, a.size() - off, MSG_NOSIGNAL); if (k > 0) { off += k; continue; } if (errno == EAGAIN) { sched.io.poll(); drain(); continue; } break; }
            pump(); d = got; got.clear(); break; }
        default: fprintf(stderr, "bad op %s\n", t.c_str()); _exit(99);
        }
        return std::string("{\"op\":\"") + o + "\",\"a\":" + (o == 'Q' ? rle(a) : seq(o == 'N' || o == 'O' ? a : "")) + ",\"b\":" + seq(o == 'O' ? b : "") + ",\"v\":" + seq(o == 'O' ? c : "") + ",\"n\":" + num(n) + ",\"ok\":" + boo(ok)
            + ",\"d\":" + rle(d) + ",\"e\":" + boo(o == 'Q' && eof) + ",\"fs\":" + snapshot() + "}";
    }
};
static void clean(const std::string& p) {
    boost::system::error_code ec; if (!fs::exists(p)) return;
    for (fs::recursive_directory_iterator i(p), e; i != e; ++i) if (fs::is_directory(i->symlink_status())) chmod(i->path().c_str(), 0755);
    fs::remove_all(p, ec);
}
int main(int argc, char** argv) {
    PION_LOG_CONFIG_BASIC; PION_LOG_SETLEVEL_FATAL(PION_GET_LOGGER("pion"));
    if (argc < 3 || setgroups(0, 0) || setgid(65534) || setuid(65534)) { perror("privileges"); return 98; }
    prctl(PR_SET_DUMPABLE, 1); umask(022);
    g_quiet = atoi(argv[1]); std::string base = argv[2], line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.empty()) continue;
        guard(20); g_now = 1700000000; std::string o, top = base + "/c" + w[0];
        clean(top);
        { World s(top); for (size_t i = 1; i < w.size(); ++i) o += (i > 1 ? "," : "") + s.step(w[i]); }
        if (chdir(base.c_str())) return 95;
        clean(top);
        printf("{\"id\":%s,\"base\":%s,\"steps\":[%s]}\n", w[0].c_str(), seq(top + "/p/q/r").c_str(), o.c_str());
        fflush(stdout);
    }
    return 0;
}
