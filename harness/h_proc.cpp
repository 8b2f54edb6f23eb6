// Process shutdown under a deterministic thread scheduler.
// Input line: id seed mode spurious init phases...   init: 1 install the signal handlers first, 2 in a thread of the first phase, 0 never
//   phase: thread programs separated by "/": ops W wait_for_shutdown, X shutdown, I initialize, y yield;  "T<n>" / "N<n>" raise SIGTERM / SIGINT
//   in some thread n steps later; "t" / "n" alone as a phase: raise it now, in a thread that is waiting
#include "vh.hpp"
#include "vsched.hpp"
#include <pion/process.hpp>
#include <sys/wait.h>
using namespace pion; using namespace vh;
static std::string g_log; static int g_call = 0; static bool g_first = true; static long long g_id; static int g_fd;
static void ev(const std::string& s) { VsQuiet q; g_log += (g_first ? "" : ",") + s; g_first = false; }
#ifdef VS_RACE
static void on_race(const char* what) { ev(std::string("{\"e\":\"race\",\"at\":\"") + what + "\"}"); }
#endif
static std::string K(const char* k, long long v) { return std::string(",\"") + k + "\":" + num(v); }
static int call(const char* op) { int c = ++g_call; ev(std::string("{\"e\":\"call\",\"op\":\"") + op + "\"" + K("c", c) + K("t", vs_self()) + "}"); return c; }
static void ret(int c) { ev("{\"e\":\"ret\"" + K("c", c) + K("r", 0) + "}"); }
static void out(const char* end) {
    std::string o = "{\"id\":" + num(g_id) + ",\"end\":\"" + end + "\",\"steps\":" + num(vs_steps()) + ",\"log\":[" + g_log + "]}\n";
    size_t d = 0; while (d < o.size()) { ssize_t n = write(g_fd, o.data() + d, o.size() - d); if (n <= 0) break; d += n; }
    _exit(0);
}
static void on_stuck(const char* why) { out(why); }
static std::vector<std::pair<int,int> > g_sig;
static void on_signal(int t, int, bool begin) {
    if (begin) g_sig.push_back(std::make_pair(t, call("G")));
    else for (size_t i = g_sig.size(); i-- > 0;) if (g_sig[i].first == t) { ret(g_sig[i].second); g_sig.erase(g_sig.begin() + i); break; }
}
struct Prog { std::string ops; void operator()() const {
    for (size_t i = 0; i < ops.size(); ++i) {
        char o = ops[i];
        if (o == 'y') { vs_yield(); continue; }
        if (o == 'T' || o == 'N') { int k = atoi(ops.c_str() + i + 1); vs_signal_in(k, o == 'T' ? SIGTERM : SIGINT); while (i + 1 < ops.size() && isdigit(ops[i + 1])) ++i; continue; }
        char nm[2] = {o, 0}; int c = call(nm);
        vs_yield();
        if (o == 'W') process::wait_for_shutdown(); else if (o == 'X') process::shutdown(); else if (o == 'I') process::initialize();
        ret(c);
        vs_yield();
    } } };
static void child(const words& w) {
    g_id = atoll(w[0].c_str());
    vs_on_stuck = on_stuck;
#ifdef VS_RACE
    vs_on_race = on_race;
#endif
    vs_on_signal = on_signal; vs_spurious = atoi(w[3].c_str());
    if (w[4] == "1") process::initialize();
    vs_start(atoi(w[1].c_str()), atoi(w[2].c_str()), 60000);
    alarm(20);
    for (size_t p = 5; p < w.size(); ++p) {
        if (w[p] == "t" || w[p] == "n") vs_signal_now(w[p] == "t" ? SIGTERM : SIGINT);
        else {
            std::string c; std::vector<std::string> progs;
            for (size_t i = 0; i <= w[p].size(); ++i) if (i == w[p].size() || w[p][i] == '/') { progs.push_back(c); c.clear(); } else c += w[p][i];
            for (size_t i = 0; i < progs.size(); ++i) {
                Prog* g = new Prog; g->ops = progs[i]; pthread_t h;
                struct F { static void* f(void* a) { (*(Prog*)a)(); return 0; } };
                pthread_create(&h, 0, F::f, g); pthread_detach(h);
            }
        }
        vs_quiesce();
        ev("{\"e\":\"quiet\"}");
    }
    out("done");
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.empty()) continue;
        std::cout.flush();
        int fd[2]; if (pipe(fd)) return 3;
        pid_t pid = fork();
        if (pid == 0) { close(fd[0]); g_fd = fd[1]; child(w); }
        close(fd[1]);
        std::string o; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) o.append(b, n);
        close(fd[0]);
        int st; waitpid(pid, &st, 0);
        if (o.empty() || o[o.size() - 1] != '\n') o = "{\"id\":" + w[0] + ",\"end\":\"died " + num(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + "\",\"steps\":0,\"log\":[]}\n";
        std::cout << o;
    }
}
