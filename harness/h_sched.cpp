// Schedulers under a deterministic thread scheduler.
// Input line: id kind seed mode threads spurious phases...   kind: S single service, O one to one
//   phase: thread programs separated by "/"; a program is a list of ops separated by ","
//   ops: S startup, D shutdown, J join, A add user, R remove user, Q is_running, N<k> set_num_threads, T six seconds pass,
//        P<body> post a job, V<body> post a job to a service obtained from the scheduler
//   body: letters of what the job does: y yield, e throw std::exception, i throw int, r remove a user, p post "y", q post "e"
// Output: the totally ordered log of calls, returns, jobs and threads.
#include "vh.hpp"
#include "vsched.hpp"
#include <pion/scheduler.hpp>
#include <sys/wait.h>
#include <sys/mman.h>
using namespace pion; using namespace vh;
static std::string g_log; static int g_call = 0, g_job = 0; static bool g_first = true; static long long g_id;
static scheduler* g_s; static std::map<void*, int> g_svc;
static std::set<int> g_mine;                              // threads made by the harness
static bool g_making = false;
static void ev(const std::string& s) { VsQuiet q; g_log += (g_first ? "" : ",") + s; g_first = false; }
#ifdef VS_RACE
static void on_race(const char* what) { ev(std::string("{\"e\":\"race\",\"at\":\"") + what + "\"}"); }
#endif
static std::string K(const char* k, long long v) { return std::string(",\"") + k + "\":" + num(v); }
static int call(const char* op, int j = 0, int v = 0) { int c = ++g_call; ev(std::string("{\"e\":\"call\",\"op\":\"") + op + "\"" + K("c", c) + K("j", j) + K("v", v) + K("t", vs_self()) + "}"); return c; }
static void ret(int c, int r = 0) { ev("{\"e\":\"ret\"" + K("c", c) + K("r", r) + "}"); }
struct Body { std::string b; int j, svc; void operator()() const; };
static void post(const std::string& b, bool direct);
void Body::operator()() const {
    ev("{\"e\":\"js\"" + K("j", j) + K("w", vs_self()) + K("v", svc) + "}");
    vs_yield();
    for (size_t i = 0; i < b.size(); ++i) {
        char c = b[i];
        if (c == 'y') { vs_yield(); vs_yield(); }
        else if (c == 'r') { int k = call("R"); g_s->remove_active_user(); ret(k); }
        else if (c == 'p') post("y", false);
        else if (c == 'q') post("e", false);
        else { ev("{\"e\":\"je\"" + K("j", j) + K("w", vs_self()) + "}"); if (c == 'e') throw std::runtime_error("job"); throw 5; }
    }
    ev("{\"e\":\"je\"" + K("j", j) + K("w", vs_self()) + "}");
}
static void post(const std::string& b, bool direct) {
    Body x; x.b = b; x.j = ++g_job; x.svc = 0;
    int c;
    if (direct) {
        c = call("P", x.j);
        boost::asio::io_service& s = g_s->get_io_service();
        if (!g_svc.count(&s)) { int n = g_svc.size() + 1; g_svc[&s] = n; }
        x.svc = g_svc[&s];
        s.post(x);
    } else { c = call("P", x.j); g_s->post(x); }
    ret(c);
}
static int g_regs = 0;                                    // users added by programs and not yet removed
struct Prog { std::string ops; void operator()() const {
    words w; { std::string c; for (size_t i = 0; i <= ops.size(); ++i) if (i == ops.size() || ops[i] == ',') { w.push_back(c); c.clear(); } else c += ops[i]; }
    for (size_t i = 0; i < w.size(); ++i) {
        if (w[i].empty()) continue;
        char o = w[i][0]; int c;
        if (o == 'P' && w[i].find('r') != std::string::npos) { if (g_regs == 0) continue; --g_regs; }
        if (o == 'P' || o == 'V') { post(w[i].substr(1), o == 'V'); continue; }
        char nm[2] = {o, 0}; int k = w[i].size() > 1 ? atoi(w[i].c_str() + 1) : 0, r = 0;
        if (o == 'R') { if (g_regs == 0) continue; --g_regs; }
        c = call(nm, 0, k);
        vs_yield();
        switch (o) { case 'S': g_s->startup(); break; case 'D': g_s->shutdown(); break; case 'J': g_s->join(); break;
            case 'A': g_s->add_active_user(); break; case 'R': g_s->remove_active_user(); break;
            case 'Q': r = g_s->is_running(); break; case 'N': g_s->set_num_threads(k); break; }
        ret(c, r);
        if (o == 'A') ++g_regs;
        vs_yield();
    } } };
static int g_fd;
static void out(const char* end) {
    std::string o = "{\"id\":" + num(g_id) + ",\"end\":\"" + end + "\",\"steps\":" + num(vs_steps()) + ",\"log\":[" + g_log + "]}\n";
    size_t d = 0; while (d < o.size()) { ssize_t n = write(g_fd, o.data() + d, o.size() - d); if (n <= 0) break; d += n; }
    _exit(0);
}
static void on_stuck(const char* why) { out(why); }
static void on_thread(int t, bool start) {
    if (start && g_making) { g_making = false; g_mine.insert(t); return; }
    if (g_mine.count(t)) return;
    ev(std::string("{\"e\":\"") + (start ? "ws" : "we") + "\"" + K("w", t) + "}");
}
static void child(const words& w) {
    g_id = atoll(w[0].c_str());
    vs_on_stuck = on_stuck;
#ifdef VS_RACE
    vs_on_race = on_race;
#endif
    vs_on_thread = on_thread; vs_spurious = atoi(w[5].c_str());
    vs_start(atoi(w[2].c_str()), atoi(w[3].c_str()), 60000);
    alarm(20);
    if (w[1] == "S") g_s = new single_service_scheduler; else g_s = new one_to_one_scheduler;
    g_s->set_num_threads(atoi(w[4].c_str()));
    for (size_t p = 6; p < w.size(); ++p) {
        if (w[p] == "T") { vs_advance(6000000000LL); vs_quiesce(); ev("{\"e\":\"quiet\"}"); continue; }
        std::string c; std::vector<std::string> progs;
        for (size_t i = 0; i <= w[p].size(); ++i) if (i == w[p].size() || w[p][i] == '/') { progs.push_back(c); c.clear(); } else c += w[p][i];
        for (size_t i = 0; i < progs.size(); ++i) {
            Prog g; g.ops = progs[i]; pthread_t h;
            g_making = true;
            // creating yields only after on_thread
            Prog* gp = new Prog(g);
            struct F { static void* f(void* a) { (*(Prog*)a)(); return 0; } };
            pthread_create(&h, 0, F::f, gp);
            g_making = false; pthread_detach(h);
        }
        vs_quiesce();
        ev("{\"e\":\"quiet\"}");
    }
    out("done");
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.empty()) continue;
        std::cout.flush();
        int fd[2]; if (pipe(fd)) return 3;
        pid_t pid = fork();
        if (pid == 0) { close(fd[0]); g_fd = fd[1]; child(w); }
        close(fd[1]);
        std::string o; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) o.append(b, n);
        close(fd[0]);
        int st; waitpid(pid, &st, 0);
        if (o.empty() || o[o.size() - 1] != '\n') o = "{\"id\":" + w[0] + ",\"end\":\"died " + num(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + "\",\"steps\":0,\"log\":[]}\n";
        std::cout << o;
    }
}
