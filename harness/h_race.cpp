// Objects shared by several threads, under a deterministic thread scheduler: only looked at for accesses that nothing
// orders (vrace.hpp); what the calls return is decided elsewhere (P16, P18, P31).
// Input line: id seed mode kind phases...  kind: reg, user, plug;  phase: thread programs separated by "/", ops separated by ","
//   reg:  a<i> add, l<i> load, r<i> remove, p<i> replace, k<i> clone, g<i> get, L<i> library of, f<i> find, x<i> run one, t<i> statistic of one, e empty, u run all, s statistic of all, c clear
//   user: a<u><p> add, h<u><p> add by hash, v<u><p> update, w<u><p> update by hash, r<u> remove, g<u> get, m<u><p> get with password, e empty
//   plug: o<s><n> open a name, f<s><n> open a file, c<s> close, y<s><t> copy, n<s> create and destroy, d add a directory, R reset the directories, s add a static plug-in, i<n> find a file, l list
#include "vh.hpp"
#include "vsched.hpp"
#include <pion/plugin.hpp>
#include <pion/plugin_manager.hpp>
#include <pion/user.hpp>
#include <sys/wait.h>
using namespace pion; using namespace vh;
static std::string g_log, g_libs; static bool g_first = true; static long long g_id; static int g_fd;
static void ev(const std::string& s) { VsQuiet q; g_log += (g_first ? "" : ",") + s; g_first = false; }
#ifdef VS_RACE
static void on_race(const char* what) { ev(std::string("{\"e\":\"race\",\"at\":\"") + what + "\"}"); }
#endif
static void out(const char* end) {
    std::string o = "{\"id\":" + num(g_id) + ",\"end\":\"" + end + "\",\"steps\":" + num(vs_steps()) + ",\"log\":[" + g_log + "]}\n";
    size_t d = 0; while (d < o.size()) { ssize_t n = write(g_fd, o.data() + d, o.size() - d); if (n <= 0) break; d += n; }
    _exit(0);
}
static void on_stuck(const char* why) { out(why); }
struct Obj { int n; Obj() : n(1) {} virtual ~Obj() { n = 0; } };
static boost::uint64_t stat_of(const Obj* o) { return o->n; }
static void run_of(Obj* o) { boost::uint64_t volatile k = o->n; (void)k; }
extern "C" {
void* vh_make(const char*) { return new Obj; }
void vh_unmake(void* p, const char*) { delete (Obj*)p; }
void vh_lib(const char*, int) {}
void* st_make(void) { return new Obj; } void st_unmake(void* p) { delete (Obj*)p; }
}
static volatile bool sink; static plugin_manager<Obj>* g_mgr; static user_manager* g_users;
static const char* ID[] = {"/a", "/a/b", "/b", "", "/c"};
static const char* SHA[] = {"a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1a1", "0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b0b"};
struct Prog { std::string kind; words ops; void operator()() const {
    plugin_ptr<Obj> slot[3];
    for (size_t i = 0; i < ops.size(); ++i) {
        const std::string& q = ops[i]; char o = q[0]; int x = q.size() > 1 ? q[1] - '0' : 0, y = q.size() > 2 ? q[2] - '0' : 0; vs_yield();
        try {
            if (kind == "reg") {
                std::string id(ID[x % 5]); Obj* p;
                switch (o) {
                case 'a': p = new Obj; try { g_mgr->add(id, p); } catch (std::exception&) { delete p; } break;
                case 'l': g_mgr->load(id, "B"); break;
                case 'r': g_mgr->remove(id); break;
                case 'p': p = new Obj; try { g_mgr->replace(id, p); } catch (std::exception&) { delete p; } break;
                case 'k': delete g_mgr->clone(id); break;
                case 'g': sink = g_mgr->get(id) != 0; sink = const_cast<const plugin_manager<Obj>*>(g_mgr)->get(id) != 0; break;
                case 'L': g_mgr->get_lib_ptr(id); break;
                case 'f': g_mgr->find(id + "/x"); break;
                case 'x': g_mgr->run(id, run_of); break;
                case 't': g_mgr->get_statistic(id, stat_of); break;
                case 'e': sink = g_mgr->empty(); break;
                case 'u': g_mgr->run(run_of); break;
                case 's': g_mgr->get_statistic(stat_of); break;
                case 'c': g_mgr->clear(); break;
                }
            } else if (kind == "user") {
                std::string u = std::string("u") + char('0' + x), p = std::string("p") + char('0' + y);
                switch (o) {
                case 'a': g_users->add_user(u, p); break;
                case 'v': g_users->update_user(u, p); break;
#ifdef PION_HAVE_SSL
                case 'h': g_users->add_user_hash(u, SHA[y % 2]); break;
                case 'w': g_users->update_user_hash(u, SHA[y % 2]); break;
#endif
                case 'r': g_users->remove_user(u); break;
                case 'g': g_users->get_user(u); break;
                case 'm': g_users->get_user(u, p); break;
                case 'e': sink = g_users->empty(); break;
                }
            } else {
                std::string n(1, "ABCX"[y % 4]), file; std::vector<std::string> all;
                switch (o) {
                case 'o': slot[x % 3].open(n); break;
                case 'f': slot[x % 3].open_file(g_libs + "/" + n + ".so"); break;
                case 'c': slot[x % 3].close(); break;
                case 'y': slot[x % 3] = slot[y % 3]; break;
                case 'n': { Obj* p = slot[x % 3].create(); slot[x % 3].destroy(p); break; }
                case 'd': plugin::add_plugin_directory(g_libs); break;
                case 'R': plugin::reset_plugin_directories(); break;
                case 's': plugin::add_static_entry_point(n == "A" ? "S" : "B", (void*)st_make, (void*)st_unmake); break;
                case 'i': plugin::find_plugin_file(file, n); break;
                case 'l': plugin::get_all_plugin_names(all); break;
                }
            }
        } catch (std::exception&) {}
        vs_yield();
    } } };
static words cut(const std::string& s, char d) { words w; std::string c; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == d) { w.push_back(c); c.clear(); } else c += s[i]; } w.push_back(c); return w; }
static void child(const words& w) {
    g_id = atoll(w[0].c_str());
    vs_on_stuck = on_stuck;
#ifdef VS_RACE
    vs_on_race = on_race;
#endif
    g_mgr = new plugin_manager<Obj>; g_users = new user_manager;
    vs_start(atoi(w[1].c_str()), atoi(w[2].c_str()), 60000);
    alarm(20);
    if (w[3] == "reg") plugin::add_static_entry_point("B", (void*)st_make, (void*)st_unmake);
    for (size_t p = 4; p < w.size(); ++p) {
        words progs = cut(w[p], '/');
        for (size_t i = 0; i < progs.size(); ++i) {
            Prog* g = new Prog; g->kind = w[3]; g->ops = cut(progs[i], ','); pthread_t h;
            struct F { static void* f(void* a) { (*(Prog*)a)(); return 0; } };
            pthread_create(&h, 0, F::f, g); pthread_detach(h);
        }
        vs_quiesce();
    }
    out("done");
}
int main(int n, char** a) {
    if (n > 1) g_libs = a[1];
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.empty()) continue;
        std::cout.flush();
        int fd[2]; if (pipe(fd)) return 3;
        pid_t pid = fork();
        if (pid == 0) { close(fd[0]); g_fd = fd[1]; child(w); }
        close(fd[1]);
        std::string o; char b[65536]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) o.append(b, k);
        close(fd[0]);
        int st; waitpid(pid, &st, 0);
        if (o.empty() || o[o.size() - 1] != '\n') o = "{\"id\":" + w[0] + ",\"end\":\"died " + num(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + "\",\"steps\":0,\"log\":[]}\n";
        std::cout << o;
    }
}
