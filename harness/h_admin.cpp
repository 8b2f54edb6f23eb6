// Administrative rights with stand-ins for the calls that change the ids of the process (nothing real is changed), under a
// deterministic thread scheduler.
// Input line: id seed mode ruid,euid,suid,rgid,egid,sgid passwd-runs group-runs phases...   (tables: text with newlines, as byte runs)
//   phase: thread programs separated by "/", ops separated by ",": M<o> make object o, L<o> release, K<o> destroy, E read the effective user,
//   U<runs> run_as_user, G<runs> run_as_group   (runs use ";" instead of ",")
#include "vh.hpp"
#include "vsched.hpp"
#include <pion/admin_rights.hpp>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <stdarg.h>
#include <dlfcn.h>
#include <errno.h>
#include <sys/syscall.h>
#include <pwd.h>
#include <grp.h>
using namespace pion; using namespace vh;
static std::string g_log; static int g_call = 0; static bool g_first = true; static long long g_id; static int g_fd; static std::string g_dir;
// ---- the ids of the process, kept here
static unsigned ru, eu, su, rg, eg, sg; static bool g_fake = false;
static bool mayu(unsigned u) { return eu == 0 || u == ru || u == eu || u == su; }
static bool mayg(unsigned g) { return eu == 0 || g == rg || g == eg || g == sg; }
static int eperm() { errno = EPERM; return -1; }
extern "C" {
uid_t geteuid(void) throw() { return g_fake ? eu : (uid_t)syscall(SYS_geteuid); }
uid_t getuid(void) throw() { return g_fake ? ru : (uid_t)syscall(SYS_getuid); }
gid_t getegid(void) throw() { return g_fake ? eg : (gid_t)syscall(SYS_getegid); }
gid_t getgid(void) throw() { return g_fake ? rg : (gid_t)syscall(SYS_getgid); }
int getresuid(uid_t* r, uid_t* e, uid_t* s) throw() { *r = ru; *e = eu; *s = su; return 0; }
int getresgid(gid_t* r, gid_t* e, gid_t* s) throw() { *r = rg; *e = eg; *s = sg; return 0; }
int setresuid(uid_t r, uid_t e, uid_t s) throw() {
    vs_yield();
    if ((r != (uid_t)-1 && !mayu(r)) || (e != (uid_t)-1 && !mayu(e)) || (s != (uid_t)-1 && !mayu(s))) return eperm();
    if (r != (uid_t)-1) ru = r; if (e != (uid_t)-1) eu = e; if (s != (uid_t)-1) su = s; return 0; }
int setresgid(gid_t r, gid_t e, gid_t s) throw() {
    vs_yield();
    if ((r != (gid_t)-1 && !mayg(r)) || (e != (gid_t)-1 && !mayg(e)) || (s != (gid_t)-1 && !mayg(s))) return eperm();
    if (r != (gid_t)-1) rg = r; if (e != (gid_t)-1) eg = e; if (s != (gid_t)-1) sg = s; return 0; }
int seteuid(uid_t u) throw() { vs_yield(); if (u == (uid_t)-1) { errno = EINVAL; return -1; } return setresuid(-1, u, -1); }
int setegid(gid_t g) throw() { vs_yield(); if (g == (gid_t)-1) { errno = EINVAL; return -1; } return setresgid(-1, g, -1); }
int setreuid(uid_t r, uid_t e) throw() { int x = setresuid(r, e, -1); if (!x && (r != (uid_t)-1 || (e != (uid_t)-1 && e != ru))) su = eu; return x; }
int setregid(gid_t r, gid_t e) throw() { int x = setresgid(r, e, -1); if (!x && (r != (gid_t)-1 || (e != (gid_t)-1 && e != rg))) sg = eg; return x; }
int setuid(uid_t u) throw() { vs_yield(); if (eu == 0) { ru = eu = su = u; return 0; } return setresuid(-1, u, -1); }
int setgid(gid_t u) throw() { vs_yield(); if (eu == 0) { rg = eg = sg = u; return 0; } return setresgid(-1, u, -1); }
// ---- the system tables
static const char* redirect(const char* p) { static thread_local char b[400];
    if (!g_fake || !p || (strcmp(p, "/etc/passwd") && strcmp(p, "/etc/group"))) return p;
    snprintf(b, sizeof b, "%s/%s", g_dir.c_str(), p + 5); return b; }
FILE* fopen(const char* p, const char* m) { static FILE* (*r)(const char*, const char*) = (FILE* (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen"); return r(redirect(p), m); }
FILE* fopen64(const char* p, const char* m) { static FILE* (*r)(const char*, const char*) = (FILE* (*)(const char*, const char*))dlsym(RTLD_NEXT, "fopen64"); return r(redirect(p), m); }
int open(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return syscall(SYS_openat, AT_FDCWD, redirect(p), f, m); }
int open64(const char* p, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return syscall(SYS_openat, AT_FDCWD, redirect(p), f, m); }
}
static void ev(const std::string& s) { VsQuiet q; g_log += (g_first ? "" : ",") + s; g_first = false; }
#ifdef VS_RACE
static void on_race(const char* what) { ev(std::string("{\"e\":\"race\",\"at\":\"") + what + "\"}"); }
#endif
static std::string K(const char* k, long long v) { return std::string(",\"") + k + "\":" + num(v); }
static std::string id(long long v) { return seq(num(v)); }
static int call(char op, int o, const std::string& n) { int c = ++g_call; ev(std::string("{\"e\":\"call\",\"op\":\"") + op + "\"" + K("c", c) + K("t", vs_self()) + K("o", o) + ",\"n\":" + seq(n) + "}"); return c; }
static void ret(int c, const std::string& r) { ev("{\"e\":\"ret\"" + K("c", c) + ",\"r\":" + r + "}"); }
static void quiet() { ev("{\"e\":\"quiet\",\"now\":[" + id(ru) + "," + id(eu) + "," + id(su) + "," + id(eg) + "]}"); }
static void out(const char* end) {
    std::string o = "{\"id\":" + num(g_id) + ",\"end\":\"" + end + "\",\"steps\":" + num(vs_steps()) + ",\"log\":[" + g_log + "]}\n";
    size_t d = 0; while (d < o.size()) { ssize_t n = write(g_fd, o.data() + d, o.size() - d); if (n <= 0) break; d += n; }
    _exit(0);
}
static void on_stuck(const char* why) { out(why); }
static std::map<int, admin_rights*> g_objs;
struct Prog { std::string ops; void operator()() const {
    words w; { std::string c; for (size_t i = 0; i <= ops.size(); ++i) if (i == ops.size() || ops[i] == ',') { w.push_back(c); c.clear(); } else c += ops[i]; }
    for (size_t i = 0; i < w.size(); ++i) {
        char o = w[i][0]; std::string a = w[i].substr(1), r = "[]", nm; int k = atoi(a.c_str());
        if (o == 'U' || o == 'G') { std::replace(a.begin(), a.end(), ';', ','); nm = unrle(a); k = 0; }
        if (k < 0) k = 0;
        bool nolog = o == 'M' && a.size() && a[a.size() - 1] == 'n';
        int c = call(o, k, nm);
        vs_yield();
        try {
            switch (o) {
            case 'M': g_objs[k] = new admin_rights(!nolog); break;
            case 'L': g_objs[k]->release(); break;
            case 'K': delete g_objs[k]; g_objs.erase(k); break;
            case 'E': r = id(eu); break;
            case 'U': r = id(admin_rights::run_as_user(nm)); break;
            case 'G': r = id(admin_rights::run_as_group(nm)); break;
            }
        } catch (std::exception&) { r = seq("exception"); }
        ret(c, r);
        vs_yield();
    } } };
static void child(const words& w) {
    g_id = atoll(w[0].c_str());
    { std::ofstream a((g_dir + "/passwd").c_str(), std::ios::binary), b((g_dir + "/group").c_str(), std::ios::binary); a << unrle(w[4]); b << unrle(w[5]); }
    sscanf(w[3].c_str(), "%u,%u,%u,%u,%u,%u", &ru, &eu, &su, &rg, &eg, &sg); g_fake = true;
    vs_on_stuck = on_stuck;
#ifdef VS_RACE
    vs_on_race = on_race;
#endif
   
    vs_start(atoi(w[1].c_str()), atoi(w[2].c_str()), 60000);
    alarm(20);
    for (size_t p = 6; p < w.size(); ++p) {
        std::string c; std::vector<std::string> progs;
        for (size_t i = 0; i <= w[p].size(); ++i) if (i == w[p].size() || w[p][i] == '/') { progs.push_back(c); c.clear(); } else c += w[p][i];
        for (size_t i = 0; i < progs.size(); ++i) {
            Prog* g = new Prog; g->ops = progs[i]; pthread_t h;
            struct F { static void* f(void* a) { (*(Prog*)a)(); return 0; } };
            pthread_create(&h, 0, F::f, g); pthread_detach(h);
        }
        vs_quiesce();
        quiet();
    }
    out("done");
}
int main(int, char** argv) {
    char t[300]; snprintf(t, sizeof t, "%s/adm%d", argv[1], (int)getpid()); mkdir(t, 0755); g_dir = t;
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.empty()) continue;
        std::cout.flush();
        int fd[2]; if (pipe(fd)) return 3;
        pid_t pid = fork();
        if (pid == 0) { close(fd[0]); g_fd = fd[1]; child(w); }
        close(fd[1]);
        std::string o; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) o.append(b, n);
        close(fd[0]);
        int st; waitpid(pid, &st, 0);
        if (o.empty() || o[o.size() - 1] != '\n') o = "{\"id\":" + w[0] + ",\"end\":\"died " + num(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + "\",\"steps\":0,\"log\":[]}\n";
        std::cout << o;
    }
}
