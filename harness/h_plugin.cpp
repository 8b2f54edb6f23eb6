// Plug-in references, lookup and registry.  usage: h_plugin <directory with the pre-built libraries> <scratch directory>
// Input: id kind steps...     step: op;arg;arg...   "@" at the start of a path is the case's own root directory.
// Every case runs in a child process with a root directory of its own.
#include "vh.hpp"
#include <pion/plugin.hpp>
#include <pion/plugin_manager.hpp>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <mutex>
#include <atomic>
#include <climits>
#include <memory>
using namespace pion; using namespace vh;
struct Obj { std::string tag; int serial; bool gone; static bool log; Obj(const std::string& t); virtual ~Obj(); };
static std::mutex g_mu; static std::vector<std::string> g_ev; static std::map<std::string,int> g_loaded; static int g_serial = 0; static std::vector<Obj*> g_objs;
static thread_local int t_last = 0;
static void ev(const std::string& s) { std::lock_guard<std::mutex> l(g_mu); g_ev.push_back(s); }
Obj::Obj(const std::string& t) : tag(t) { std::lock_guard<std::mutex> l(g_mu); serial = ++g_serial; g_objs.push_back(this); }
static std::string q(const std::string& s) { return "\"" + s + "\""; }
static thread_local const char *t_via = 0;
Obj::~Obj() { std::lock_guard<std::mutex> l(g_mu); for (size_t i = 0; i < g_objs.size(); ++i) if (g_objs[i] == this) { g_objs.erase(g_objs.begin() + i); break; }
    g_ev.push_back("[" + num(serial) + "," + q(t_via ? t_via : "delete") + "]"); }
static std::vector<std::string> g_make;   // "tag" of every create call
extern "C" {
void *vh_make(const char *tag) { { std::lock_guard<std::mutex> l(g_mu); g_make.push_back(tag); } if (tag[0] == 'T') throw std::runtime_error("create"); Obj *o = new Obj(tag); t_last = o->serial; return o; }
void vh_unmake(void *p, const char *tag) { t_via = tag; delete (Obj*)p; t_via = 0; }
void vh_lib(const char *tag, int in) { std::lock_guard<std::mutex> l(g_mu); if (in) g_loaded[tag]++; else g_loaded[tag]--; g_ev.push_back(std::string("[") + (in ? "1" : "-1") + "," + q(std::string("lib ") + tag) + "]"); }
// statically linked plug-ins
void *st_make_A(void) { return vh_make("SA"); } void st_unmake_A(void *p) { vh_unmake(p, "SA"); }
void *st_make_B(void) { return vh_make("SB"); } void st_unmake_B(void *p) { vh_unmake(p, "SB"); }
}
static std::string g_root, g_libs;
static std::string P(const std::string& p) { return (!p.empty() && p[0] == '@') ? g_root + p.substr(1) : p; }
static std::string unP(const std::string& p) { char b[PATH_MAX]; std::string r = realpath(p.c_str(), b) ? b : p; return r.compare(0, g_root.size(), g_root) == 0 ? "@" + r.substr(g_root.size()) : "outside:" + r; }
static words cut(const std::string& s, char d) { words w; std::string c; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == d) { w.push_back(c); c.clear(); } else c += s[i]; } w.push_back(c); return w; }
static void copy(const std::string& a, const std::string& b) { std::ifstream i(a.c_str(), std::ios::binary); std::ofstream o(b.c_str(), std::ios::binary); o << i.rdbuf(); }
static std::string evs() { std::lock_guard<std::mutex> l(g_mu); std::string o = "["; for (size_t i = 0; i < g_ev.size(); ++i) o += (i ? "," : "") + g_ev[i]; g_ev.clear(); return o + "]"; }
static std::string makes() { std::lock_guard<std::mutex> l(g_mu); std::string o = "["; for (size_t i = 0; i < g_make.size(); ++i) o += (i ? "," : "") + q(g_make[i]); g_make.clear(); return o + "]"; }
static std::string loaded() { std::lock_guard<std::mutex> l(g_mu); std::string o = "["; bool f = true; for (std::map<std::string,int>::iterator i = g_loaded.begin(); i != g_loaded.end(); ++i) if (i->second) { o += (f ? "" : ",") + q(i->first); f = false; } return o + "]"; }
struct Inst : plugin_instance_ptr<Obj> {};
typedef plugin_ptr<Obj> Ref;
static std::string jargs(const words& f) { std::string o = "["; for (size_t i = 1; i < f.size(); ++i) o += (i > 1 ? "," : "") + q(f[i]); return o + "]"; }
static int n(const std::string& s) { return atoi(s.c_str()); }

static void run_ref(const words& w) {
    std::vector<std::unique_ptr<Ref> > slot(4); for (int i = 0; i < 4; ++i) slot[i].reset(new Ref); std::vector<std::unique_ptr<Inst> > inst(3); for (int i = 0; i < 3; ++i) inst[i].reset(new Inst);
    std::string out = "{\"id\":" + w[0] + ",\"kind\":\"ref\",\"steps\":[";
    for (size_t k = 2; k < w.size(); ++k) {
        words f = cut(w[k], ';'); const std::string op = f[0]; std::string r = "ok", v, lst = "[]"; int dead = 0;
        if (f.size() < 2) f.push_back("");
        if (op == "mk") { std::string p = P(f[1]);
            if (f[2] == "dir") mkdir(p.c_str(), 0755); else if (f[2] == "link") { if (symlink(P(f[3]).c_str(), p.c_str())) {} } else if (f[2] == "fifo") mkfifo(p.c_str(), 0600);
            else if (f[2] == "txt") { std::ofstream o(p.c_str()); o << "text\n"; } else copy(g_libs + "/" + f[2], p); }
        else if (op == "rm") remove(P(f[1]).c_str());
        else if (op == "cd") { if (chdir(P(f[1]).c_str())) exit(4); }
        else try {
            if (op == "o") slot[n(f[1])]->open(P(f[2]));
            else if (op == "f") slot[n(f[1])]->open_file(P(f[2]));
            else if (op == "c") slot[n(f[1])]->close();
            else if (op == "y") { int d = n(f[1]); std::unique_ptr<Ref> c(new Ref(*slot[n(f[2])])); slot[d].swap(c); }
            else if (op == "a") *slot[n(f[1])] = *slot[n(f[2])];
            else if (op == "n") { Obj *o = slot[n(f[1])]->create(); v = o->tag; }
            else if (op == "x") { Ref& s = *slot[n(f[1])]; Obj *o = 0; for (size_t i = 0; i < g_objs.size(); ++i) { std::string t = g_objs[i]->tag; bool ofinst = false; for (int j = 0; j < 3; ++j) ofinst |= inst[j]->get() == g_objs[i];
                    if (!ofinst && s.is_open() && (t[0] == 'S' ? t.substr(1) : t.substr(0, 1)) == s.get_plugin_name()) o = g_objs[i]; }
                if (!s.is_open()) s.destroy(0); else if (o) { dead = o->serial; s.destroy(o); } else r = "none"; }
            else if (op == "ic") inst[n(f[1])]->create(P(f[2]));
            else if (op == "ir") inst[n(f[1])]->reset();
            else if (op == "id") inst[n(f[1])].reset(new Inst);
            else if (op == "ad") plugin::add_plugin_directory(P(f[1]));
            else if (op == "rd") plugin::reset_plugin_directories();
            else if (op == "st") { if (f[1] == "A") plugin::add_static_entry_point("A", (void*)st_make_A, (void*)st_unmake_A); else plugin::add_static_entry_point("B", (void*)st_make_B, (void*)st_unmake_B); }
            else if (op == "fp" || op == "fc") { std::string p = "unset"; bool ok = op == "fp" ? plugin::find_plugin_file(p, P(f[1])) : plugin::find_config_file(p, P(f[1])); r = ok ? "ok" : "none"; v = ok ? unP(p) : p; }
            else if (op == "ls") { std::vector<std::string> nm; plugin::get_all_plugin_names(nm); std::sort(nm.begin(), nm.end()); lst = "["; for (size_t i = 0; i < nm.size(); ++i) lst += (i ? "," : "") + q(nm[i]); lst += "]"; }
            else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
        } catch (std::exception&) { r = "throw"; }
        std::string names = "[", insts = "[";
        for (int i = 1; i < 4; ++i) names += (i > 1 ? "," : "") + q(slot[i]->is_open() ? slot[i]->get_plugin_name() : "");
        for (int i = 1; i < 3; ++i) { Obj *o = inst[i]->get(); std::string t; if (inst[i]->empty()) t = ""; else { t = "dangling"; for (size_t j = 0; j < g_objs.size(); ++j) if (g_objs[j] == o) t = o->tag + "#" + num(o->serial); } insts += (i > 1 ? "," : "") + q(t); }
        std::string mk = makes(), e = evs();
        out += (k > 2 ? "," : "") + ("{\"op\":" + q(op) + ",\"a\":" + jargs(f) + ",\"r\":" + q(r) + ",\"v\":" + q(v) + ",\"lst\":" + lst + ",\"dead\":" + num(dead) + ",\"names\":" + names + "],\"insts\":" + insts + "],\"loaded\":" + loaded() + ",\"made\":" + mk + ",\"ev\":" + e + "}");
    }
    slot.clear(); inst.clear();
    out += "],\"endloaded\":" + loaded() + ",\"endev\":" + evs() + "}"; puts(out.c_str());
}

// threads that open, use and close the same few libraries; the record is one totally ordered log of events
static void run_conc(const words& w) {
    for (size_t k = 2; k < w.size(); ++k) { words f = cut(w[k], ';'); if (f[0] == "mk") { if (f[2] == "dir") mkdir(P(f[1]).c_str(), 0755); else copy(g_libs + "/" + f[2], P(f[1])); } }
    std::vector<std::vector<words> > th;
    for (size_t k = 2; k < w.size(); ++k) { words f = cut(w[k], ';'); if (f[0] == "ad") plugin::add_plugin_directory(P(f[1])); else if (f[0] == "/") th.push_back(std::vector<words>()); else if (f[0] != "mk") th.back().push_back(f); }
    std::atomic<int> go(0); std::vector<std::thread> ts; evs();
    static Ref shared;
    for (size_t t = 0; t < th.size(); ++t) ts.push_back(std::thread([&, t] {
        Ref mine[2]; go.fetch_add(1); while (go.load() < (int)th.size()) {}
        for (size_t i = 0; i < th[t].size(); ++i) { const words& f = th[t][i]; Ref& s = mine[n(f[1])]; std::string key = num(t) + "." + f[1];
            try {
                if (f[0] == "o") { ev("[2," + q(key) + "]"); s.open(f[2]); ev("[3," + q(key) + "," + q(f[2]) + "]"); }
                else if (f[0] == "c") { ev("[2," + q(key) + "]"); s.close(); }
                else if (f[0] == "a") { ev("[2," + q(key) + "]"); s = mine[n(f[2])]; if (s.is_open()) ev("[3," + q(key) + "," + q(s.get_plugin_name()) + "]"); }
                else if (f[0] == "n") { if (s.is_open()) { std::string nm = s.get_plugin_name(); Obj *o = s.create(); ev("[4," + q(nm) + "," + q(o->tag) + "]"); s.destroy(o); } }
            } catch (std::exception& e) { ev("[5," + q(key) + "," + q("error") + "]"); } }
        for (int i = 0; i < 2; ++i) { ev("[2," + q(num(t) + "." + num(i)) + "]"); mine[i].close(); } }));
    for (size_t t = 0; t < ts.size(); ++t) ts[t].join();
    std::string e = evs(); puts(("{\"id\":" + w[0] + ",\"kind\":\"conc\",\"log\":" + e + ",\"endloaded\":" + loaded() + "}").c_str());
}

struct mstep { words f; std::string r; std::vector<int> v; std::string dead; int t1, t2; };
static void mone(plugin_manager<Obj> *&m, mstep& s, bool conc) {
    const words& f = s.f; const std::string op = f[0]; std::vector<int>& v = s.v; s.r = "ok";
    try {
        if (op == "add") { std::unique_ptr<Obj> o(new Obj("host")); v.push_back(o->serial); m->add(f[1], o.get()); o.release(); }
        else if (op == "load") { m->load(f[1], f[2]); v.push_back(t_last); }
        else if (op == "rem") m->remove(f[1]);
        else if (op == "rep") { std::unique_ptr<Obj> o(new Obj("host")); v.push_back(o->serial); m->replace(f[1], o.get()); o.release(); }
        else if (op == "repc") { Obj *o = m->clone(f[1]); v.push_back(o->serial); m->replace(f[1], o); }
        else if (op == "get") { Obj *o = m->get(f[1]); v.push_back(o ? o->serial : 0); if (!conc) { const Obj *c = ((const plugin_manager<Obj>*)m)->get(f[1]); v.push_back(c ? c->serial : 0); } }
        else if (op == "find") { Obj *o = m->find(f[1]); v.push_back(o ? o->serial : 0); }
        else if (op == "clr") m->clear();
        else if (op == "emp") v.push_back(m->empty() ? 1 : 0);
        else if (op == "run") m->run([&](Obj *o) { v.push_back(o->serial); });
        else if (op == "run1") m->run(f[1], [&](Obj *o) { v.push_back(o->serial); });
        else if (op == "stat") v.push_back((int)m->get_statistic([&](const Obj *o) { return (boost::uint64_t)o->serial; }));
        else if (op == "stat1") v.push_back((int)m->get_statistic(f[1], [&](const Obj *o) { return (boost::uint64_t)o->serial; }));
        else if (op == "lib") { Ref p = m->get_lib_ptr(f[1]); s.r = p.is_open() ? "lib:" + p.get_plugin_name() : "lib:"; }
        else if (op == "del") { delete m; m = new plugin_manager<Obj>; }
        else { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
    } catch (std::exception&) { s.r = "throw"; }
}
static void run_mgr(const words& w, bool conc) {
    mkdir(P("@/d").c_str(), 0755); const char *ls[] = {"A1", "B1", "C1", "T1"}; for (int i = 0; i < 4; ++i) copy(g_libs + "/" + ls[i], P(std::string("@/d/") + ls[i][0] + ".so"));
    plugin::add_plugin_directory(P("@/d")); plugin::add_static_entry_point("B", (void*)st_make_B, (void*)st_unmake_B);
    std::vector<std::vector<mstep> > th(1);
    for (size_t k = 2; k < w.size(); ++k) { if (w[k] == "/") { th.push_back(std::vector<mstep>()); continue; } mstep s; s.f = cut(w[k], ';'); if (s.f.size() < 2) s.f.push_back(""); s.t1 = s.t2 = 0; th.back().push_back(s); }
    plugin_manager<Obj> *m = new plugin_manager<Obj>; evs();
    std::atomic<int> clk(0);
    if (!conc) for (size_t i = 0; i < th[0].size(); ++i) { mone(m, th[0][i], false); th[0][i].dead = evs(); }
    else {
        for (size_t i = 0; i < th[0].size(); ++i) { th[0][i].t1 = clk++; mone(m, th[0][i], true); th[0][i].t2 = clk++; }
        std::atomic<int> go(0); std::vector<std::thread> ts;
        for (size_t t = 1; t < th.size(); ++t) ts.push_back(std::thread([&, t] { go.fetch_add(1); while (go.load() < (int)th.size() - 1) {}
            for (size_t i = 0; i < th[t].size(); ++i) { th[t][i].t1 = clk++; mone(m, th[t][i], true); th[t][i].t2 = clk++; } }));
        for (size_t t = 0; t < ts.size(); ++t) ts[t].join();
    }
    std::string allev = evs();
    delete m; std::string end = evs();
    std::string o = "{\"id\":" + w[0] + ",\"kind\":" + q(conc ? "mconc" : "mgr") + ",\"steps\":["; bool first = true;
    for (size_t t = 0; t < th.size(); ++t) for (size_t i = 0; i < th[t].size(); ++i) { mstep& s = th[t][i]; std::string vs = "["; for (size_t j = 0; j < s.v.size(); ++j) vs += (j ? "," : "") + num(s.v[j]); vs += "]";
        o += (first ? "" : ",") + ("{\"op\":" + q(s.f[0]) + ",\"a\":" + jargs(s.f) + ",\"r\":" + q(s.r) + ",\"v\":" + vs + ",\"ev\":" + (s.dead.empty() ? "[]" : s.dead) + ",\"t1\":" + num(s.t1) + ",\"t2\":" + num(s.t2) + "}"); first = false; }
    int live = (int)g_objs.size();
    puts((o + "],\"allev\":" + allev + ",\"endev\":" + end + ",\"live\":" + num(live) + "}").c_str());
}
int main(int argc, char **argv) {
    std::string line; g_libs = argv[1]; char b[PATH_MAX]; std::string scratch = realpath(argv[2], b) ? b : argv[2];
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.size() < 2) continue;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            guard(10);
            g_root = scratch + "/c" + w[0]; mkdir(g_root.c_str(), 0755); if (chdir(g_root.c_str())) _exit(5);
            if (w[1] == "ref") run_ref(w); else if (w[1] == "conc") run_conc(w); else run_mgr(w, w[1] == "mconc");
            fflush(stdout); _exit(0);
        }
        int st = 0; waitpid(p, &st, 0);
        if (st) { fprintf(stderr, "case %s: child status %d\n", w[0].c_str(), st); return 98; }
    }
}
