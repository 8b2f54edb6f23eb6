// Histories of user_manager calls.  Input: id hist pws steps...  |  id conc pws threads of steps joined with '/'
// step: op;name;password (byte strings as runs); pws: passwords joined with '|' whose digests are reported
#include "vh.hpp"
#include <pion/user.hpp>
#include <openssl/evp.h>
#include <thread>
#include <atomic>
using namespace pion; using namespace vh;
static words cut(const std::string& s, char d) { words w; std::string c; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == d) { w.push_back(c); c.clear(); } else c += s[i]; } w.push_back(c); return w; }
static std::string hex(const std::string& s, const EVP_MD *md) {
    unsigned char b[64]; unsigned n = 0; EVP_Digest(s.data(), s.size(), b, &n, md, 0);
    std::string o; char t[4]; for (unsigned i = 0; i < n; ++i) { snprintf(t, sizeof t, "%02x", b[i]); o += t; } return o;
}
struct step { std::string op, n, p, r, u, w; int t1, t2; };
static void one(user_manager& m, user_ptr& held, step& s) {
    user_ptr u; bool ok = false;
    try {
        if (s.op == "add") ok = m.add_user(s.n, s.p);
        else if (s.op == "upd") ok = m.update_user(s.n, s.p);
#ifdef PION_HAVE_SSL
        else if (s.op == "addh") ok = m.add_user_hash(s.n, s.p);
        else if (s.op == "updh") ok = m.update_user_hash(s.n, s.p);
        else if (s.op == "hseth") { if (held) { held->set_password_hash(s.p); ok = true; } }
#endif
        else if (s.op == "rem") ok = m.remove_user(s.n);
        else if (s.op == "get") { u = m.get_user(s.n); ok = u.get() != 0; if (u) held = u; }
        else if (s.op == "getp") { u = m.get_user(s.n, s.p); ok = u.get() != 0; }
        else if (s.op == "empty") ok = m.empty();
        else if (s.op == "held") { if (held) { u = held; ok = held->match_password(s.p); } }
        else if (s.op == "hset") { if (held) { held->set_password(s.p); ok = true; } }
        else { fprintf(stderr, "unknown op %s\n", s.op.c_str()); exit(3); }
        s.r = ok ? "t" : "f";
    } catch (std::exception&) { s.r = "throw"; }
    if (u) { s.u = u->get_username(); s.w = u->get_password(); }
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.size() < 3) continue;
        guard(30);
        bool conc = w[1] == "conc"; std::string dig = "[";
        if (w[2] != ".") { words ps = cut(w[2], '|'); for (size_t i = 0; i < ps.size(); ++i) { std::string p = unrle(ps[i]);
            dig += (i ? "," : "") + ("[" + seq(p) + "," + seq(hex(p, EVP_sha1())) + "," + seq(hex(p, EVP_sha256())) + "]"); } }
        dig += "]";
        std::vector<std::vector<step> > th(1);
        for (size_t i = 3; i < w.size(); ++i) { if (w[i] == "/") { th.push_back(std::vector<step>()); continue; }
            words f = cut(w[i], ';'); step s; s.op = f[0]; s.n = unrle(f[1]); s.p = unrle(f[2]); s.t1 = s.t2 = 0; th.back().push_back(s); }
        user_manager m; user_ptr held;
        if (!conc) { for (size_t i = 0; i < th[0].size(); ++i) one(m, held, th[0][i]); }
        else {
            std::atomic<int> clk(0), go(0); std::vector<std::thread> ts;
            for (size_t t = 0; t < th.size(); ++t) ts.push_back(std::thread([&, t] { user_ptr mine; go.fetch_add(1); while (go.load() < (int)th.size()) {}
                for (size_t i = 0; i < th[t].size(); ++i) { th[t][i].t1 = clk.fetch_add(1); one(m, mine, th[t][i]); th[t][i].t2 = clk.fetch_add(1); } }));
            for (size_t t = 0; t < ts.size(); ++t) ts[t].join();
        }
        std::string o = "{\"id\":" + w[0] + ",\"conc\":" + boo(conc) + ",\"dig\":" + dig + ",\"ssl\":";
#ifdef PION_HAVE_SSL
        o += "true";
#else
        o += "false";
#endif
        o += ",\"steps\":["; bool first = true;
        for (size_t t = 0; t < th.size(); ++t) for (size_t i = 0; i < th[t].size(); ++i) { const step& s = th[t][i];
            o += (first ? "" : ",") + ("{\"op\":\"" + s.op + "\",\"n\":" + seq(s.n) + ",\"p\":" + seq(s.p) + ",\"r\":\"" + s.r + "\",\"u\":" + seq(s.u) + ",\"w\":" + seq(s.w) + ",\"t1\":" + num(s.t1) + ",\"t2\":" + num(s.t2) + "}"); first = false; }
        puts((o + "]}").c_str()); fflush(stdout);
    }
}
