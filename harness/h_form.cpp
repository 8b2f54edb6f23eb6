// Query strings, cookies, multipart forms and URIs through pion's public interface.
// Input line: id op words...   (byte strings as runs; lists joined with '|', "." for the empty list)
#include "vh.hpp"
#include <pion/http/parser.hpp>
#include <pion/http/request.hpp>
#include <pion/http/response.hpp>
using namespace pion; using namespace vh;
static words list(const std::string& s) { words w; if (s == ".") return w; std::string c; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '|') { w.push_back(c); c.clear(); } else c += s[i]; } w.push_back(c); return w; }
struct Exact { char *p; size_t n; explicit Exact(const std::string& s) : p((char*)malloc(s.size())), n(s.size()) { memcpy(p, s.data(), n); } ~Exact() { free(p); } };
static std::string seqs(const std::vector<std::string>& v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + seq(v[i]); return o + "]"; }
static std::string tuples(const std::vector<std::vector<std::string> >& v) { std::string o = "["; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + seqs(v[i]); return o + "]"; }
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.size() < 3) continue;
        guard(30);
        const std::string op = w[1]; std::string o; ihash_multimap dict; bool ok = true; std::string err;
        try {
        if (op == "url") { std::string in = unrle(w[2]); Exact e(in); ok = http::parser::parse_url_encoded(dict, e.p, e.n); o = ",\"in\":" + seq(in) + ",\"out\":" + pairs(dict, false); }
        else if (op == "cookie") { std::string in = unrle(w[2]); Exact e(in); bool set = w[3] == "1"; ok = http::parser::parse_cookie_header(dict, e.p, e.n, set);
            o = ",\"in\":" + seq(in) + ",\"set\":" + boo(set) + ",\"out\":" + pairs(dict, false); }
        else if (op == "mp") { std::string ct = unrle(w[2]), in = unrle(w[3]); Exact e(in); ok = http::parser::parse_multipart_form_data(dict, ct, e.p, e.n);
            o = ",\"ct\":" + seq(ct) + ",\"in\":" + seq(in) + ",\"out\":" + pairs(dict, false); }
        else if (op == "mkq") { words l = list(w[2]); std::vector<std::vector<std::string> > in; http::request rq; ihash_multimap d2;
            for (size_t i = 0; i + 1 < l.size(); i += 2) { std::vector<std::string> p; p.push_back(unrle(l[i])); p.push_back(unrle(l[i+1])); in.push_back(p); rq.add_query(p[0], p[1]); }
            std::string t;
            if (w[3] == "1") { rq.use_query_params_for_post_content(); t.assign(rq.get_content(), rq.get_content_length()); }
            else { rq.use_query_params_for_query_string(); t = rq.get_query_string(); }
            Exact e(t); ok = http::parser::parse_url_encoded(dict, e.p, e.n);
            o = ",\"in\":" + tuples(in) + ",\"text\":" + seq(t) + ",\"out\":" + pairs(dict, false); }
        else if (op == "sc") { words l = list(w[2]); std::vector<std::vector<std::string> > in; http::response rs;
            // five words per cookie: form name value path age
            for (size_t i = 0; i + 4 < l.size(); i += 5) { std::vector<std::string> p; std::string nm = unrle(l[i+1]), v = unrle(l[i+2]), pa = unrle(l[i+3]), ag = unrle(l[i+4]); unsigned long a = strtoul(ag.c_str(), 0, 10);
                switch (l[i][0]) {
                case 'a': rs.set_cookie(nm, v); pa = "/"; ag = ""; break;
                case 'b': rs.set_cookie(nm, v, pa); ag = ""; break;
                case 'c': rs.set_cookie(nm, v, pa, a); break;
                case 'd': rs.set_cookie(nm, v, a); pa = "/"; break;
                case 'e': rs.delete_cookie(nm); v = ""; pa = "/"; ag = "0"; break;
                case 'f': rs.delete_cookie(nm, pa); v = ""; ag = "0"; break;
                case 'g': rs.add_cookie(nm, v); pa = "/"; ag = ""; break; }
                p.push_back(nm); p.push_back(v); p.push_back(pa); p.push_back(ag); in.push_back(p); }
            std::ostringstream os; boost::system::error_code ec; rs.write(os, ec); std::vector<std::string> hs;
            std::istringstream is(os.str()); http::response back; back.read(is, ec); ok = !ec;
            std::pair<ihash_multimap::iterator, ihash_multimap::iterator> r = back.get_headers().equal_range(http::types::HEADER_SET_COOKIE);
            for (; r.first != r.second; ++r.first) hs.push_back(r.first->second);
            o = ",\"in\":" + tuples(in) + ",\"headers\":" + seqs(hs) + ",\"out\":" + pairs(back.get_cookies(), false); }
        else if (op == "ck") { words l = list(w[2]); std::vector<std::vector<std::string> > in; http::request rq; rq.set_resource("/"); rq.set_method("GET");
            for (size_t i = 0; i + 1 < l.size(); i += 2) { std::vector<std::string> p; p.push_back(unrle(l[i])); p.push_back(unrle(l[i+1])); in.push_back(p); rq.add_cookie(p[0], p[1]); }
            std::ostringstream os; boost::system::error_code ec; rq.write(os, ec);
            std::istringstream is(os.str()); http::request back; back.read(is, ec); ok = !ec;
            o = ",\"in\":" + tuples(in) + ",\"out\":" + pairs(back.get_cookies(), false); }
        else if (op == "d64") { std::string in = unrle(w[2]), ty = unrle(w[3]), t, t2; Exact e(in); ok = http::parser::binary_2base64(t, e.p, e.n, ty);
            size_t cap = t.size() + 1; char *b = (char*)malloc(cap); memset(b, 0x5A, cap); size_t sz = 0; ok = http::parser::base64_2binary(b, cap, sz, t2, t) && ok;
            std::string out(b, sz ? sz - 1 : 0); if (sz && b[sz-1] != 0) ok = false; free(b);
            o = ",\"in\":" + seq(in) + ",\"type\":" + seq(ty) + ",\"text\":" + seq(t) + ",\"out\":" + seq(out) + ",\"outtype\":" + seq(t2) + ",\"size\":" + num(sz); }
        else if (op == "d64bad") { std::string t = unrle(w[2]), ty; size_t cap = t.size() + 1, sz = 0; char *b = (char*)malloc(cap);
            try { ok = http::parser::base64_2binary(b, cap, sz, ty, t); } catch (std::exception&) { ok = false; } free(b); }
        else if (op == "uri") { std::string in = unrle(w[2]), pr = "old", ho = "old", pa = "old", q = "old"; boost::uint16_t po = 7; ok = http::parser::parse_uri(in, pr, ho, po, pa, q);
            o = ",\"in\":" + seq(in) + ",\"proto\":" + seq(pr) + ",\"host\":" + seq(ho) + ",\"port\":" + num(po) + ",\"path\":" + seq(pa) + ",\"query\":" + seq(q); }
        else if (op == "req") { // req form q ct body cookies
            std::string form = w[2], q = unrle(w[3]), ct = unrle(w[4]), body = unrle(w[5]); words cl = list(w[6]); std::vector<std::string> cks;
            std::string m = "POST /r" + (q.empty() ? std::string() : "?" + q) + " HTTP/1.1\r\n";
            for (size_t i = 0; i < cl.size(); ++i) { cks.push_back(unrle(cl[i])); m += (i % 2 ? "cookie: " : "Cookie: ") + cks.back() + "\r\n"; }
            if (!ct.empty()) m += "Content-Type: " + ct + "\r\n";
            m += "Content-Length: " + num(body.size()) + "\r\n\r\n" + body;
            http::parser ps(true); http::request rq; boost::system::error_code ec; Exact e(m); ps.set_read_buffer(e.p, e.n);
            boost::tribool t = ps.parse(rq, ec); ok = (t == true);
            o = ",\"form\":\"" + form + "\",\"q\":" + seq(q) + ",\"ct\":" + seq(ct) + ",\"in\":" + seq(body) + ",\"cks\":" + seqs(cks) + ",\"out\":" + pairs(rq.get_queries(), false) + ",\"cookies\":" + pairs(rq.get_cookies(), false); }
        else if (op == "len") { // len kind nl vl
            std::string k = w[2]; size_t nl = atol(w[3].c_str()), vl = atol(w[4].c_str());
            std::string t = std::string(nl, 'n') + "=" + (k == "ckq" ? "\"" : "") + std::string(vl, 'v') + (k == "ckq" ? "\"" : "") + (w[5] == "1" ? (k == "url" ? "&z=1" : "; z=1") : "");
            Exact e(t); ok = k == "url" ? http::parser::parse_url_encoded(dict, e.p, e.n) : http::parser::parse_cookie_header(dict, e.p, e.n, k == "set");
            size_t a = 0, b = 0; for (ihash_multimap::iterator i = dict.begin(); i != dict.end(); ++i) if (i->first[0] == 'n') { a = i->first.size(); b = i->second.size(); }
            o = ",\"nl\":" + num(nl) + ",\"vl\":" + num(vl) + ",\"onl\":" + num(a) + ",\"ovl\":" + num(b); }
        } catch (std::exception& e) { fprintf(stderr, "exception: %s\n", e.what()); _exit(98); }
        alarm(0);
        printf("{\"id\":%s,\"op\":\"%s\",\"ok\":%s%s}\n", w[0].c_str(), op.c_str(), boo(ok).c_str(), o.c_str()); fflush(stdout);
    }
    return 0;
}
