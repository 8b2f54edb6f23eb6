// Drives pion's HTTP parser (public interface only) over scripted input and prints what it did.
//  case ID isreq max pay honly head reuse policies seed     policies: w whole, b bytewise, t all two-way splits, rN N random splits
//  D runs | M n
//  end
#include "vh.hpp"
#include <pion/http/parser.hpp>
#include <pion/http/request.hpp>
#include <pion/http/response.hpp>
#include <boost/bind/bind.hpp>
#include <boost/scoped_ptr.hpp>
using namespace pion; using namespace vh;

struct Op { bool data; std::string bytes; size_t n; };
struct Case { std::string id; bool isreq; size_t max; bool pay, honly, head, reuse; std::string pol; uint64_t seed; std::vector<Op> ops; };

static std::string g_pl;
static void on_payload(const char *p, size_t n) { g_pl.append(p, n); }

struct Runner {
    const Case& c;
    boost::scoped_ptr<http::parser> ps; boost::scoped_ptr<http::message> msg;
    bool touched; std::string out; bool first, stop;
    http::request head_req;
    Runner(const Case& c_) : c(c_), touched(false), out("["), first(true), stop(false) { head_req.set_method("HEAD"); fresh(); }
    void fresh() {
        if (c.reuse && ps) ps->reset();
        else { ps.reset(new http::parser(c.isreq, c.max)); if (c.pay) { http::parser::payload_handler_t h(on_payload); ps->set_payload_handler(h); }
               ps->parse_headers_only(c.honly); }
        if (c.isreq) msg.reset(new http::request()); 
        else { http::response *r = c.head ? new http::response(head_req) : new http::response(); msg.reset(r); }
        g_pl.clear(); touched = false;
    }
    void emit(const char *v, int ec, int prem) {
        std::string o = first ? "" : ","; first = false;
        http::message& m = *msg;
        bool ok = !strcmp(v, "ok"), more = !strcmp(v, "more");
        o += std::string("{\"v\":\"") + v + "\",\"ec\":" + num(ec) + ",\"val\":" + boo(m.is_valid()) + ",\"st\":" + num((int)m.get_status()) + ",\"prem\":" + num(prem);
        if (ok || more) {
            o += ",\"n\":" + num(ps->get_total_bytes_read()) + ",\"cl\":" + num(m.get_content_length()) + ",\"pl\":" + rle(g_pl);
            if (!c.pay && !c.honly) o += ",\"b\":" + rle(std::string(m.get_content(), m.get_content_length()));
            else o += ",\"b\":[]";
        }
        if (ok) {
            o += ",\"vj\":" + num(m.get_version_major()) + ",\"vn\":" + num(m.get_version_minor()) + ",\"chk\":" + boo(m.is_chunked()) + ",\"h\":" + pairs(m.get_headers(), true)
              + ",\"ck\":" + pairs(m.get_cookies(), true);
            if (c.isreq) { http::request& r = dynamic_cast<http::request&>(m);
                o += ",\"m\":" + rle(r.get_method()) + ",\"r\":" + rle(r.get_resource()) + ",\"q\":" + rle(r.get_query_string()) + ",\"sc\":0,\"sm\":[]" + ",\"qp\":" + pairs(r.get_queries(), true);
            } else { http::response& r = dynamic_cast<http::response&>(m);
                o += ",\"m\":[],\"r\":[],\"q\":[],\"sc\":" + num(r.get_status_code()) + ",\"sm\":" + rle(r.get_status_message()) + ",\"qp\":[]"; }
        }
        out += o + "}";
    }
    void feed(const char *p, size_t n) {
        std::string copy(p, n);                      // own buffer: reads past the end are noticed
        char *buf = (char*)malloc(n); memcpy(buf, p, n);
        const char *cur = buf, *end = buf + n;
        while (cur < end && !stop) {
            touched = true;
            ps->set_read_buffer(cur, end - cur);
            boost::system::error_code ec;
            boost::tribool rc = ps->parse(*msg, ec);
            const char *re; ps->load_read_pos(cur, re);
            if (rc == true) { emit("ok", 0, 0); fresh(); }
            else if (rc == false) { emit("err", ec.value(), 0); stop = true; }
            else if (cur < end) { emit("stuck", 0, 0); stop = true; }
        }
        free(buf);
    }
    void lose(size_t n) {
        touched = true;
        boost::system::error_code ec;
        boost::tribool rc = ps->parse_missing_data(*msg, n, ec);
        if (rc == true) { emit("ok", 0, 0); fresh(); }
        else if (rc == false) { emit("err", ec.value(), 0); stop = true; }
    }
    std::string finish() {
        if (!stop && touched) {
            bool prem = ps->check_premature_eof(*msg);
            if (prem) ps->finish(*msg);
            emit("more", 0, prem ? 1 : 0);
        }
        return out + "]";
    }
};

static std::string run(const Case& c, const std::vector<std::vector<size_t> >& cuts) {
    Runner r(c); size_t d = 0;
    for (size_t i = 0; i < c.ops.size() && !r.stop; ++i) {
        if (!c.ops[i].data) { r.lose(c.ops[i].n); continue; }
        const std::string& s = c.ops[i].bytes; const std::vector<size_t>& k = cuts[d++]; size_t at = 0;
        for (size_t j = 0; j <= k.size() && !r.stop; ++j) { size_t to = j < k.size() ? k[j] : s.size(); if (to > at) { r.feed(s.data()+at, to-at); at = to; } }
    }
    return r.finish();
}

int main() {
    std::string line; Case c; 
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.empty()) continue;
        if (w[0] == "case") { c = Case(); c.id = w[1]; c.isreq = w[2]=="1"; c.max = strtoull(w[3].c_str(),0,10); c.pay = w[4]=="1"; c.honly = w[5]=="1"; c.head = w[6]=="1"; c.reuse = w[7]=="1"; c.pol = w[8]; c.seed = strtoull(w[9].c_str(),0,10); }
        else if (w[0] == "D") { Op o; o.data = true; o.bytes = unrle(w[1]); c.ops.push_back(o); }
        else if (w[0] == "M") { Op o; o.data = false; o.n = strtoull(w[1].c_str(),0,10); c.ops.push_back(o); }
        else if (w[0] == "end") {
            guard(30);
            std::vector<size_t> lens; size_t total = 0;
            for (size_t i = 0; i < c.ops.size(); ++i) if (c.ops[i].data) { lens.push_back(c.ops[i].bytes.size()); total += lens.back(); }
            std::vector<std::vector<size_t> > none(lens.size());
            std::vector<std::string> outs; std::vector<std::string> how; size_t runs = 0;
            #define RUN(cuts, desc) do { std::string o_ = run(c, cuts); ++runs; if (std::find(outs.begin(), outs.end(), o_) == outs.end()) { outs.push_back(o_); how.push_back(desc); } } while (0)
            const std::string& p = c.pol;
            for (size_t i = 0; i < p.size(); ++i) {
                if (p[i] == 'w') RUN(none, "whole");
                else if (p[i] == 'b') { std::vector<std::vector<size_t> > k(lens.size()); for (size_t d = 0; d < lens.size(); ++d) for (size_t x = 1; x < lens[d]; ++x) k[d].push_back(x); RUN(k, "bytewise"); }
                else if (p[i] == 't') { for (size_t d = 0; d < lens.size(); ++d) for (size_t x = 1; x < lens[d]; ++x) { std::vector<std::vector<size_t> > k(lens.size()); k[d].push_back(x); RUN(k, "cut at " + num(x)); } }
                else if (p[i] == 'r') { size_t n = strtoul(p.c_str()+i+1, 0, 10); rng g(c.seed);
                    for (size_t q = 0; q < n; ++q) { std::vector<std::vector<size_t> > k(lens.size()); std::string desc = "cuts";
                        for (size_t d = 0; d < lens.size(); ++d) { std::set<size_t> s; size_t m = 1 + g.below(6); for (size_t x = 0; x < m && lens[d] > 1; ++x) s.insert(1 + g.below(lens[d]-1)); k[d].assign(s.begin(), s.end()); for (size_t x = 0; x < k[d].size(); ++x) desc += " " + num(k[d][x]); }
                        RUN(k, desc); } }
            }
            alarm(0);
            std::string o = "{\"id\":" + c.id + ",\"runs\":" + num(runs) + ",\"outs\":[";
            for (size_t i = 0; i < outs.size(); ++i) o += (i ? "," : "") + outs[i];
            o += "],\"how\":[";
            for (size_t i = 0; i < how.size(); ++i) o += (i ? ",\"" : "\"") + how[i] + "\"";
            puts((o + "]}").c_str()); fflush(stdout);
        }
    }
    return 0;
}
