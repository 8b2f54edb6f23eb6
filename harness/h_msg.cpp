// Histories of calls on HTTP messages, and what they look like when written.
//  id hist isreq slots probes step step ...      step: op;slot;a;b;n;observe   (a, b runs; slots from 1)
//  id wire isreq mode ops script                 mode: write/head/send/qw/rw/rwq; see run_wire()
#include "vh.hpp"
#include <thread>
#include <boost/asio.hpp>
#include <boost/scoped_ptr.hpp>
#include <pion/http/parser.hpp>
#include <pion/http/request.hpp>
#include <pion/http/response.hpp>
#include <pion/http/request_writer.hpp>
#include <pion/http/response_writer.hpp>
#include <pion/tcp/connection.hpp>
using namespace pion; using namespace vh;
static words cut(const std::string& s, char d) { words w; std::string c; for (size_t i = 0; i < s.size(); ++i) { if (s[i] == d) { w.push_back(c); c.clear(); } else c += s[i]; } w.push_back(c); return w; }
typedef boost::shared_ptr<http::message> msg_ptr;
static http::request& RQ(msg_ptr& m) { return dynamic_cast<http::request&>(*m); }
static http::response& RS(msg_ptr& m) { return dynamic_cast<http::response&>(*m); }
static msg_ptr fresh(bool isreq) { return isreq ? msg_ptr(new http::request()) : msg_ptr(new http::response()); }
struct Step { std::string op; int s; std::string a, b; long n; bool obs; };
static Step step(const std::string& t) { words f = cut(t, ';'); Step s; s.op = f[0]; s.s = atoi(f[1].c_str()); s.a = unrle(f[2]); s.b = unrle(f[3]); s.n = atol(f[4].c_str()); s.obs = f.size() > 5 && f[5] == "1"; return s; }
// performs one call; returns false if it threw
static bool act(std::vector<msg_ptr>& ms, Step& s, bool isreq, std::string& r) {
    msg_ptr& m = ms[s.s-1]; const std::string& o = s.op; boost::system::error_code ec;
    try {
        if (o == "ah") m->add_header(s.a, s.b); else if (o == "ch") m->change_header(s.a, s.b); else if (o == "dh") m->delete_header(s.a);
        else if (o == "ac") m->add_cookie(s.a, s.b); else if (o == "cc") m->change_cookie(s.a, s.b); else if (o == "dc") m->delete_cookie(s.a);
        else if (o == "aq") RQ(m).add_query(s.a, s.b); else if (o == "cq") RQ(m).change_query(s.a, s.b); else if (o == "dq") RQ(m).delete_query(s.a);
        else if (o == "sm") RQ(m).set_method(s.a); else if (o == "sr") RQ(m).set_resource(s.a); else if (o == "cr") RQ(m).change_resource(s.a); else if (o == "sq") RQ(m).set_query_string(s.a);
        else if (o == "vj") m->set_version_major(s.n); else if (o == "vn") m->set_version_minor(s.n);
        else if (o == "sc") RS(m).set_status_code(s.n); else if (o == "ss") RS(m).set_status_message(s.a);
        else if (o == "sb") { if (isreq) RQ(m).set_content(s.a); else m->set_content(s.a); }
        else if (o == "sp") { if (isreq) RQ(m).set_content(s.a.data(), s.a.size()); else if (!s.a.empty()) { m->set_content_length(s.a.size()); memcpy(m->create_content_buffer(), s.a.data(), s.a.size()); } }
        else if (o == "cb") m->clear_content(); else if (o == "ct") m->set_content_type(s.a); else if (o == "cl") m->set_content_length(s.n);
        else if (o == "sup") m->set_chunks_supported(s.n == 1); else if (o == "nocl") m->set_do_not_send_content_length(); else if (o == "val") m->set_is_valid(s.n == 1);
        else if (o == "clear") m->clear();
        else if (o == "ri") { http::request q; q.set_method(s.a); q.set_version_major(s.n / 10); q.set_version_minor(s.n % 10); RS(m).update_request_info(q); }
        else if (o == "ucl") { m->update_content_length_using_header(); char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)m->get_content_length()); r = b; }
        else if (o == "ute") { m->update_transfer_encoding_using_header(); s.n = m->is_chunked() ? 1 : 0; }
        else if (o == "uqs") { RQ(m).use_query_params_for_query_string(); r = RQ(m).get_query_string(); }
        else if (o == "uqp") { RQ(m).use_query_params_for_post_content(); r.assign(m->get_content(), m->get_content_length()); }
        else if (o == "setc") RS(m).set_cookie(s.a, s.b); else if (o == "delc") RS(m).delete_cookie(s.a);
        else if (o == "copy") { if (isreq) m.reset(new http::request(RQ(ms[s.n-1]))); else m.reset(new http::response(RS(ms[s.n-1]))); }
        else if (o == "assign") { if (isreq) RQ(m) = RQ(ms[s.n-1]); else RS(m) = RS(ms[s.n-1]); }
        else { fprintf(stderr, "bad op %s\n", o.c_str()); _exit(99); }
    } catch (std::exception&) { return false; }
    return true;
}
static std::string probes(const words& names, int which, msg_ptr& m, bool isreq) {
    std::string o = "["; bool first = true;
    if (which == 2 && !isreq) return "[]";
    for (size_t i = 0; i < names.size(); ++i) { std::string k = unrle(names[i]), v; bool has;
        if (which == 0) { has = m->has_header(k); v = m->get_header(k); } else if (which == 1) { has = m->has_cookie(k); v = m->get_cookie(k); }
        else { has = RQ(m).has_query(k); v = RQ(m).get_query(k); }
        o += (first ? "[" : ",[") + seq(k) + "," + boo(has) + "," + seq(v) + "]"; first = false; }
    return o + "]";
}
static std::string look(msg_ptr& m, bool isreq, const words& names) {
    char b[32]; snprintf(b, sizeof b, "%llu", (unsigned long long)m->get_content_length());
    std::string o = "{\"fl\":" + seq(m->get_first_line()) + ",\"h\":" + pairs(m->get_headers(), false) + ",\"c\":" + pairs(m->get_cookies(), false)
        + ",\"ka\":" + boo(m->check_keep_alive()) + ",\"cl\":" + seq(b) + ",\"b\":" + seq(std::string(m->get_content(), m->get_content_buffer_size())) + ",\"chk\":" + boo(m->is_chunked())
        + ",\"sup\":" + boo(m->get_chunks_supported()) + ",\"val\":" + boo(m->is_valid()) + ",\"imp\":" + boo(m->is_content_length_implied())
        + ",\"vj\":" + num(m->get_version_major()) + ",\"vn\":" + num(m->get_version_minor());
    if (isreq) o += ",\"q\":" + pairs(RQ(m).get_queries(), false) + ",\"m\":" + seq(RQ(m).get_method()) + ",\"res\":" + seq(RQ(m).get_resource()) + ",\"orig\":" + seq(RQ(m).get_original_resource()) + ",\"qs\":" + seq(RQ(m).get_query_string());
    else o += ",\"q\":[],\"sc\":" + num(RS(m).get_status_code()) + ",\"sm\":" + seq(RS(m).get_status_message());
    return o + ",\"gh\":" + probes(names, 0, m, isreq) + ",\"gc\":" + probes(names, 1, m, isreq) + ",\"gq\":" + probes(names, 2, m, isreq) + "}";
}
static std::string show(const Step& s, bool x, const std::string& r) {
    return "{\"op\":\"" + s.op + "\",\"s\":" + num(s.s) + ",\"a\":" + seq(s.a) + ",\"b\":" + seq(s.b) + ",\"n\":" + num(s.n) + ",\"x\":" + boo(x) + ",\"r\":" + seq(r);
}
static void run_hist(const words& w) {
    bool isreq = w[2] == "1"; int slots = atoi(w[3].c_str()); words names; if (w[4] != ".") names = cut(w[4], '|');
    std::vector<msg_ptr> ms; for (int i = 0; i < slots; ++i) ms.push_back(fresh(isreq));
    std::string o;
    for (size_t i = 5; i < w.size(); ++i) {
        Step s = step(w[i]); std::string r; bool ok = act(ms, s, isreq, r);
        o += (i > 5 ? "," : "") + show(s, !ok, r) + ",\"o\":[";
        if (s.obs) for (int k = 0; k < slots; ++k) o += (k ? "," : "") + look(ms[k], isreq, names);
        o += "]}";
    }
    printf("{\"id\":%s,\"isreq\":%s,\"slots\":%d,\"steps\":[%s]}\n", w[0].c_str(), boo(isreq).c_str(), slots, o.c_str());
}
// ---- what goes over the wire
static boost::asio::io_service g_io;
static int g_L; static int g_done; static int g_fin; static bool g_err;
static void on_sent(const boost::system::error_code& ec, std::size_t) { ++g_done; if (ec) g_err = true; }
static void on_fin(const boost::system::error_code& ec) { ++g_fin; if (ec) g_err = true; }
static void pump(int fin, int done) { while (g_fin < fin || g_done < done) { g_io.restart(); if (g_io.run_one() == 0) break; } }
static std::string drain(boost::asio::ip::tcp::socket& s) { std::string out; char b[65536]; boost::system::error_code ec; for (;;) { size_t n = s.read_some(boost::asio::buffer(b), ec); out.append(b, n); if (ec) break; } return out; }
struct Link {
    boost::asio::ip::tcp::acceptor acc; boost::asio::ip::tcp::socket far; tcp::connection_ptr conn; std::string got; std::thread th;
    Link() : acc(g_io, boost::asio::ip::tcp::endpoint(boost::asio::ip::address_v4::loopback(), 0)), far(g_io), conn(new tcp::connection(g_io)) {
        boost::asio::ip::tcp::endpoint ep = acc.local_endpoint(); conn->connect(ep); acc.accept(far);
        th = std::thread([this] { got = drain(far); });
    }
    std::string end() { boost::system::error_code ec; conn->get_socket().shutdown(boost::asio::ip::tcp::socket::shutdown_send, ec); th.join(); conn->close(); return got; }
    ~Link() { if (th.joinable()) end(); }
};
// writer script words (joined with '!'): t runs (text), b runs (binary), n runs (no copy), i number (text), e (std::endl), c (clear),
//   S/s send with/without handler, C chunk, F/f final chunk with/without handler, L0/L1 client supports chunks
template <class W> static std::string script(boost::shared_ptr<W> wr, const std::string& sc, std::list<std::string>& keep) {
    words v = cut(sc, '!'); std::string log; bool first = true;
    for (size_t i = 0; i < v.size(); ++i) {
        if (v[i].empty() || v[i] == ".") continue;
        char c = v[i][0]; std::string d = v[i].size() > 1 ? v[i].substr(1) : "";
        std::string data;
        switch (c) {
        case 't': data = unrle(d); wr->write(data); break;
        case 'b': { data = unrle(d); std::string tmp(data); wr->write((const void*)tmp.data(), tmp.size()); std::fill(tmp.begin(), tmp.end(), '#'); break; }
        case 'n': data = unrle(d); keep.push_back(data); wr->write_no_copy(keep.back()); break;
        case 'm': data = unrle(d); keep.push_back(data); wr->write_no_copy((void*)&keep.back()[0], data.size()); break;
        case 'i': data = d; wr->write(atol(d.c_str())); break;
        case 'c': wr->clear(); break;
        case 'L': wr->supports_chunked_messages(d == "1"); g_L = d == "1"; break;
        case 'S': { int n = g_done; wr->send(on_sent); pump(g_fin, n + 1); break; }
        case 's': { int n = g_fin; wr->send(); pump(n + 1, g_done); break; }
        case 'C': { int n = g_done; wr->send_chunk(on_sent); pump(g_fin, n + 1); break; }
        case 'F': { int n = g_done; wr->send_final_chunk(on_sent); pump(g_fin, n + 1); break; }
        case 'f': { int n = g_fin; wr->send_final_chunk(); pump(n + 1, g_done); break; }
        }
        log += std::string(first ? "" : ",") + "{\"k\":\"" + c + "\",\"d\":" + seq(data) + ",\"l\":" + num((int)wr->get_content_length()) + "}"; first = false;
    }
    return log;
}
static void run_wire(const words& w) {
    bool isreq = w[2] == "1"; std::string mode = w[3]; words ops; if (w[4] != ".") ops = cut(w[4], '+');
    std::vector<msg_ptr> ms(1, fresh(isreq)); std::string o, log, wire; std::list<std::string> keep;
    bool ka = w[6] == "1", kaend = false; size_t ret = 0; g_done = g_fin = 0; g_L = 2; g_err = false; bool err = false;
    for (size_t i = 0; i < ops.size(); ++i) { Step s = step(ops[i]); std::string r; bool ok = act(ms, s, isreq, r); o += (i ? "," : "") + show(s, !ok, r) + "}"; }
    boost::system::error_code ec;
    if (mode == "again") { std::ostringstream first; ms[0]->write(first, ec); }
    if (mode == "write" || mode == "head" || mode == "again") { std::ostringstream os; ret = ms[0]->write(os, ec, mode == "head"); wire = os.str(); err = (bool)ec; ka = kaend = true; }
    else {
        Link l; l.conn->set_lifecycle(ka ? tcp::connection::LIFECYCLE_KEEPALIVE : tcp::connection::LIFECYCLE_CLOSE);
        if (mode == "send" || mode == "sendhead") { ret = ms[0]->send(*l.conn, ec, mode == "sendhead"); err = (bool)ec; }
        else if (mode == "qw") log = script(http::request_writer::create(l.conn, boost::dynamic_pointer_cast<http::request>(ms[0]), on_fin), w[5], keep);
        else if (mode == "rw") log = script(http::response_writer::create(l.conn, boost::dynamic_pointer_cast<http::response>(ms[0]), on_fin), w[5], keep);
        kaend = l.conn->get_keep_alive(); wire = l.end(); err = err || g_err; ret = wire.size() == ret ? ret : (mode[0] == 's' ? ret : wire.size());
    }
    // the library's own reading of the bytes
    std::string back = "\"none\"";
    { msg_ptr b = isreq ? msg_ptr(new http::request()) : msg_ptr(new http::response()); boost::system::error_code e2; 
      if (!isreq && w[7] == "1") { http::request hq; hq.set_method("HEAD"); RS(b).update_request_info(hq); }
      std::istringstream is(wire); b->read(is, e2, (mode == "head" || mode == "sendhead") && w[7] != "1");
      std::string body(b->get_content(), std::min(b->get_content_buffer_size(), b->get_content_length()));
      back = "{\"ok\":" + boo(!e2) + ",\"val\":" + boo(b->is_valid()) + ",\"fl\":" + seq(b->get_first_line()) + ",\"h\":" + pairs(b->get_headers(), false) + ",\"c\":" + pairs(b->get_cookies(), false) + ",\"b\":" + seq(body) + "}"; }
    printf("{\"id\":%s,\"isreq\":%s,\"mode\":\"%s\",\"head\":%s,\"ka\":%s,\"kaend\":%s,\"err\":%s,\"ret\":%zu,\"fin\":%d,\"L\":%d,\"ops\":[%s],\"script\":[%s],\"wire\":%s,\"back\":%s}\n", w[0].c_str(), boo(isreq).c_str(), mode.c_str(), boo(w[7] == "1").c_str(),
        boo(ka).c_str(), boo(kaend).c_str(), boo(err).c_str(), ret, g_fin, g_L, o.c_str(), log.c_str(), rle(wire).c_str(), back.c_str());
}
int main() {
    signal(SIGPIPE, SIG_IGN);
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.size() < 5) continue;
        guard(30);
        if (w[1] == "hist") run_hist(w); else run_wire(w);
        alarm(0); fflush(stdout);
    }
    return 0;
}
