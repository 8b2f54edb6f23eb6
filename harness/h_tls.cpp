// Histories of an HTTP server behind TLS: those of h_srv.cpp, where the clients speak TLS through memory buffers, so that
// what reaches the server's socket, and when, is under control.
//  id auth mode op op ...        mode: good | none (no key) | bad (key and certificate differ), then 2 or 3 (TLS 1.2, 1.3), p (clients are pion connections)
//      C;c connect, without a handshake      G;c;n  n more of the bytes the client has to send (0: all it will ever have)
//      S;c;bytes   through TLS               N;c;n;bytes  through TLS, but only the first n bytes of it
//      J;c;bytes   straight to the socket    M;c;i;bytes  through TLS, one bit of byte i changed on the way
//      Y;c         end of stream, said in TLS
// every step tells for a client: t the types of the records received, f handshake over and nothing left to send, l bytes left to send,
//      z what came was not understood, y the certificate is the server's
#define NO_MAIN
#include "h_srv.cpp"
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <openssl/x509.h>
#include <openssl/pem.h>
#include <sys/stat.h>
static X509* g_cert;
static std::string g_dir;
static EVP_PKEY* key() { return EVP_EC_gen("P-256"); }
static void make() {
    EVP_PKEY* k = key(); g_cert = X509_new(); X509_set_version(g_cert, 2); ASN1_INTEGER_set(X509_get_serialNumber(g_cert), 7);
    X509_gmtime_adj(X509_getm_notBefore(g_cert), -1000); X509_gmtime_adj(X509_getm_notAfter(g_cert), 100000000); X509_set_pubkey(g_cert, k);
    X509_NAME* n = X509_get_subject_name(g_cert); X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_ASC, (const unsigned char*)"localhost", -1, -1, 0); X509_set_issuer_name(g_cert, n);
    X509_sign(g_cert, k, EVP_sha256());
    FILE* f = fopen((g_dir + "/good.pem").c_str(), "w"); PEM_write_PrivateKey(f, k, 0, 0, 0, 0, 0); PEM_write_X509(f, g_cert); fclose(f);
    EVP_PKEY* o = key(); f = fopen((g_dir + "/bad.pem").c_str(), "w"); PEM_write_PrivateKey(f, o, 0, 0, 0, 0, 0); PEM_write_X509(f, g_cert); fclose(f);
    EVP_PKEY_free(k); EVP_PKEY_free(o);
}
struct Ssl {
    SSL* s; std::string types, in; bool begun, z, y, told; std::string out;      // out: what the client still has to send
    Ssl() : s(0), begun(false), z(false), y(true), told(true) {}
};
// a client made of pion's own connection
struct Peer : public boost::enable_shared_from_this<Peer> {
    Srv* s; size_t c; tcp::connection conn; bool begun, over, failed, live; std::string todo, doing;
    Peer(Srv* s_, size_t c_) : s(s_), c(c_), conn(s_->sched.io, true), begun(false), over(false), failed(false), live(true) {}
    void greet() { begun = true; conn.async_handshake_client(boost::bind(&Peer::greeted, shared_from_this(), _1)); }
    void greeted(const boost::system::error_code& ec) { if (ec) { failed = true; end(); } else { over = true; read(); } }
    void read() { conn.async_read_some(boost::bind(&Peer::have, shared_from_this(), _1, _2)); }
    void have(const boost::system::error_code& ec, size_t n) { if (!live) return; s->cl[c].got.append(conn.get_read_buffer().data(), n); if (ec) end(); else read(); }
    void end() { if (live && s->cl[c].open) { s->cl[c].open = false; s->cl[c].eof = true; } }
    void write() { if (doing.empty() && !todo.empty()) { doing.swap(todo); conn.async_write(boost::asio::buffer(doing), boost::bind(&Peer::written, shared_from_this(), _1)); } }
    void written(const boost::system::error_code& ec) { doing.clear(); if (!ec) write(); }
};
struct Tls : public Srv {
    bool pion; std::vector<boost::shared_ptr<Peer> > peers;
    SSL_CTX* ctx; std::vector<Ssl> ss; int version; bool thrown;
    static bool plain_start() { return false; }
    Tls(const std::string& a, const std::string& mode) : Srv(a, false), pion(mode[mode.size() - 1] == 'p'), ctx(SSL_CTX_new(TLS_client_method())), version(mode[mode.size() - 1] == '2' ? TLS1_2_VERSION : TLS1_3_VERSION), thrown(false) {
        SSL_CTX_set_verify(ctx, SSL_VERIFY_NONE, 0); SSL_CTX_set_min_proto_version(ctx, version); SSL_CTX_set_max_proto_version(ctx, version);
        SSL_CTX_set_mode(ctx, SSL_MODE_AUTO_RETRY);
        std::string k = mode.substr(0, mode.size() - 1);
        try { server.set_ssl_key_file(g_dir + "/" + k + ".pem"); } catch (std::exception&) { thrown = true; }
        server.start();
    }
    ~Tls() { for (size_t i = 0; i < peers.size(); ++i) if (peers[i]) { peers[i]->live = false; peers[i]->conn.close(); } pump(); peers.clear(); for (size_t i = 0; i < ss.size(); ++i) if (ss[i].s) SSL_free(ss[i].s); SSL_CTX_free(ctx); }
    virtual void dial(size_t c) {
        if (!pion) { Srv::dial(c); return; }
        if (cl.size() <= c) cl.resize(c + 1);
        if (peers.size() <= c) peers.resize(c + 1);
        if (peers[c]) { peers[c]->live = false; peers[c]->conn.close(); }
        peers[c].reset(new Peer(this, c)); cl[c] = Client(); cl[c].open = true;
        boost::asio::ip::tcp::endpoint ep(boost::asio::ip::address_v4::loopback(), server.get_port());
        if (peers[c]->conn.connect(ep)) _exit(99);
        boost::system::error_code ec; peers[c]->conn.get_socket().set_option(boost::asio::ip::tcp::no_delay(true), ec);
    }
    virtual void half(size_t c) { if (!pion) { Srv::half(c); return; } boost::system::error_code ec; peers[c]->conn.get_socket().shutdown(boost::asio::ip::tcp::socket::shutdown_send, ec); }
    virtual void drop(size_t c) { if (!pion) { Srv::drop(c); return; } peers[c]->live = false; peers[c]->conn.close(); cl[c].open = false; }
    void fresh(size_t c) {
        if (ss.size() <= c) ss.resize(c + 1);
        Ssl& k = ss[c]; if (k.s) SSL_free(k.s);
        k = Ssl(); k.s = SSL_new(ctx); SSL_set_bio(k.s, BIO_new(BIO_s_mem()), BIO_new(BIO_s_mem())); SSL_set_connect_state(k.s);
    }
    void collect(Ssl& k) { char b[65536]; int n; while ((n = BIO_read(SSL_get_wbio(k.s), b, sizeof b)) > 0) { k.out.append(b, n); k.told = false; } }
    bool done(size_t c) { return pion ? peers[c]->over && peers[c]->todo.empty() && peers[c]->doing.empty() : over(ss[c]) && ss[c].out.empty(); }
    bool over(Ssl& k) { return k.s && k.begun && SSL_is_init_finished(k.s); }
    void drive(size_t c) {                       // lets the client look at what it was sent
        Ssl& k = ss[c]; char b[16384]; if (!k.s || !k.begun) return;
        ERR_clear_error();
        if (!SSL_is_init_finished(k.s)) {
            int r = SSL_do_handshake(k.s);
            if (r != 1) { int e = SSL_get_error(k.s, r); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { k.z = true; k.told = false; } }
            else { X509* p = SSL_get1_peer_certificate(k.s); k.y = p && X509_cmp(p, g_cert) == 0; X509_free(p); k.told = false; }
        }
        if (SSL_is_init_finished(k.s)) for (;;) {
            int r = SSL_read(k.s, b, sizeof b);
            if (r > 0) { cl[c].got.append(b, r); continue; }
            int e = SSL_get_error(k.s, r); if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE && e != SSL_ERROR_ZERO_RETURN) { k.z = true; k.told = false; }
            break;
        }
        collect(k);
    }
    virtual void took(size_t c, const char* b, size_t n) {
        Ssl& k = ss[c]; k.in.append(b, n); k.told = false; BIO_write(SSL_get_rbio(k.s), b, n);
        while (k.in.size() >= 5) { size_t len = ((unsigned char)k.in[3] << 8) + (unsigned char)k.in[4]; unsigned char t = k.in[0];
            bool odd = t < 20 || t > 23;
            if (!odd && k.in.size() < 5 + len) break;
            if (k.types.size() < 200) k.types += std::string(k.types.empty() ? "" : ",") + num((int)t);
            if (odd) { k.in.clear(); break; }
            k.in.erase(0, 5 + len); }
        drive(c);
    }
    virtual bool news(size_t c) { return c < ss.size() && !ss[c].told; }
    virtual std::string more(size_t c) {
        Ssl& k = ss[c]; std::string r = ",\"t\":[" + k.types + "],\"f\":" + boo(done(c)) + ",\"l\":" + num(k.out.size()) + ",\"z\":" + boo(k.z) + ",\"y\":" + boo(k.y);
        k.types.clear(); k.told = true; return r;
    }
    void flush(size_t c, size_t n) {
        Ssl& k = ss[c];
        if (n) { std::string d = k.out.substr(0, n); k.out.erase(0, d.size()); k.told = false; raw(c, d); return; }
        for (int i = 0; i < 30; ++i) { std::string d; d.swap(k.out); if (!d.empty()) { k.told = false; raw(c, d); } pump(); if (k.out.empty()) break; }
    }
    std::string wrap(size_t c, const std::string& d) { Ssl& k = ss[c]; std::string keep; keep.swap(k.out); if (!d.empty()) SSL_write(k.s, d.data(), d.size()); collect(k); std::string r; r.swap(k.out); k.out = keep; return r; }
    virtual void send(size_t c, const std::string& d) {
        if (pion) { if (peers[c]->over && cl[c].open) { peers[c]->todo += d; peers[c]->write(); } return; }
        if (done(c)) raw(c, wrap(c, d));
    }
    virtual bool other(const words& f, size_t& c, std::string& a, std::string& n) {
        c = atoi(f[1].c_str()); if (c >= ss.size() || !ss[c].s) return true;
        Ssl& k = ss[c]; k.told = false;
        if (pion) { n = f[2]; if (f[0] == "G" && !peers[c]->begun) { peers[c]->greet(); pump(); } return true; }
        switch (f[0][0]) {
        case 'G': n = f[2]; if (!k.begun) { k.begun = true; drive(c); } flush(c, atoi(f[2].c_str())); break;
        case 'N': n = f[2]; a = unrle(f[3]); if (done(c)) { k.out += wrap(c, a); flush(c, atoi(f[2].c_str())); } break;
        case 'J': a = unrle(f[2]); raw(c, a); break;
        case 'M': { n = f[2]; a = unrle(f[3]); if (!done(c)) break; std::string w = wrap(c, a); size_t i = atoi(f[2].c_str()) % w.size(); n = num(i); w[i] ^= 1 << (a.size() % 8); raw(c, w); break; }
        case 'Y': if (over(k)) { SSL_shutdown(k.s); collect(k); flush(c, 0); } break;
        default: return false;
        }
        return true;
    }
    std::string act(const std::string& t) { if (t[0] == 'C') { words f = cut(t, ';'); fresh(atoi(f[1].c_str())); } return step(t); }
};
int main(int argc, char** argv) {
    PION_LOG_CONFIG_BASIC; PION_LOG_SETLEVEL_FATAL(PION_GET_LOGGER("pion"));
    g_quiet = atoi(argv[1]); g_dir = std::string(argv[2]) + "/" + num(getpid()); mkdir(g_dir.c_str(), 0700); make();
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.size() < 3) continue;
        guard(20); g_now = 1700000000; std::string o; bool thrown;
        { Tls s(w[1], w[2]); thrown = s.thrown; for (size_t i = 3; i < w.size(); ++i) o += (i > 3 ? "," : "") + s.act(w[i]); }
        words f = cut(w[1], ';');
        printf("{\"id\":%s,\"auth\":\"%s\",\"au\":[%s,%s,%s],\"key\":\"%s\",\"thrown\":%s,\"steps\":[%s]}\n", w[0].c_str(), f[0].c_str(), seq(f.size() > 1 ? unrle(f[1]) : "").c_str(), seq(f.size() > 2 ? unrle(f[2]) : "").c_str(), seq(f.size() > 3 ? unrle(f[3]) : "").c_str(),
            w[2].substr(0, w[2].size() - 1).c_str(), boo(thrown).c_str(), o.c_str());
        fflush(stdout);
    }
    return 0;
}
