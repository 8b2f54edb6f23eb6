// Histories of SPDY packets through one decompressor.  Input: id packet-hex...
#include "vh.hpp"
#include <sys/mman.h>
#include <pion/spdy/parser.hpp>
#include <pion/spdy/decompressor.hpp>
using namespace pion; using namespace vh;
static std::string unhex(const std::string& s) { std::string o; if (s == "-") return o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), 0, 16); return o; }
static std::string cap(unsigned long v) { return num((long long)(v > 2147483647UL ? 2147483647UL : v)); }
static std::string diff(const char *p, const char *base, size_t n) { if (p < base || p > base + n) return "-7"; return num(p - base); }
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        words w = split(line); if (w.size() < 2) continue;
        guard(30);
        spdy::decompressor_ptr dec(new spdy::decompressor);
        spdy::parser par;
        std::string o = "{\"id\":" + w[0] + ",\"pkts\":[";
        for (size_t k = 1; k < w.size(); ++k) {
            std::string pkt = unhex(w[k]); size_t at = 0;
            o += (k > 1 ? "," : "") + ("{\"b\":" + seq(pkt) + ",\"calls\":[");
            for (int c = 0; c < 200; ++c) {
                size_t n = pkt.size() - at;
                // the bytes end at a page that cannot be read (zlib is not instrumented), or are in a heap block
                bool page = atol(w[0].c_str()) % 4 != 0; size_t room = (n + 4095) / 4096 * 4096;
                char *buf = page ? (char*)mmap(0, room + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) : (char*)malloc(n ? n : 1);
                char *base = page ? buf + room - n : n ? buf : buf + 1;        // an empty packet: no byte may be read
                if (page) mprotect(buf + room, 4096, PROT_NONE);
                memcpy(base, pkt.data() + at, n);
                spdy::http_protocol_info info; boost::system::error_code ec; boost::uint32_t left = n;
                int ft = n >= 1 ? spdy::parser::get_spdy_frame_type(base) : 0;
                bool ctl = n >= 4 ? spdy::parser::is_spdy_control_frame(base) : false;
                unsigned long sid = n >= 12 ? spdy::parser::get_control_frame_stream_id(base) : 0;
                boost::tribool rc = par.parse(info, ec, dec, base, left, 1);
                std::string r = boost::indeterminate(rc) ? "i" : rc ? "t" : "f";
                std::string rp = diff(par.get_spdy_read_pointer(), base, n);
                o += (c ? "," : "") + ("{\"rc\":\"" + r + "\",\"ec\":" + num(ec.value()) + ",\"type\":" + cap(info.http_type) + ",\"stream\":" + cap(info.stream_id) +
                    ",\"off\":" + cap(info.data_offset) + ",\"size\":" + cap(info.data_size) + ",\"last\":" + boo(info.last_chunk) + ",\"h\":" + pairs(info.http_headers, false) +
                    ",\"left\":" + cap(left) + ",\"rp\":" + rp + ",\"cp\":" + (r == "f" ? "-1" : diff(par.get_spdy_data_content(), base, n)) +
                    ",\"ft\":" + num(ft) + ",\"ctl\":" + boo(ctl) + ",\"sid\":" + cap(sid) + "}");
                bool go = r == "i" && left < n && atol(rp.c_str()) > 0 && left + atol(rp.c_str()) == n;
                if (page) munmap(buf, room + 4096); else free(buf);
                if (!go) break;
                at += atol(rp.c_str());
            }
            o += "]}";
        }
        puts((o + "]}").c_str()); fflush(stdout);
    }
}
