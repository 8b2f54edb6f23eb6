// Calls pion::algorithm once per case and reports the result.  Input line: id op arg [k signed variant]
#include "vh.hpp"
#include <pion/algorithm.hpp>
#include <cfloat>
using pion::algorithm;
typedef unsigned char uc;
static std::string be64(uint64_t v) { std::string s(8, '\0'); for (int i = 7; i >= 0; --i) { s[i] = (char)(v & 0xFF); v >>= 8; } return s; }
static uint64_t val(const std::string& b) { uint64_t v = 0; for (size_t i = 0; i < b.size(); ++i) v = v * 256 + (uc)b[i]; return v; }
template <class B> static std::string from_int(int k, bool sg, uint64_t v) {
    B *buf = (B*)malloc(k + 8); memset(buf, 0xA5, k + 8); B *p = buf + 4;
    switch (k) {
    case 1: if (sg) algorithm::from_int8(p, (int8_t)v); else algorithm::from_uint8(p, (uint8_t)v); break;
    case 2: if (sg) algorithm::from_int16(p, (int16_t)v); else algorithm::from_uint16(p, (uint16_t)v); break;
    case 3: if (sg) algorithm::from_int24(p, (int32_t)v); else algorithm::from_uint24(p, (uint32_t)v); break;
    case 4: if (sg) algorithm::from_int32(p, (int32_t)v); else algorithm::from_uint32(p, (uint32_t)v); break;
    case 8: if (sg) algorithm::from_int64(p, (int64_t)v); else algorithm::from_uint64(p, (uint64_t)v); break; }
    std::string r((const char*)buf, k + 8); free(buf); return r;
}
template <class B> static uint64_t to_ptr(int k, bool sg, const std::string& s) {
    B *b = (B*)malloc(k); memcpy(b, s.data(), k); uint64_t r = 0;
    switch (k) {
    case 1: r = sg ? (uint64_t)(int64_t)algorithm::to_int8(b) : algorithm::to_uint8(b); break;
    case 2: r = sg ? (uint64_t)(int64_t)algorithm::to_int16(b) : algorithm::to_uint16(b); break;
    case 3: r = sg ? (uint64_t)(int64_t)algorithm::to_int24(b) : algorithm::to_uint24(b); break;
    case 4: r = sg ? (uint64_t)(int64_t)algorithm::to_int32(b) : algorithm::to_uint32(b); break;
    case 8: r = sg ? (uint64_t)(int64_t)algorithm::to_int64(b) : algorithm::to_uint64(b); break; }
    free(b); return r;
}
template <class B> static uint64_t to_args(int k, bool sg, const std::string& s) {
    B b[8]; for (int i = 0; i < k; ++i) b[i] = (B)s[i];
    switch (k) {
    case 1: return sg ? (uint64_t)(int64_t)algorithm::to_int8(b[0]) : algorithm::to_uint8(b[0]);
    case 2: return sg ? (uint64_t)(int64_t)algorithm::to_int16(b[0], b[1]) : algorithm::to_uint16(b[0], b[1]);
    case 3: return sg ? (uint64_t)(int64_t)algorithm::to_int24(b[0], b[1], b[2]) : algorithm::to_uint24(b[0], b[1], b[2]);
    case 4: return sg ? (uint64_t)(int64_t)algorithm::to_int32(b[0], b[1], b[2], b[3]) : algorithm::to_uint32(b[0], b[1], b[2], b[3]);
    default: return sg ? (uint64_t)(int64_t)algorithm::to_int64(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7])
                       : algorithm::to_uint64(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]); }
}
template <class F> static F native(const std::string& s) { F f; std::string r(s.rbegin(), s.rend()); memcpy(&f, r.data(), sizeof f); return f; }
template <class F> static std::string image(F f) { std::string r((const char*)&f, sizeof f); return std::string(r.rbegin(), r.rend()); }
template <class B> static std::string from_flt(const std::string& s) {
    size_t k = s.size(); B *b = (B*)malloc(k + 8); memset(b, 0xA5, k + 8);
    if (k == 4) algorithm::from_float(b + 4, native<float>(s)); else algorithm::from_double(b + 4, native<double>(s));
    std::string r((const char*)b, k + 8); free(b); return r;
}
template <class B> static std::string to_flt(const std::string& s) {
    B *b = (B*)malloc(s.size()); memcpy(b, s.data(), s.size());
    std::string r = s.size() == 4 ? image<float>(algorithm::to_float(b)) : image<double>(algorithm::to_double(b)); free(b); return r;
}
int main() {
    std::string line;
    while (std::getline(std::cin, line)) {
        vh::words w = vh::split(line); if (w.size() < 3) continue;
        vh::guard(30);
        const std::string op = w[1], in = vh::unrle(w[2]);
        int k = w.size() > 3 ? atoi(w[3].c_str()) : 0; bool sg = w.size() > 4 && w[4] == "1"; int var = w.size() > 5 ? atoi(w[5].c_str()) : 0;
        bool ok = true; std::string out;
        if (op == "b64enc") ok = algorithm::base64_encode(in, out);
        else if (op == "b64dec") { out = "left over"; ok = algorithm::base64_decode(in, out); }
        else if (op == "urlenc") out = algorithm::url_encode(in);
        else if (op == "urldec") out = algorithm::url_decode(in);
        else if (op == "xmlenc") out = algorithm::xml_encode(in);
        else if (op == "from") out = var ? from_int<char>(k, sg, val(in)) : from_int<uc>(k, sg, val(in));
        else if (op == "to") out = be64(var == 0 ? to_ptr<uc>(k, sg, in) : var == 1 ? to_ptr<char>(k, sg, in) : var == 2 ? to_args<uc>(k, sg, in) : to_args<char>(k, sg, in));
        else if (op == "fromflt") out = var ? from_flt<char>(in) : from_flt<uc>(in);
        else if (op == "toflt") out = var ? to_flt<char>(in) : to_flt<uc>(in);
        else if (op == "fromld") { long double v = 0; std::string r(in.rbegin(), in.rend()); memcpy(&v, r.data(), 10);
            uc *b = (uc*)malloc(16); memset(b, 0xA5, 16); algorithm::from_long_double(b, v); out.assign((char*)b, 16); free(b); }
        else if (op == "told") { uc *b = (uc*)malloc(16); memcpy(b, in.data(), 16); long double v = algorithm::to_long_double(b); free(b);
            std::string r((const char*)&v, 10); out.assign(r.rbegin(), r.rend()); }
        alarm(0);
        printf("{\"id\":%s,\"op\":\"%s\",\"in\":%s,\"k\":%d,\"signed\":%s,\"ok\":%s,\"out\":%s}\n", w[0].c_str(), op.c_str(), vh::seq(in).c_str(), k, vh::boo(sg).c_str(), vh::boo(ok).c_str(), vh::seq(out).c_str());
        fflush(stdout);
    }
    return 0;
}
