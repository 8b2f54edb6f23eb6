// Shared helpers of the harnesses: tokenised case input, JSON output, byte strings as runs.
#ifndef VH_HPP
#define VH_HPP
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <stdint.h>
#include <unistd.h>
#include <signal.h>
namespace vh {
typedef std::vector<std::string> words;
inline words split(const std::string& s) { words w; std::istringstream is(s); std::string t; while (is >> t) w.push_back(t); return w; }
// runs "b:n,b:n" or "-" for the empty string
inline std::string unrle(const std::string& t) {
    std::string out; if (t == "-") return out;
    const char *p = t.c_str();
    while (*p) { char *e; long b = strtol(p, &e, 10); long n = 1; p = e; if (*p == ':') { n = strtol(p+1, &e, 10); p = e; }
        out.append((size_t)n, (char)b); if (*p == ',') ++p; }
    return out;
}
inline std::string rle(const std::string& s) {   // JSON array of [byte,count]
    std::string o = "["; size_t i = 0; char buf[48]; bool first = true;
    while (i < s.size()) { size_t j = i; while (j < s.size() && s[j] == s[i]) ++j;
        snprintf(buf, sizeof buf, "%s[%d,%zu]", first ? "" : ",", (int)(unsigned char)s[i], j-i); o += buf; first = false; i = j; }
    return o + "]";
}
inline std::string seq(const std::string& s) {   // JSON array of bytes
    std::string o = "["; char buf[16];
    for (size_t i = 0; i < s.size(); ++i) { snprintf(buf, sizeof buf, "%s%d", i ? "," : "", (int)(unsigned char)s[i]); o += buf; }
    return o + "]";
}
inline std::string num(long long n) { char b[32]; snprintf(b, sizeof b, "%lld", n); return b; }
inline std::string boo(bool b) { return b ? "true" : "false"; }
// JSON array of pairs (sorted, so that equal dictionaries print equally)
template <class M> std::string pairs(const M& m, bool runs) {
    std::vector<std::pair<std::string,std::string> > v(m.begin(), m.end());
    std::sort(v.begin(), v.end());
    std::string o = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) o += ",";
        o += "[" + (runs ? rle(v[i].first) : seq(v[i].first)) + "," + (runs ? rle(v[i].second) : seq(v[i].second)) + "]"; }
    return o + "]";
}
inline void on_alarm(int) { const char m[] = "@@HANG\n"; ssize_t r = write(2, m, sizeof m - 1); (void)r; _exit(97); }
inline void guard(int secs) { signal(SIGALRM, on_alarm); alarm(secs); }
struct rng { uint64_t s; explicit rng(uint64_t x) : s(x*2654435761u+88172645463325252ULL) {}
    uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; } size_t below(size_t n) { return n ? next() % n : 0; } };
}
#endif
