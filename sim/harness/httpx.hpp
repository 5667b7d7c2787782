// Independent HTTP client-side model used by the HTTP harnesses (no pion code)
#ifndef HARNESS_HTTPX_HPP
#define HARNESS_HTTPX_HPP
#include "common.hpp"
#include "core/net.hpp"
#include <cstring>
#include <map>
namespace hx {
inline std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
struct Resp {
    int code = 0; std::string first, body; std::vector<std::pair<std::string, std::string> > h; bool chunked = false, until_close = false, close = false; size_t end = 0; int nchunks = 0;
    const std::string *get(const char *k) const { for (auto &p : h) if (p.first == k) return &p.second; return 0; }
    int count(const char *k) const { int n = 0; for (auto &p : h) if (p.first == k) ++n; return n; }
};
/// 1 complete, 0 needs more, -1 malformed
inline int parse_resp(const std::string &in, size_t pos, bool head, bool at_eof, Resp &r, std::string *why = 0) {
    auto bad = [&](const char *w) { if (why) *why = w; return -1; };
    size_t he = in.find("\r\n\r\n", pos);
    if (he == std::string::npos) {   // cheap sanity of what is there
        size_t n = in.size() - pos; if (n > 5) n = 5;
        if (in.compare(pos, n, "HTTP/", n) != 0) return bad("response does not begin with HTTP/");
        return 0;
    }
    r = Resp();
    size_t p = pos, e = in.find("\r\n", p); r.first = in.substr(p, e - p);
    if (r.first.size() < 12 || r.first.compare(0, 7, "HTTP/1.") != 0 || r.first[8] != ' ') return bad("bad status line");
    r.code = atoi(r.first.c_str() + 9); if (r.code < 100 || r.code > 599) return bad("bad status code");
    p = e + 2;
    while (p < he + 2) {
        e = in.find("\r\n", p); std::string l = in.substr(p, e - p); p = e + 2;
        size_t c = l.find(':'); if (c == std::string::npos || c == 0) return bad("bad header line");
        std::string v = l.substr(c + 1); size_t b = v.find_first_not_of(" \t"); v = b == std::string::npos ? "" : v.substr(b);
        r.h.push_back(std::make_pair(lower(l.substr(0, c)), v));
    }
    p = he + 4;
    if (r.count("content-length") > 1 || r.count("transfer-encoding") > 1 || r.count("connection") > 1) return bad("framing header repeated");
    const std::string *te = r.get("transfer-encoding"), *cl = r.get("content-length"), *co = r.get("connection");
    r.close = co && lower(*co) == "close"; r.chunked = te && lower(*te).find("chunked") != std::string::npos;
    if (head || (r.code >= 100 && r.code < 200) || r.code == 204 || r.code == 304) { r.end = p; return 1; }
    if (r.chunked) {
        for (;;) {
            e = in.find("\r\n", p);
            if (e == std::string::npos) { for (size_t i = p; i < in.size(); ++i) if (!isxdigit((unsigned char)in[i]) && in[i] != '\r') return bad("bad chunk size"); return 0; }
            if (e == p || e - p > 16) return bad("bad chunk size");
            for (size_t i = p; i < e; ++i) if (!isxdigit((unsigned char)in[i])) return bad("bad chunk size");
            size_t n = strtoull(in.c_str() + p, 0, 16); p = e + 2; ++r.nchunks;
            if (n > in.size() - p) return 0;
            r.body.append(in, p, n); p += n;
            if (p + 2 > in.size()) return 0;
            if (in.compare(p, 2, "\r\n") != 0) return bad("chunk not followed by CRLF");
            p += 2; if (n == 0) { r.end = p; return 1; }
        }
    }
    if (cl) {
        if (cl->empty() || cl->find_first_not_of("0123456789") != std::string::npos) return bad("bad content length");
        size_t n = strtoull(cl->c_str(), 0, 10); if (n > in.size() - p) return 0;
        r.body = in.substr(p, n); r.end = p + n; return 1;
    }
    r.until_close = true; r.body = in.substr(p); r.end = in.size();
    return at_eof ? 1 : 0;
}
inline uint64_t fnv(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
inline std::string hex64(uint64_t v) { char b[24]; snprintf(b, sizeof b, "%016llx", (unsigned long long)v); return b; }
inline std::string filler(uint64_t salt, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull + salt * 0xC2B2AE3D27D4EB4Full; x ^= x >> 29; s[i] = (char)(x >> 17); } return s; }
inline std::string show(const std::string &s, size_t n = 60) { std::string o; for (size_t i = 0; i < s.size() && i < n; ++i) { unsigned char c = s[i]; if (c >= 32 && c < 127) o += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o; }
}
#endif
