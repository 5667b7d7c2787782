// P30 threads that use their own parsers, messages and encoders do not influence each other
#include "common.hpp"
#include <boost/asio.hpp>
#include <pion/algorithm.hpp>
#include <pion/http/types.hpp>
#include <pion/http/parser.hpp>
#include <pion/http/request.hpp>
#include <pion/http/response.hpp>
#include <cstring>
#include <ctime>
#include <functional>
using namespace sim; using namespace hx; using namespace pion;
void parser_task(); void spdy_task();
namespace {
std::string bytes(int lo, int hi) { std::string s; int n = plan_range(lo, hi); bool bin = plan(2); for (int i = 0; i < n; ++i) s += bin ? (char)plan(256) : "abcXYZ019 %&<>\"'=+/;-_"[plan(22)]; return s; }
std::string word() { std::string s; int n = plan_range(1, 9); for (int i = 0; i < n; ++i) s += (char)('a' + plan(26)); return s; }
template <class M> std::string wire(M &m, bool keep, bool chunks) {
    http::message::write_buffers_t b; m.prepare_buffers_for_send(b, keep, chunks); std::string s;
    for (auto &x : b) s.append(boost::asio::buffer_cast<const char *>(x), boost::asio::buffer_size(x)); return s;
}
typedef std::function<std::string()> Job;      // an encoding or decoding of its own data; always the same result
std::vector<std::string> names(int n) { std::vector<std::string> v; for (int i = 0; i < n; ++i) v.push_back(word()); return v; }
Job make_job(std::string &what, int theme) {
    switch (theme >= 0 ? theme : (int)plan(12)) {
    case 0: { time_t t = plan(3) ? (time_t)plan(2000000000u) : (time_t)plan(1u << 31) * 60; what = "get_date_string"; return [=] { return http::types::get_date_string(t); }; }
    case 1: { std::string s = bytes(0, 200); what = "url_encode"; return [=] { return algorithm::url_encode(s); }; }
    case 2: { std::string s = bytes(0, 200); what = "url_decode"; return [=] { return algorithm::url_decode(s); }; }
    case 3: { std::string s = bytes(0, 200); what = "xml_encode"; return [=] { return algorithm::xml_encode(s); }; }
    case 4: { std::string s = bytes(0, 200); what = "base64"; return [=] { std::string e, d; algorithm::base64_encode(s, e); bool ok = algorithm::base64_decode(e, d); return e + "|" + d + (ok ? "+" : "-"); }; }
    case 5: { ihash_multimap q; for (auto &n : names(4)) q.insert(std::make_pair(n, bytes(0, 20))); what = "make_query_string"; return [=] { return http::types::make_query_string(q); }; }
    case 6: { std::string n = word(), v = word(); unsigned a = plan(100000); bool has = plan(2); what = "make_set_cookie_header"; return [=] { return http::types::make_set_cookie_header(n, v, "/", has, a); }; }
    case 7: { std::string r = "/" + word(), c = bytes(0, 300); std::vector<std::string> n = names(3); bool k = plan(2), ch = plan(2); what = "request headers";
        return [=] { http::request q(r); q.set_method("POST"); for (auto &x : n) { q.add_header("X-" + x, x); q.add_query(x, r); } q.set_content(c); return wire(q, k, ch); }; }
    case 8: { unsigned st = 200 + plan(300); std::vector<std::string> n = names(3); std::string c = bytes(0, 300); time_t t = (time_t)plan(2000000000u); bool k = plan(2); what = "response headers";
        return [=] { http::response q("GET"); q.set_status_code(st); q.set_status_message(n[0]); q.set_last_modified(t); for (auto &x : n) q.set_cookie(x, x + "v", "/", 10); q.set_content(c); return wire(q, k, false); }; }
    case 9: { std::string s; for (auto &x : names(4)) s += x + "=" + word() + "&"; what = "parse_url_encoded"; return [=] { ihash_multimap m; bool ok = http::parser::parse_url_encoded(m, s); std::string o = ok ? "+" : "-"; for (auto &x : m) o += x.first + ">" + x.second + ";"; return o; }; }
    case 10: { std::string s; for (auto &x : names(3)) s += x + "=\"" + word() + "\"; "; what = "parse_cookie_header"; return [=] { ihash_multimap m; bool ok = http::parser::parse_cookie_header(m, s, false); std::string o = ok ? "+" : "-"; for (auto &x : m) o += x.first + ">" + x.second + ";"; return o; }; }
    default: { std::string h = word() + ".com", p = "/" + word(), q = word(); unsigned port = 1 + plan(65000); std::string u = "http://" + h + ":" + std::to_string(port) + p + "?" + q; what = "parse_uri";
        return [=] { std::string a, b, c, d; boost::uint16_t n = 0; bool ok = http::parser::parse_uri(u, a, b, n, c, d); return std::string(ok ? "+" : "-") + a + "|" + b + "|" + std::to_string(n) + "|" + c + "|" + d; }; }
    }
}
struct Task { std::string what; Job job; std::string want; int times; };
}
void harness_run() {
    quiet_logging();
    int n = plan_range(2, 4); std::vector<int> ids; std::vector<std::vector<Task> > todo(n); std::vector<int> kind(n); int theme = plan(2) ? (int)plan(12) : -1, all = plan(2) ? (int)plan(4) : -1;
    for (int i = 0; i < n; ++i) {
        kind[i] = all >= 0 ? all : (int)plan(4);
        if (kind[i] >= 2) { int k = plan_range(1, 8); for (int j = 0; j < k; ++j) { Task t; t.job = make_job(t.what, theme); t.times = plan_range(1, 6); todo[i].push_back(t); } }
    }
    // what each encoding gives when nobody else is running (half of the time this also does the first-use initialisation)
    bool before = plan(2);
    auto reference = [&] { for (auto &v : todo) for (auto &t : v) t.want = t.job(); };
    std::vector<std::vector<std::string> > got(n);
    if (before) reference();
    for (int i = 0; i < n; ++i) ids.push_back(spawn("worker", [&, i] {
        if (kind[i] == 0) parser_task(); else if (kind[i] == 1) spdy_task();
        else for (auto &t : todo[i]) for (int k = 0; k < t.times; ++k) { std::string s = loud(t.job); got[i].push_back(s); ++*counter("evals"); }
    }));
    for (int id : ids) join(id);
    if (!before) reference();
    for (int i = 0; i < n; ++i) { size_t at = 0; for (auto &t : todo[i]) for (int k = 0; k < t.times; ++k, ++at) CHECK(got[i][at] == t.want, "influenced", "%s gave '%s' while other threads were at work, alone it gives '%s'", t.what.c_str(), got[i][at].c_str(), t.want.c_str()); }
    SIM_PROBE("joined");
}
