// P33: connecting (by name, by address, asynchronously, through a stream) reaches a live address or says why not
#include "common.hpp"
#include "core/net.hpp"
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <pion/scheduler.hpp>
#include <pion/tcp/connection.hpp>
#include <pion/tcp/stream.hpp>
using namespace sim; using namespace hx;

namespace {
typedef pion::tcp::connection Con; typedef boost::system::error_code ec_t;
typedef boost::asio::ip::tcp tcp;
bool g_ssl, g_stop; pion::scheduler *S; int g_sessions;
std::string ipname(uint32_t ip) { char b[32]; snprintf(b, sizeof b, "%08x", ip); return b; }
// ---------------------------------------------------------------- servers: one port per client, every live address leads to it
void session(boost::shared_ptr<Con> c) {
    ec_t ec; tcp::endpoint l = c->get_socket().local_endpoint(ec);
    if (g_ssl && loud([&] { return c->handshake_server(); })) { loud([&] { c->close(); }); return; }
    std::string hi = "I am " + ipname(boost::asio::ip::sim_ip(l.address())) + "\n"; loud([&] { c->write(boost::asio::buffer(hi), ec); });
    for (; !ec;) { std::size_t n = loud([&] { return c->read_some(ec); }); if (ec || !n) break; std::string d(c->get_read_buffer().data(), n); loud([&] { c->write(boost::asio::buffer(d), ec); }); }
    loud([&] { c->close(); });
}
struct Acc { boost::shared_ptr<tcp::acceptor> a; int port; };
void next(Acc A);
void accepted(Acc A, boost::shared_ptr<Con> c, const ec_t &ec) {
    { Quiet q; if (!ec) { ++g_sessions; spawn("session", [c] { session(c); --g_sessions; }); } if (g_stop || ec == boost::asio::error::operation_aborted) return; }
    next(A);
}
void next(Acc A) { boost::shared_ptr<Con> c(new Con(S->get_io_service(), g_ssl)); c->async_accept(*A.a, boost::bind(&accepted, A, c, boost::asio::placeholders::error)); }

// ---------------------------------------------------------------- what happened on the network for one call
std::vector<simnet::Attempt> tried(size_t from, int port) { std::vector<simnet::Attempt> v; auto &a = simnet::attempts(); for (size_t i = from; i < a.size(); ++i) if (a[i].port == port) v.push_back(a[i]); return v; }
int cuts(int port) { int n = 0; for (auto &e : simnet::server_ends()) if (e->server_side && e->local.port == port && e->tag == "accept-fault") ++n; return n; }   // the server's system dropped the connection while accepting it
int g_cuts[8];
bool was_cut(int port) { return cuts(port) > g_cuts[port - 9300]; }
void judge(const char *how, const std::vector<uint32_t> &L, const std::vector<simnet::Attempt> &A, const ec_t &ec, bool known) {
    ++*counter("evals"); std::string t; for (auto &a : A) t += " " + ipname(a.ip) + "=" + (a.done ? a.ec ? a.ec.message() : "connected" : "unfinished");
    log("%s -> %s;%s", how, ec ? ec.message().c_str() : "connected", t.c_str());
    if (!known) { CHECK(A.empty(), "wrong-address", "%s: an unknown name led to connection attempts:%s", how, t.c_str()); CHECK(ec, "false-success", "%s: an unknown name was reported as connected", how); CHECK(ec == boost::asio::error::host_not_found || ec == boost::asio::error::host_not_found_try_again, "wrong-error", "%s: an unknown name was reported as '%s'", how, ec.message().c_str()); return; }
    if (L.empty()) { CHECK(A.empty(), "wrong-address", "%s: a name without addresses led to connection attempts:%s", how, t.c_str()); CHECK(ec, "false-success", "%s: a name without addresses was reported as connected", how); return; }
    if (A.empty()) { CHECK(ec == boost::asio::error::host_not_found_try_again, ec ? "not-tried" : "false-success", "%s: no address was tried, and the result is '%s'", how, ec.message().c_str()); SIM_PROBE("resolver-failure-reported"); return; }
    for (size_t i = 0; i < A.size(); ++i) {
        CHECK(i < L.size() && A[i].ip == L[i], "wrong-address", "%s: attempt %zu went to %s instead of %s:%s", how, i, ipname(A[i].ip).c_str(), i < L.size() ? ipname(L[i]).c_str() : "nowhere", t.c_str());
        CHECK(A[i].done, "unfinished", "%s returned before its connection attempt had ended", how);
        CHECK(A[i].ec != boost::asio::error::address_family_not_supported && A[i].ec != boost::asio::error::invalid_argument && A[i].ec != boost::asio::error::already_connected, "not-tried", "%s: address %s was never really tried, the socket was not fit for it (%s):%s", how, ipname(A[i].ip).c_str(), A[i].ec.message().c_str(), t.c_str());
        if (!A[i].ec) CHECK(i + 1 == A.size(), "connection-dropped", "%s: address %s answered, but others were tried after it:%s", how, ipname(A[i].ip).c_str(), t.c_str());
    }
    bool up = !A.back().ec;
    CHECK(up || A.size() == L.size(), "address-skipped", "%s gave up after %zu of %zu addresses:%s", how, A.size(), L.size(), t.c_str());
    CHECK(!up || !ec || (g_ssl && was_cut(A.back().port)), "false-failure", "%s: address %s was connected and the call reports '%s'", how, ipname(A.back().ip).c_str(), ec.message().c_str());
    CHECK(up || ec, "false-success", "%s: no address could be connected and the call reports success:%s", how, t.c_str());
    if (up && A.size() > 1) SIM_PROBE("later-address-used");
    if (up && ec) return;
    if (!up) { bool one = false; for (auto &a : A) if (a.ec == ec) one = true; CHECK(one, "wrong-error", "%s reports '%s', which is not what happened:%s", how, ec.message().c_str(), t.c_str()); SIM_PROBE("all-addresses-failed"); }
}
std::string line(Con &c, ec_t &ec, std::string &buf) { while (!ec && buf.find('\n') == std::string::npos) { std::size_t n = loud([&] { return c.read_some(ec); }); if (!ec) buf.append(c.get_read_buffer().data(), n); } std::string l; std::size_t p = buf.find('\n'); if (p != std::string::npos) { l = buf.substr(0, p); buf.erase(0, p + 1); } return l; }
void talk(Con &c, uint32_t ip, int port) {       // the connection really leads there
    CHECK(loud([&] { return c.is_open(); }), "not-open", "connected, but is_open() is false");
    if (was_cut(port)) { SIM_PROBE("cut-while-accepted"); return; }
    tcp::endpoint r = loud([&] { return c.get_remote_endpoint(); }); CHECK(boost::asio::ip::sim_ip(r.address()) == ip && r.port() == port, "wrong-address", "connected to %s and the remote endpoint is %s", ipname(ip).c_str(), r.address().to_string().c_str());
    CHECK(loud([&] { return c.get_remote_port(); }) == port, "wrong-address", "get_remote_port() is wrong");
    if (g_ssl) { ec_t e = loud([&] { return c.handshake_client(); }); CHECK(!e || was_cut(port), "not-usable", "the SSL handshake on the connection failed: %s", e.message().c_str()); }
    ec_t ec; std::string buf, l = line(c, ec, buf); CHECK((!ec && l ==  "I am " + ipname(ip)) || was_cut(port), "not-usable", "connected to %s and got '%s' (%s)", ipname(ip).c_str(), l.c_str(), ec.message().c_str());
    for (int i = 0, n = plan(3); i < n; ++i) { std::string m = "m" + std::to_string(plan(1000)); loud([&] { c.write(boost::asio::buffer(m + "\n"), ec); }); l = line(c, ec, buf); CHECK((!ec && l == m) || was_cut(port), "not-usable", "sent '%s' on the connection and got '%s'", m.c_str(), l.c_str()); }
    ++*counter("evals");
}
void client(int port) {
    std::unique_ptr<Con> c; auto fresh = [&] { loud([&] { c.reset(new Con(S->get_io_service(), g_ssl)); }); }; fresh();
    auto &H = simnet::hosts(); auto &AD = simnet::addresses();
    for (int i = 0, n = plan_range(1, 6); i < n; ++i) {
        if (plan(4) == 3) sim::sleep(plan(300000));
        size_t from = simnet::attempts().size(); ec_t ec; g_cuts[port - 9300] = cuts(port); int how = plan(7);
        if (how == 5 || how == 6) {
            uint32_t ip = AD[plan(AD.size())].first; bool byep = plan(2); tcp::endpoint ep(boost::asio::ip::sim_addr(ip), port);
            if (how == 5) {          // asynchronously
                auto calls = std::make_shared<int>(0); auto res = std::make_shared<ec_t>(); auto h = [=](const ec_t &e) { Quiet q; ++*calls; *res = e; };
                loud([&] { if (byep) c->async_connect(ep, h); else c->async_connect(ep.address(), port, h); });
                CHECK(wait_until([&] { return *calls > 0; }, 400 * SEC), "stuck", "async_connect() never called its handler"); if (plan(2)) sim::sleep(1 + plan(200000)); CHECK(*calls == 1, "handler-count", "async_connect() called its handler %d times", *calls);
                judge("async_connect", std::vector<uint32_t>(1, ip), tried(from, port), *res, true);
                if (!*res) talk(*c, ip, port);
                loud([&] { c->close(); });
            } else {                 // through a stream
                pion::tcp::stream *s = loud([&] { return new pion::tcp::stream(S->get_io_service(), g_ssl); });
                ec = loud([&] { return byep ? s->connect(ep) : s->connect(ep.address(), port); });
                judge("stream::connect", std::vector<uint32_t>(1, ip), tried(from, port), ec, true);
                if (!ec) { std::string l; loud([&] { std::getline(*s, l); }); CHECK(l == "I am " + ipname(ip) || was_cut(port), "not-usable", "the stream was connected to %s and read '%s'", ipname(ip).c_str(), l.c_str());
                    loud([&] { *s << "over the stream" << std::endl; std::getline(*s, l); }); CHECK(l == "over the stream" || was_cut(port), "not-usable", "the stream was connected to %s and echoed '%s'", ipname(ip).c_str(), l.c_str()); ++*counter("evals"); }
                loud([&] { delete s; });
            }
        } else if (how == 4) {       // by address
            uint32_t ip = AD[plan(AD.size())].first; bool byep = plan(2); tcp::endpoint ep(boost::asio::ip::sim_addr(ip), port);
            ec = loud([&] { return byep ? c->connect(ep) : c->connect(ep.address(), port); });
            judge("connect(address)", std::vector<uint32_t>(1, ip), tried(from, port), ec, true);
            if (!ec) talk(*c, ip, port);
            loud([&] { c->close(); });
        } else {                     // by name
            int k = plan(H.size() + 1); bool known = k < (int)H.size(); std::string name = known ? H[k].first : "nowhere.test";
            bool back = false; auto fin = std::make_shared<bool>(false); Con *cp = c.get(); auto res = std::make_shared<ec_t>();
            int f = spawn("connect", [=] { *res = loud([&] { return cp->connect(name, port); }); *fin = true; }); (void)back;
            CHECK(wait_until([&] { return *fin; }, 900 * SEC), "stuck", "connect(\"%s\") did not return in 900 s", name.c_str()); join(f); ec = *res;
            judge(("connect(\"" + name + "\")").c_str(), known ? H[k].second : std::vector<uint32_t>(), tried(from, port), ec, known);
            if (ec) CHECK(!loud([&] { return c->is_open(); }) , "left-open", "connect(\"%s\") failed and left the connection open", name.c_str());
            else { talk(*c, tried(from, port).back().ip, port); loud([&] { c->close(); }); }
        }
        CHECK(!loud([&] { return c->is_open(); }), "left-open", "close() left the connection open");
        if (plan(3) == 2) fresh(); else SIM_PROBE("connection-reused");
    }
    loud([&] { c.reset(); });
}
}
void harness_run() {
    quiet_logging(); simnet::random_config(); g_ssl = plan(3) == 2; g_stop = false; simnet::strict_reconnect = plan(2);
    int nc = plan_range(1, 3), na = plan_range(1, 6), nh = plan_range(1, 3);
    auto &AD = simnet::addresses(); auto &H = simnet::hosts();
    for (int i = 0; i < na; ++i) { uint32_t ip = (plan(3) == 2 ? 0xfd000010u : 0x0a000010u) + i; static const int m[] = { simnet::ADDR_UP, simnet::ADDR_UP, simnet::ADDR_REFUSED, simnet::ADDR_REFUSED, simnet::ADDR_UNREACHABLE, simnet::ADDR_SILENT }; AD.push_back(std::make_pair(ip, m[plan(6)])); }
    for (int i = 0; i < nh; ++i) { std::vector<uint32_t> v; for (auto &a : AD) if (plan(3)) v.insert(v.begin() + plan(v.size() + 1), a.first); H.push_back(std::make_pair("host" + std::to_string(i) + ".test", v)); }
    pion::single_service_scheduler SS; S = &SS; loud([&] { SS.set_num_threads(plan_range(1, 3)); SS.add_active_user(); });
    std::vector<Acc> as;
    set_faults(false);
    for (int i = 0; i < nc; ++i) loud([&] { Acc A; A.port = 9300 + i; A.a.reset(new tcp::acceptor(SS.get_io_service())); A.a->open(tcp::v4()); A.a->bind(tcp::endpoint(tcp::v4(), A.port)); A.a->listen(); as.push_back(A); next(A); });
    set_faults(true);
    bool *quit = new bool(false); int flap = -1;
    if (plan(2)) flap = spawn("addresses", [&AD, quit] { while (!*quit) { sim::sleep(1 + plan(plan(2) ? 3000 : 2000000)); AD[plan(AD.size())].second = plan(4); } });   // hosts come and go
    std::vector<int> f; for (int i = 0; i < nc; ++i) f.push_back(spawn("client", [i] { client(9300 + i); }));
    CHECK(wait_until([&] { for (int x : f) if (!done(x)) return false; return true; }, 20000 * SEC), "stuck", "a client never came to its end"); for (int x : f) join(x);
    *quit = true; if (flap >= 0) join(flap);
    set_faults(false); g_stop = true; loud([&] { for (auto &A : as) A.a->close(); });
    CHECK(wait_until([&] { return g_sessions == 0; }, 300 * SEC), "socket-leak", "%d servers still see a connection although all clients have closed theirs", g_sessions);
    CHECK(wait_until([&] { return simasio::sockets_open() == 0; }, 60 * SEC), "socket-leak", "%d sockets are still open after all connections were closed", simasio::sockets_open());
    loud([&] { SS.remove_active_user(); SS.shutdown(); as.clear(); });
}
