// P06: tcp::stream carries exactly the bytes written, in order
#include "common.hpp"
#include "core/net.hpp"
#include <boost/asio.hpp>
#include <boost/bind.hpp>
#include <pion/scheduler.hpp>
#include <pion/tcp/stream.hpp>
using namespace sim; using namespace hx;

namespace {
char byte_at(uint64_t salt, size_t i) { uint64_t x = (i + 1) * 0x9E3779B97F4A7C15ull + salt * 0xC2B2AE3D27D4EB4Full; x ^= x >> 29; return (char)(x >> 17); }
std::string stretch(uint64_t salt, size_t from, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = byte_at(salt, from + i); return s; }
int size_like() {        // sizes around the internal buffers
    static const int b[] = { 1, 2, 9, 10, 11, 100, 4096, 8181, 8182, 8183, 8190, 8191, 8192, 8193, 16382, 16384, 20000 };
    return plan(3) ? 1 + (int)plan(300) : b[plan(17)];
}
struct Model {
    std::string A;            // bytes accepted by the writer, in order
    std::string inflight;     // bytes of the operation in progress
    size_t wire = 0;          // bytes seen at the other end
    bool fuzzy = false;       // an operation failed without saying how much it took
    void arrived(const char *p, size_t n) {
        for (size_t i = 0; i < n; ++i, ++wire) {
            char want; if (wire < A.size()) want = A[wire]; else if (wire - A.size() < inflight.size()) want = inflight[wire - A.size()];
            else violation("bytes-invented", "byte %zu arrived, but only %zu bytes were ever written (%zu accepted)", wire, A.size() + inflight.size(), A.size());
            if (p[i] != want) violation("bytes-corrupted", "byte %zu of the stream arrived as %02x instead of %02x (%zu accepted, %zu in the current operation)", wire, (unsigned char)p[i], (unsigned char)want, A.size(), inflight.size());
        }
    }
    void begin(const std::string &s) { inflight = s; }
    void end(size_t accepted) { A += inflight.substr(0, accepted); inflight.clear(); if (wire > A.size()) violation("bytes-invented", "%zu bytes arrived, but the writer was told that only %zu were taken", wire, A.size()); }
};
Model *M; 
typedef pion::tcp::stream Str;
bool g_faulty;      // closes, cancels or resets may make operations fail
bool g_closed, g_reset, g_cancelled, g_peer_fin; 

// one write operation on the buffer; returns false if it reported failure
bool write_op(Str &s, uint64_t salt) {
    std::streambuf *b = s.rdbuf(); int k = plan(6); size_t at = M->A.size();
    if (plan(12) == 11) {      // single characters at the very end of the write buffer
        if (loud([&] { return b->pubsync(); }) != 0) return false;
        std::string d = stretch(salt, at, 8184 + plan(9)); M->begin(d); std::streamsize r = loud([&] { return b->sputn(d.data(), d.size()); }); CHECK(r >= 0 && r <= (std::streamsize)d.size(), "count-wrong", "sputn(%zu) returned %ld", d.size(), (long)r); M->end(r); if (r < (std::streamsize)d.size()) return false;
        for (int i = 0; i < 12; ++i) { std::string e = stretch(salt, M->A.size(), 1); M->begin(e); int x = loud([&] { return b->sputc(e[0]); }); bool ok = x != std::char_traits<char>::eof(); M->end(ok ? 1 : 0); if (!ok) return false; }
        SIM_PROBE("write-buffer-edge"); ++*counter("evals"); return true;
    }
    if (g_faulty && k >= 3) k -= 3;
    switch (k) {
    case 0: { std::string d = stretch(salt, at, size_like()); M->begin(d); std::streamsize r = loud([&] { return b->sputn(d.data(), d.size()); }); log("sputn %zu -> %ld", d.size(), (long)r);
        CHECK(r >= 0 && r <= (std::streamsize)d.size(), "count-wrong", "sputn(%zu) returned %ld", d.size(), (long)r); M->end(r); ++*counter("evals"); return r == (std::streamsize)d.size(); }
    case 1: { std::string d = stretch(salt, at, 1); M->begin(d); int r = loud([&] { return b->sputc(d[0]); }); bool ok = r != std::char_traits<char>::eof(); log("sputc -> %d", r); if (ok) CHECK((char)r == d[0], "count-wrong", "sputc returned another character"); M->end(ok ? 1 : 0); return ok; }
    case 2: { int r = loud([&] { return b->pubsync(); }); log("sync -> %d", r);
        if (r == 0) { size_t want = M->A.size(); bool ok = wait_until([&] { return M->wire >= want || g_reset || g_closed; }, 300 * SEC); CHECK(ok || g_cancelled, "bytes-lost", "flush succeeded but only %zu of %zu bytes arrived", M->wire, want); ++*counter("evals"); }
        return r == 0; }
    case 3: { std::string d = stretch(salt, at, size_like()); M->begin(d); loud([&] { s.write(d.data(), d.size()); }); bool ok = s.good(); log("write %zu ok %d", d.size(), (int)ok); M->end(ok ? d.size() : 0); return ok; }
    case 4: { int n = plan_range(1, 40); bool ok = true; for (int i = 0; i < n && ok; ++i) { std::string d = stretch(salt, M->A.size(), 1); M->begin(d); loud([&] { s.put(d[0]); }); ok = s.good(); M->end(ok ? 1 : 0); } return ok; }
    default: { loud([&] { s.flush(); }); bool ok = s.good(); size_t want = M->A.size(); if (ok) CHECK(wait_until([&] { return M->wire >= want || g_reset || g_closed; }, 300 * SEC), "bytes-lost", "flush succeeded but only %zu of %zu bytes arrived", M->wire, want); ++*counter("evals"); return ok; }
    }
}
struct Rd { size_t pos = 0; uint64_t salt; size_t total; };
void check_bytes(Rd &r, const char *p, size_t n, const char *what) {
    for (size_t i = 0; i < n; ++i, ++r.pos) {
        if (r.pos >= r.total) violation("bytes-invented", "%s returned %zu bytes beyond the end of the data sent", what, n - i);
        if (p[i] != byte_at(r.salt, r.pos)) violation("bytes-corrupted", "%s: byte %zu read as %02x instead of %02x", what, r.pos, (unsigned char)p[i], (unsigned char)byte_at(r.salt, r.pos));
    }
}
void at_end(Rd &r) { if (!g_faulty) { CHECK(r.pos == r.total, "early-eof", "end of stream reported after %zu of %zu bytes", r.pos, r.total); CHECK(g_peer_fin, "early-eof", "end of stream reported although the peer has not closed"); } }
// returns false at end of stream / failure
bool read_op(Str &s, Rd &r) {
    std::streambuf *b = s.rdbuf(); const int EOFC = std::char_traits<char>::eof(); bool fail = false;
    switch (plan(8)) {
    case 0: { int n = size_like(); std::string d(n, 0); std::streamsize g = loud([&] { return b->sgetn(&d[0], n); }); log("sgetn %d -> %ld", n, (long)g); CHECK(g >= 0 && g <= n, "count-wrong", "sgetn(%d) returned %ld", n, (long)g); check_bytes(r, d.data(), g, "sgetn"); fail = g < n; break; }
    case 1: { int c = loud([&] { return b->sbumpc(); }); if (c == EOFC) fail = true; else { char x = (char)c; check_bytes(r, &x, 1, "sbumpc"); } break; }
    case 2: { int c = loud([&] { return b->sgetc(); }); if (c == EOFC) fail = true; else { char x = (char)c; check_bytes(r, &x, 1, "sgetc"); --r.pos; } break; }
    case 3: { int n = plan_range(1, 14); int un = 0; for (; un < n; ++un) { if (r.pos == 0) break; int c = loud([&] { return b->sungetc(); }); if (c == EOFC) break; --r.pos; if ((char)c != byte_at(r.salt, r.pos)) violation("bytes-corrupted", "sungetc at %zu gave %02x instead of %02x", r.pos, (unsigned char)c, (unsigned char)byte_at(r.salt, r.pos)); }
        log("unget %d", un); break; }
    case 4: { int n = size_like(); std::string d(n, 0); s.clear(); loud([&] { s.read(&d[0], n); }); std::streamsize g = s.gcount(); check_bytes(r, d.data(), g, "read"); log("read %d -> %ld", n, (long)g); fail = g < n; CHECK(fail == !s.good(), "not-reported", "read(%d) delivered %ld bytes and the stream state is %d", n, (long)g, (int)s.rdstate()); break; }
    case 5: { if (r.pos == 0) break; char c = byte_at(r.salt, r.pos - 1); int x = loud([&] { return b->sputbackc(c); }); if (x != EOFC) --r.pos; break; }
    case 6: { s.clear(); int c = loud([&] { return s.get(); }); if (c == EOFC) { fail = true; CHECK(!s.good(), "not-reported", "get() failed and the stream is good"); } else { char x = (char)c; check_bytes(r, &x, 1, "get"); } break; }
    default: { std::streamsize n = loud([&] { return b->in_avail(); }); if (n > 0) { std::string d(n, 0); std::streamsize g = loud([&] { return b->sgetn(&d[0], n); }); CHECK(g == n, "count-wrong", "%ld bytes available but sgetn returned %ld", (long)n, (long)g); check_bytes(r, d.data(), g, "in_avail+sgetn"); } break; }
    }
    ++*counter("evals");
    if (fail) at_end(r);
    return !fail;
}
// a stream buffer without a peer: what is written to it stays inside it, and what was not taken is reported
struct Guarded { unsigned char pre[32]; pion::tcp::stream_buffer b; unsigned char post[32]; Guarded(boost::asio::io_service &io) : b(io, false) { memset(pre, 0xA5, sizeof pre); memset(post, 0xA5, sizeof post); } bool intact() const { for (int i = 0; i < 32; ++i) if (pre[i] != 0xA5 || post[i] != 0xA5) return false; return true; } };
void edge(boost::asio::io_service &io) {
    std::unique_ptr<Guarded> g(loud([&] { return new Guarded(io); })); std::streambuf *b = &g->b; size_t taken = 0;
    for (int i = 0, n = plan_range(1, 40); i < n; ++i) {
        if (plan(2)) { int x = loud([&] { return b->sputc('x'); }); if (x != std::char_traits<char>::eof()) ++taken; }
        else { std::string d(plan(3) == 2 ? 8180 + plan(20) : plan(3) ? plan(20) : plan(9000), 'y'); std::streamsize r = loud([&] { return b->sputn(d.data(), d.size()); }); CHECK(r >= 0 && r <= (std::streamsize)d.size(), "count-wrong", "sputn(%zu) returned %ld", d.size(), (long)r); taken += r; }
        CHECK(g->intact(), "buffer-overrun", "a write outside the stream buffer happened after %zu bytes were taken", taken);
        CHECK(taken <= 8192, "count-wrong", "a stream without a connection took %zu bytes", taken);
    }
    bool ok = loud([&] { return b->pubsync(); }) == 0; CHECK(ok == (taken == 0), "not-reported", "flushing %zu bytes without a connection %s", taken, ok ? "succeeded" : "failed"); ++*counter("evals");
    loud([&] { g.reset(); });
}
void single() {           // one pion stream, raw peer
    simnet::random_config(); bool ssl = plan(3) == 2; bool accept = plan(2) == 0; int threads = plan_range(1, 3);
    int trouble = plan(6);    // 0-2 none, 3 reset, 4 close from another thread, 5 cancel
    g_faulty = trouble >= 3;
    pion::single_service_scheduler S; loud([&] { S.set_num_threads(threads); S.add_active_user(); });
    boost::asio::io_service &io = S.get_io_service();
    if (plan(4) == 3) { bool dn = false; int ef = spawn("edge", [&] { edge(io); dn = true; }); CHECK(wait_until([&] { return dn; }, 300 * SEC), "stuck", "writing to a stream without a connection never returned"); join(ef); }
    {
        std::unique_ptr<Str> s(loud([&] { return new Str(io, ssl); }));
        boost::asio::ip::tcp::acceptor acc(io); simnet::Client c; boost::system::error_code ec;
        acc.open(boost::asio::ip::tcp::v4()); set_faults(false); acc.bind(boost::asio::ip::tcp::endpoint(boost::asio::ip::tcp::v4(), 9000)); acc.listen();
        std::unique_ptr<Str> other; 
        int f = -1; bool cok = false;
        (void)accept;
        f = spawn("peer-connect", [&] { cok = c.connect(9000) && (!ssl || c.ssl_handshake()); });
        ec = loud([&] { return s->accept(acc); }); join(f);
        CHECK(!ec && cok, "accept-failed", "accept or handshake failed without any fault: %s", ec.message().c_str());
        set_faults(true);
        M = new Model; Rd rd; rd.salt = 77; rd.total = plan(4) ? plan(3000) : size_like() * 2;
        std::string D = stretch(rd.salt, 0, rd.total);
        bool peer_sends = plan(4) != 0; bool *stop_recv = new bool(false);
        int snd = spawn("peer-send", [&] { if (!peer_sends) { rd.total = 0; } size_t off = 0; while (off < rd.total) { size_t n = 1 + plan(2000); if (n > rd.total - off) n = rd.total - off; if (!c.send(D.substr(off, n), 2000 * SEC)) return; off += n; if (plan(4) == 3) sim::sleep(plan(300000)); } if (!g_reset && c.end && !c.end->closed) { g_peer_fin = true; c.shutdown(); } });
        if (!peer_sends) rd.total = 0;
        int rcv = spawn("peer-recv", [&] { for (;;) { c.in.clear(); if (!c.recv_some(4000 * SEC)) break; M->arrived(c.in.data(), c.in.size()); if (*stop_recv) break; } });
        int trb = -1; Str *sp = s.get();
        if (trouble == 3) trb = spawn("reset", [&] { sim::sleep(plan(600000)); g_reset = true; c.reset(); });
        if (trouble == 4) trb = spawn("closer", [&] { sim::sleep(plan(600000)); g_closed = true; loud([&] { sp->close(); }); });
        if (trouble == 5) trb = spawn("canceller", [&] { for (int i = 0; i < 6; ++i) { sim::sleep(1 + plan(200000)); g_cancelled = true; loud([&] { sp->rdbuf()->get_connection().cancel(); }); SIM_COUNT("fault.cancel"); } });
        bool fin = false; bool write_failed = false;
        int user = spawn("user", [&] {
            int ops = plan_range(1, 25); int fails = 0;
            for (int i = 0; i < ops; ++i) {
                if (plan(2)) { bool ok = write_op(*sp, 5); if (!ok) { CHECK(g_faulty, "write-failed", "a write failed although nothing is wrong with the connection"); write_failed = true; sp->clear(); if (++fails > 12) break; } }
                else { bool ok = read_op(*sp, rd); if (!ok) { sp->clear(); if (g_faulty && ++fails > 12) break; } }
                if (plan(6) == 5) sim::sleep(plan(100000));
            }
            if (!g_faulty && plan(2)) { while (read_op(*sp, rd)) {} sp->clear(); }   // drain to the end of the stream
            fin = true; });
        if (!wait_until([&] { return fin; }, 3000 * SEC)) violation("stuck", "a stream operation never returned (peer %s, closed from another thread: %d)", g_reset ? "reset" : "alive", (int)g_closed);
        join(user); if (trb >= 0) join(trb);
        // the destructor flushes what is left
        bool gone = false; int df = spawn("destroy", [&] { loud([&] { s.reset(); }); gone = true; });
        CHECK(wait_until([&] { return gone; }, 300 * SEC), "stuck", "destroying the stream never returned"); join(df);
        if (!g_faulty) { size_t want = M->A.size(); CHECK(wait_until([&] { return M->wire >= want; }, 300 * SEC), "bytes-lost", "the stream was destroyed and only %zu of %zu bytes arrived", M->wire, want); }
        else if (trouble == 5) { wait_until([&] { return M->wire >= M->A.size() || done(rcv); }, 30 * SEC); }
        if (!g_closed && !g_reset) { CHECK(wait_until([&] { return done(rcv); }, 300 * SEC), "no-eof", "the destroyed stream's peer saw no end of stream"); }
        *stop_recv = true; c.reset(); if (!done(snd)) { sim::wait_until([&] { return done(snd); }, 100 * SEC); } join(rcv); 
        if (!done(snd)) join(snd);
        loud([&] { acc.close(); });
    }
    loud([&] { S.remove_active_user(); S.shutdown(); });
}
void pair_of() {           // two pion streams talk to each other
    simnet::random_config(); bool ssl = plan(3) == 2; int threads = plan_range(1, 3);
    pion::single_service_scheduler S; loud([&] { S.set_num_threads(threads); S.add_active_user(); });
    boost::asio::io_service &io = S.get_io_service();
    {
        Str *a = loud([&] { return new Str(io, ssl); }), *b = loud([&] { return new Str(io, ssl); });
        boost::asio::ip::tcp::acceptor acc(io); set_faults(false); acc.open(boost::asio::ip::tcp::v4()); acc.bind(boost::asio::ip::tcp::endpoint(boost::asio::ip::tcp::v4(), 9000)); acc.listen();
        boost::system::error_code e1, e2; int f = spawn("connect", [&] { e1 = loud([&] { return a->connect(boost::asio::ip::address_v4(0x7f000001), 9000); }); });
        e2 = loud([&] { return b->accept(acc); }); join(f);
        CHECK(!e1 && !e2, "accept-failed", "connect or accept failed: %s %s", e1.message().c_str(), e2.message().c_str());
        set_faults(true);
        int rounds = plan_range(1, 3);
        for (int r = 0; r < rounds; ++r) {
            Str *w = r & 1 ? b : a, *x = r & 1 ? a : b; size_t len = size_like() + (plan(3) == 2 ? size_like() : 0); uint64_t salt = 100 + r; bool last = r + 1 == rounds, by_destroy = last && plan(2);
            bool wf = false, rf = false;
            int wr = spawn("writer", [&] { size_t off = 0; while (off < len) { size_t n = size_like(); if (n > len - off) n = len - off; std::string d = stretch(salt, off, n); loud([&] { w->write(d.data(), n); }); CHECK(w->good(), "write-failed", "write failed without a fault"); off += n; if (plan(5) == 4) loud([&] { w->flush(); }); }
                if (by_destroy) { loud([&] { delete w; }); if (r & 1) b = 0; else a = 0; } else { loud([&] { w->flush(); }); CHECK(w->good(), "write-failed", "flush failed without a fault"); } wf = true; });
            int rr = spawn("reader", [&] { size_t off = 0; while (off < len) { size_t n = size_like(); if (n > len - off) n = len - off; std::string d(n, 0); loud([&] { x->read(&d[0], n); }); CHECK((size_t)x->gcount() == n && x->good(), "bytes-lost", "read(%zu) at %zu of %zu delivered only %ld bytes", n, off, len, (long)x->gcount()); CHECK(d == stretch(salt, off, n), "bytes-corrupted", "bytes %zu.. differ from what was written", off); off += n; ++*counter("evals"); }
                if (by_destroy) { int c = loud([&] { return x->get(); }); CHECK(c == -1, "bytes-invented", "a byte arrived after the end"); } rf = true; });
            CHECK(wait_until([&] { return wf && rf; }, 3000 * SEC), "stuck", "stream transfer of %zu bytes never completed (writer done %d, reader done %d)", len, (int)wf, (int)rf);
            join(wr); join(rr);
        }
        bool gone = false; int df = spawn("destroy", [&] { loud([&] { delete a; delete b; acc.close(); }); gone = true; });
        CHECK(wait_until([&] { return gone; }, 300 * SEC), "stuck", "destroying the streams never returned"); join(df);
    }
    loud([&] { S.remove_active_user(); S.shutdown(); });
}
}
void harness_run() { quiet_logging(); if (plan(4) == 3) pair_of(); else single(); }
