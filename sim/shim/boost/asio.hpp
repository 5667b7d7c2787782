// Boost.Asio stand-in: same interface (including the pre-1.70 names pion uses), simulated inside.
#ifndef BOOST_ASIO_HPP
#define BOOST_ASIO_HPP
#include <boost/asio/detail/config.hpp>
#include <boost/asio/buffer.hpp>
#include <boost/asio/error.hpp>
#include <boost/asio/completion_condition.hpp>
#include <boost/asio/placeholders.hpp>
#include <boost/asio/ip/address.hpp>
#include <boost/asio/ip/address_v4.hpp>
#include <boost/asio/ip/basic_endpoint.hpp>
#include <boost/date_time/posix_time/posix_time_types.hpp>
#include <boost/system/system_error.hpp>
#include <boost/noncopyable.hpp>
#include <boost/bind.hpp>
#include <boost/throw_exception.hpp>
#include "core/net.hpp"

namespace boost { namespace asio {
using namespace boost::placeholders;
typedef boost::system::error_code simec;

template <class H> struct sim_op0 : simasio::OpBase { H h; explicit sim_op0(const H &x) : h(x) {} void complete(const simec &, size_t) { H f(h); delete this; f(); } };
template <class H> struct sim_op1 : simasio::OpBase { H h; explicit sim_op1(const H &x) : h(x) {} void complete(const simec &ec, size_t) { H f(h); simec e(ec); delete this; f(e); } };
template <class H> struct sim_op2 : simasio::OpBase { H h; explicit sim_op2(const H &x) : h(x) {} void complete(const simec &ec, size_t n) { H f(h); simec e(ec); delete this; f(e, n); } };

class io_service : private boost::noncopyable {
public:
    io_service() {} explicit io_service(std::size_t) {}
    std::size_t run() { return impl_.run(~size_t(0), true); }
    std::size_t run(simec &ec) { ec = simec(); return run(); }
    std::size_t run_one() { return impl_.run(1, true); }
    std::size_t poll() { return impl_.run(~size_t(0), false); }
    std::size_t poll_one() { return impl_.run(1, false); }
    void stop() { impl_.stop(); }
    bool stopped() const { return impl_.stopped; }
    void reset() { impl_.reset(); }
    void restart() { impl_.reset(); }
    template <class H> void post(H h) { impl_.post(new sim_op0<H>(h)); }
    template <class H> void dispatch(H h) { if (impl_.in_this_thread()) { H f(h); f(); } else impl_.post(new sim_op0<H>(h)); }
    class work { public: explicit work(io_service &s) : s_(s) { s_.impl_.work_started(); } work(const work &o) : s_(o.s_) { s_.impl_.work_started(); } ~work() { s_.impl_.work_finished(); } io_service &get_io_service() { return s_; } private: io_service &s_; };
    io_service &get_executor() { return *this; }
    io_service &context() { return *this; }
    simasio::Service *impl() { return &impl_; }
private:
    friend class work;
    simasio::Service impl_;
};
typedef io_service io_context;
template <class H> inline void post(io_service &s, H h) { s.post(h); }
template <class H> inline void dispatch(io_service &s, H h) { s.dispatch(h); }
class sim_work_guard { public: explicit sim_work_guard(io_service &s) : w_(new io_service::work(s)) {} sim_work_guard(const sim_work_guard &o) : w_(o.w_ ? new io_service::work(*o.w_) : 0) {} ~sim_work_guard() { delete w_; } void reset() { delete w_; w_ = 0; } private: io_service::work *w_; };
inline sim_work_guard make_work_guard(io_service &s) { return sim_work_guard(s); }

inline void sim_throw(const simec &ec, const char *what) { if (ec) { boost::system::system_error e(ec, what); boost::throw_exception(e); } }

class deadline_timer : private boost::noncopyable {
public:
    typedef boost::posix_time::ptime time_type; typedef boost::posix_time::time_duration duration_type;
    explicit deadline_timer(io_service &s) : s_(s), t_(s.impl()) {}
    deadline_timer(io_service &s, const time_type &t) : s_(s), t_(s.impl()) { expires_at(t); }
    deadline_timer(io_service &s, const duration_type &d) : s_(s), t_(s.impl()) { expires_from_now(d); }
    std::size_t expires_from_now(const duration_type &d) { return t_.set_expiry(sim::wall() + d.total_microseconds()); }
    std::size_t expires_from_now(const duration_type &d, simec &ec) { ec = simec(); return expires_from_now(d); }
    duration_type expires_from_now() const { return boost::posix_time::microseconds(t_.expiry - sim::wall()); }
    struct traits_type { typedef boost::posix_time::ptime time_type; typedef boost::posix_time::time_duration duration_type; static time_type now() { return epoch() + boost::posix_time::microseconds(sim::wall()); } };
    std::size_t expires_at(const time_type &t, simec &ec) { ec = simec(); return expires_at(t); }
    std::size_t expires_at(const time_type &t) { return t_.set_expiry((t - epoch()).total_microseconds()); }
    time_type expires_at() const { return epoch() + boost::posix_time::microseconds(t_.expiry); }
    std::size_t cancel() { return t_.cancel(); }
    std::size_t cancel(simec &ec) { ec = simec(); return t_.cancel(); }
    std::size_t cancel_one() { return t_.cancel(); }
    void wait() { t_.wait(); }
    template <class H> void async_wait(H h) { t_.start_wait(new sim_op1<H>(h)); }
    io_service &get_io_service() { return s_; } io_service &get_executor() { return s_; }
private:
    static time_type epoch() { return time_type(boost::gregorian::date(1970, 1, 1)); }
    io_service &s_; simasio::Timer t_;
};

// buffer sequences -> flat list
template <class B> inline void sim_bufs(const B &b, std::vector<simasio::Buf> &out, size_t skip, size_t limit) {
    typedef decltype(boost::asio::buffer_sequence_begin(b)) It;
    It i = boost::asio::buffer_sequence_begin(b), e = boost::asio::buffer_sequence_end(b);
    for (; i != e && limit; ++i) {
        boost::asio::const_buffer c(*i); size_t n = c.size(); char *p = (char *)c.data();
        if (skip >= n) { skip -= n; continue; }
        p += skip; n -= skip; skip = 0; if (n > limit) n = limit;
        simasio::Buf x = { p, n }; out.push_back(x); limit -= n;
    }
}
template <class B> inline std::vector<simasio::Buf> sim_bufs(const B &b) { std::vector<simasio::Buf> v; sim_bufs(b, v, 0, ~size_t(0)); return v; }

struct socket_base {
    enum shutdown_type { shutdown_receive, shutdown_send, shutdown_both }; typedef int message_flags;
    static const int max_connections = 128, max_listen_connections = 128;
    struct reuse_address { explicit reuse_address(bool = true) {} }; struct keep_alive { explicit keep_alive(bool = true) {} };
    struct linger { linger(bool = true, int = 0) {} };
};
namespace ip {
inline uint32_t sim_ip(const address &a) { if (a.is_v4()) return (uint32_t)a.to_v4().to_ulong(); address_v6::bytes_type b = a.to_v6().to_bytes(); return 0xfd000000u | (uint32_t)b[13] << 16 | (uint32_t)b[14] << 8 | b[15]; }
inline address sim_addr(uint32_t ip) { if (ip >> 24 != 0xfd) return address_v4(ip); address_v6::bytes_type b = {}; b[0] = 0xfd; b[13] = ip >> 16; b[14] = ip >> 8; b[15] = ip; return address_v6(b); }
class tcp {
public:
    typedef basic_endpoint<tcp> endpoint;
    static tcp v4() { return tcp(BOOST_ASIO_OS_DEF(AF_INET)); }
    static tcp v6() { return tcp(BOOST_ASIO_OS_DEF(AF_INET6)); }
    int type() const { return BOOST_ASIO_OS_DEF(SOCK_STREAM); } int protocol() const { return BOOST_ASIO_OS_DEF(IPPROTO_TCP); } int family() const { return family_; }
    friend bool operator==(const tcp &a, const tcp &b) { return a.family_ == b.family_; } friend bool operator!=(const tcp &a, const tcp &b) { return a.family_ != b.family_; }
    class socket; class acceptor; class resolver;
    struct no_delay { explicit no_delay(bool = true) {} };
private:
    explicit tcp(int f) : family_(f) {} int family_;
};
class tcp::socket : public socket_base, private boost::noncopyable {
public:
    typedef socket lowest_layer_type; typedef tcp::endpoint endpoint_type; typedef tcp protocol_type;
    explicit socket(io_service &s) : s_(s), i_(s.impl()) {}
    io_service &get_io_service() { return s_; } io_service &get_executor() { return s_; }
    lowest_layer_type &lowest_layer() { return *this; } const lowest_layer_type &lowest_layer() const { return *this; }
    bool is_open() const { return i_.open; }
    void open(const tcp & = tcp::v4()) {} void open(const tcp &, simec &ec) { ec = simec(); }
    template <class O> void set_option(const O &) {} template <class O> void set_option(const O &, simec &ec) { ec = simec(); }
    void close() { simec e; i_.close(e); sim_throw(e, "close"); } void close(simec &e) { i_.close(e); }
    void cancel() { simec e; i_.cancel(e); sim_throw(e, "cancel"); } void cancel(simec &e) { i_.cancel(e); }
    void shutdown(shutdown_type) { simec e; i_.shutdown(e); sim_throw(e, "shutdown"); } void shutdown(shutdown_type, simec &e) { i_.shutdown(e); }
    std::size_t available() const { simec e; return const_cast<simasio::Socket &>(i_).available(e); } std::size_t available(simec &e) const { return const_cast<simasio::Socket &>(i_).available(e); }
    void connect(const endpoint_type &ep) { simec e; i_.connect(ep.port(), e, sim_ip(ep.address())); sim_throw(e, "connect"); } void connect(const endpoint_type &ep, simec &e) { i_.connect(ep.port(), e, sim_ip(ep.address())); }
    template <class H> void async_connect(const endpoint_type &ep, H h) { i_.start_connect(ep.port(), new sim_op1<H>(h), sim_ip(ep.address())); }
    template <class B, class H> void async_read_some(const B &b, H h) { i_.start_read(sim_bufs(b), false, new sim_op2<H>(h)); }
    template <class B, class H> void async_write_some(const B &b, H h) { i_.start_write(sim_bufs(b), false, new sim_op2<H>(h)); }
    template <class B, class H> void async_receive(const B &b, H h) { async_read_some(b, h); } template <class B, class H> void async_send(const B &b, H h) { async_write_some(b, h); }
    template <class B> std::size_t receive(const B &b) { return read_some(b); } template <class B> std::size_t receive(const B &b, message_flags, simec &e) { return read_some(b, e); }
    template <class B> std::size_t send(const B &b) { return write_some(b); } template <class B> std::size_t send(const B &b, message_flags, simec &e) { return write_some(b, e); }
    template <class B> std::size_t read_some(const B &b, simec &e) { return i_.read(sim_bufs(b), false, e); } template <class B> std::size_t read_some(const B &b) { simec e; size_t n = read_some(b, e); sim_throw(e, "read_some"); return n; }
    template <class B> std::size_t write_some(const B &b, simec &e) { return i_.write(sim_bufs(b), false, e); } template <class B> std::size_t write_some(const B &b) { simec e; size_t n = write_some(b, e); sim_throw(e, "write_some"); return n; }
    endpoint_type remote_endpoint() const { simec e; endpoint_type r = remote_endpoint(e); sim_throw(e, "remote_endpoint"); return r; }
    endpoint_type remote_endpoint(simec &e) const { if (!i_.open || !i_.end) { e = error::not_connected; return endpoint_type(); } e = simec(); return endpoint_type(sim_addr(i_.end->remote.ip), i_.end->remote.port); }
    endpoint_type local_endpoint() const { simec e; endpoint_type r = local_endpoint(e); sim_throw(e, "local_endpoint"); return r; }
    endpoint_type local_endpoint(simec &e) const { if (!i_.open || !i_.end) { e = error::not_connected; return endpoint_type(); } e = simec(); return endpoint_type(sim_addr(i_.end->local.ip), i_.end->local.port); }
    simasio::Socket &sim_impl() { return i_; } enum { sim_ssl = 0 };
private:
    io_service &s_; simasio::Socket i_;
};
class tcp::acceptor : public socket_base, private boost::noncopyable {
public:
    typedef tcp::endpoint endpoint_type;
    explicit acceptor(io_service &s) : s_(s), a_(s.impl()) {}
    acceptor(io_service &s, const endpoint_type &ep, bool = true) : s_(s), a_(s.impl()) { open(ep.protocol()); bind(ep); listen(); }
    io_service &get_io_service() { return s_; } io_service &get_executor() { return s_; }
    bool is_open() const { return a_.open; }
    void open(const tcp &t) { simec e; open(t, e); sim_throw(e, "open"); } void open(const tcp &, simec &e) { e = a_.open ? simec(error::already_open) : simec(); a_.open = true; }
    template <class O> void set_option(const O &) {} template <class O> void set_option(const O &, simec &e) { e = simec(); }
    void bind(const endpoint_type &ep) { simec e; a_.bind(ep.port(), e); sim_throw(e, "bind"); } void bind(const endpoint_type &ep, simec &e) { a_.bind(ep.port(), e); }
    void listen(int = 0) { simec e; a_.listen(e); sim_throw(e, "listen"); } void listen(int, simec &e) { a_.listen(e); }
    endpoint_type local_endpoint() const { return endpoint_type(address_v4(0x7f000001), a_.port); } endpoint_type local_endpoint(simec &e) const { e = simec(); return local_endpoint(); }
    void close() { simec e; a_.close(e); } void close(simec &e) { a_.close(e); }
    void cancel() { simec e; a_.cancel(e); } void cancel(simec &e) { a_.cancel(e); }
    template <class S, class H> void async_accept(S &s, H h) { a_.start_accept(&s.lowest_layer().sim_impl(), new sim_op1<H>(h)); }
    template <class S> void accept(S &s, simec &e) { a_.accept(&s.lowest_layer().sim_impl(), e); } template <class S> void accept(S &s) { simec e; accept(s, e); sim_throw(e, "accept"); }
private:
    io_service &s_; simasio::Acceptor a_;
};
class tcp::resolver : private boost::noncopyable {
public:
    struct query { enum flags { numeric_service = 1, passive = 2, address_configured = 4 }; std::string host, service; query(const std::string &h, const std::string &s, int = 0) : host(h), service(s) {} };
    struct entry { tcp::endpoint ep; tcp::endpoint endpoint() const { return ep; } operator tcp::endpoint() const { return ep; } };
    class iterator { public: typedef std::forward_iterator_tag iterator_category; typedef entry value_type; typedef std::ptrdiff_t difference_type; typedef const entry *pointer; typedef const entry &reference; iterator() : i_(0) {} explicit iterator(const std::vector<entry> &v) : v_(v), i_(0) {} const entry *operator->() const { return &v_[i_]; } const entry &operator*() const { return v_[i_]; }
        iterator &operator++() { if (++i_ >= v_.size()) { v_.clear(); i_ = 0; } return *this; } iterator operator++(int) { iterator t(*this); ++*this; return t; }
        friend bool operator==(const iterator &a, const iterator &b) { return a.v_.size() - a.i_ == b.v_.size() - b.i_; } friend bool operator!=(const iterator &a, const iterator &b) { return !(a == b); }
        private: std::vector<entry> v_; size_t i_; };
    explicit resolver(io_service &) {}
    iterator resolve(const query &q, simec &e) { e = simec(); sim::sync_point(63); sim::Quiet quiet; std::vector<uint32_t> ips; bool known = q.host == "localhost" || q.host == "127.0.0.1";
        if (known) ips.push_back(simnet::LOOPBACK);
        for (auto &h : simnet::hosts()) if (h.first == q.host) { known = true; ips = h.second; }
        if (sim::fault("resolve-failed", 1, 12)) { e = error::host_not_found_try_again; return iterator(); }
        if (!known) { e = error::host_not_found; return iterator(); }
        std::vector<entry> v(ips.size()); for (size_t i = 0; i < ips.size(); ++i) v[i].ep = tcp::endpoint(sim_addr(ips[i]), (unsigned short)atoi(q.service.c_str()));
        return iterator(v); }
    iterator resolve(const std::string &h, const std::string &s, simec &e) { return resolve(query(h, s), e); } iterator resolve(const std::string &h, const std::string &s) { return resolve(query(h, s)); }
    iterator resolve(const query &q) { simec e; iterator i = resolve(q, e); sim_throw(e, "resolve"); return i; }
};
} // namespace ip

// ---------------------------------------------------------------- composed operations
template <class S> inline ip::tcp::resolver::iterator connect(S &s, ip::tcp::resolver::iterator i, simec &ec) {
    ip::tcp::resolver::iterator end; ec = error::not_found;
    for (; i != end; ++i) { s.close(ec); s.connect(i->endpoint(), ec); if (!ec) return i; }
    return end;
}
template <class S> inline ip::tcp::resolver::iterator connect(S &s, ip::tcp::resolver::iterator i) { simec e; i = connect(s, i, e); sim_throw(e, "connect"); return i; }
template <class S> inline simasio::Socket &sim_sock(S &s) { return s.lowest_layer().sim_impl(); }

template <class S, class B, class C, class H> struct sim_read_op : simasio::OpBase {
    S &s; B b; C c; H h; size_t total, want;
    sim_read_op(S &s_, const B &b_, C c_, const H &h_) : s(s_), b(b_), c(c_), h(h_), total(0), want(0) {}
    void start() { simec ok; want = detail::adapt_completion_condition_result(c(ok, total)); step(simec()); }
    void step(const simec &) { std::vector<simasio::Buf> v; sim_bufs(b, v, total, want); sim_sock(s).start_read(v, S::sim_ssl != 0, this); }
    void complete(const simec &ec, size_t n) { total += n; want = detail::adapt_completion_condition_result(c(ec, total));
        if (want && !ec && total < boost::asio::buffer_size(b) && n != 0) { step(ec); return; }
        H f(h); simec e(ec); size_t t = total; delete this; f(e, t); }
};
template <class S, class B, class C, class H> struct sim_write_op : simasio::OpBase {
    S &s; B b; C c; H h; size_t total, want;
    sim_write_op(S &s_, const B &b_, C c_, const H &h_) : s(s_), b(b_), c(c_), h(h_), total(0), want(0) {}
    void start() { simec ok; want = detail::adapt_completion_condition_result(c(ok, total)); step(); }
    void step() { std::vector<simasio::Buf> v; sim_bufs(b, v, total, want); sim_sock(s).start_write(v, S::sim_ssl != 0, this); }
    void complete(const simec &ec, size_t n) { total += n; want = detail::adapt_completion_condition_result(c(ec, total));
        if (want && !ec && total < boost::asio::buffer_size(b) && n != 0) { step(); return; }
        H f(h); simec e(ec); size_t t = total; delete this; f(e, t); }
};
template <class S, class B, class C, class H> inline void async_read(S &s, const B &b, C c, H h) { (new sim_read_op<S, B, C, H>(s, b, c, h))->start(); }
template <class S, class B, class H> inline void async_read(S &s, const B &b, H h) { async_read(s, b, transfer_all(), h); }
template <class S, class B, class C, class H> inline void async_write(S &s, const B &b, C c, H h) { (new sim_write_op<S, B, C, H>(s, b, c, h))->start(); }
template <class S, class B, class H> inline void async_write(S &s, const B &b, H h) { async_write(s, b, transfer_all(), h); }
template <class S, class B, class C> inline std::size_t read(S &s, const B &b, C c, simec &ec) {
    size_t total = 0, size = boost::asio::buffer_size(b); ec = simec();
    for (;;) { size_t want = detail::adapt_completion_condition_result(c(ec, total)); if (!want || ec || total >= size) return total;
        std::vector<simasio::Buf> v; sim_bufs(b, v, total, want); total += sim_sock(s).read(v, S::sim_ssl != 0, ec); }
}
template <class S, class B> inline std::size_t read(S &s, const B &b, simec &ec) { return read(s, b, transfer_all(), ec); }
template <class S, class B> inline std::size_t read(S &s, const B &b) { simec e; size_t n = read(s, b, transfer_all(), e); sim_throw(e, "read"); return n; }
template <class S, class B, class C> inline std::size_t write(S &s, const B &b, C c, simec &ec) {
    size_t total = 0, size = boost::asio::buffer_size(b); ec = simec();
    for (;;) { size_t want = detail::adapt_completion_condition_result(c(ec, total)); if (!want || ec || total >= size) return total;
        std::vector<simasio::Buf> v; sim_bufs(b, v, total, want); total += sim_sock(s).write(v, S::sim_ssl != 0, ec); }
}
template <class S, class B> inline std::size_t write(S &s, const B &b, simec &ec) { return write(s, b, transfer_all(), ec); }
template <class S, class B> inline std::size_t write(S &s, const B &b) { simec e; size_t n = write(s, b, transfer_all(), e); sim_throw(e, "write"); return n; }
} } // namespace boost::asio
#endif
