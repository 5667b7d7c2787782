#ifndef BOOST_ASIO_SSL_HPP
#define BOOST_ASIO_SSL_HPP
#include <boost/asio.hpp>
namespace boost { namespace asio { namespace ssl {
struct stream_base { enum handshake_type { client, server }; };
struct context_base { enum method { sslv2, sslv3, tlsv1, sslv23, sslv23_server, sslv23_client, tls, tls_server }; enum file_format { asn1, pem }; typedef long options;
    static const long default_workarounds = 1, no_sslv2 = 2, no_sslv3 = 4, single_dh_use = 8, no_tlsv1 = 16; };
class context : public context_base, private boost::noncopyable {
public:
    context(io_service &, method) {} explicit context(method) {}
    void set_options(options) {} template <class F> void set_password_callback(F) {}
    void use_certificate_file(const std::string &, file_format) {} void use_private_key_file(const std::string &, file_format) {} void use_certificate_chain_file(const std::string &) {}
    void *native_handle() { return this; } void *impl() { return this; }
};
template <class Next> class stream : public stream_base, private boost::noncopyable {
public:
    typedef Next next_layer_type; typedef typename Next::lowest_layer_type lowest_layer_type; enum { sim_ssl = 1 };
    stream(io_service &s, context &) : n_(s) {}
    Next &next_layer() { return n_; } const Next &next_layer() const { return n_; } lowest_layer_type &lowest_layer() { return n_.lowest_layer(); } const lowest_layer_type &lowest_layer() const { return n_.lowest_layer(); }
    io_service &get_io_service() { return n_.get_io_service(); }
    template <class H> void async_handshake(handshake_type t, H h) { n_.lowest_layer().sim_impl().start_handshake(t == server, new sim_op1<H>(h)); }
    void handshake(handshake_type t, simec &e) { n_.lowest_layer().sim_impl().handshake(t == server, e); } void handshake(handshake_type t) { simec e; handshake(t, e); sim_throw(e, "handshake"); }
    template <class B, class H> void async_read_some(const B &b, H h) { n_.lowest_layer().sim_impl().start_read(sim_bufs(b), true, new sim_op2<H>(h)); }
    template <class B, class H> void async_write_some(const B &b, H h) { n_.lowest_layer().sim_impl().start_write(sim_bufs(b), true, new sim_op2<H>(h)); }
    template <class B> std::size_t read_some(const B &b, simec &e) { return n_.lowest_layer().sim_impl().read(sim_bufs(b), true, e); }
    template <class B> std::size_t write_some(const B &b, simec &e) { return n_.lowest_layer().sim_impl().write(sim_bufs(b), true, e); }
    void shutdown() {} void shutdown(simec &e) { e = simec(); }
private: Next n_;
};
} } }
#endif
