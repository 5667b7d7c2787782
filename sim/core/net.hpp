// Simulated TCP network and the untemplated part of the Boost.Asio stand-in.
#ifndef VERIF_NET_HPP
#define VERIF_NET_HPP
#include "sim.hpp"
#include <boost/system/error_code.hpp>
#include <deque>
#include <memory>
#include <string>
#include <vector>

namespace simnet {
typedef boost::system::error_code ec_t;

struct Addr { uint32_t ip; uint16_t port; };

/// One endpoint of an established connection.
struct End : std::enable_shared_from_this<End> {
    int id = 0; std::weak_ptr<End> peer; Addr local, remote;
    std::string rx; bool rx_fin = false, rx_rst = false;      // delivered to this end
    bool tx_shut = false, closed = false, rx_shut = false;     // local state
    size_t unread_total = 0;                                   // bytes sent to this end and not yet read (flow control)
    uint64_t last_delivery = 0;                                // in-order delivery clock for data *towards* this end
    uint64_t total_in = 0, total_out = 0, total_read = 0;
    std::function<void()> ready;                               // state changed
    bool server_side = false;
    std::string tag;
};
typedef std::shared_ptr<End> EndP;

struct Listener {
    uint16_t port; bool open; std::deque<EndP> backlog; std::function<void()> ready; std::vector<std::function<void()> > more;
};
typedef std::shared_ptr<Listener> ListenerP;

/// per-run network behaviour (set by the harness from PLAN choices; defaults are benign)
struct Config {
    uint64_t delay_min = 20, delay_max = 200;   // us
    uint32_t seg_mode = 0;                      // 0 whole, 1 random cuts, 2 tiny
    size_t capacity = 65536;                    // flow-control window per direction
    uint32_t stall_num = 0, stall_den = 100; uint64_t stall_us = 0;   // long delivery delay
};
extern Config cfg;
void random_config();                           // draw cfg from PLAN

// raw operations (never block)
long end_send(const EndP &e, const char *p, size_t n, ec_t &ec);   // 0 with no error = would block
long end_recv(const EndP &e, char *p, size_t n, ec_t &ec);         // 0 with no error = would block
void end_shutdown(const EndP &e);
void end_close(const EndP &e);
void end_reset(const EndP &e);                  // abortive close
ListenerP listen(uint16_t &port, ec_t &ec);
void close_listener(const ListenerP &l);
enum { LOOPBACK = 0x7f000001 };
void connect(uint16_t port, std::function<void(EndP, ec_t)> cb, uint32_t ip = LOOPBACK);
// names and addresses other than the loopback (IPv6 addresses are represented by 0xfd......)
enum { ADDR_UP, ADDR_REFUSED, ADDR_UNREACHABLE, ADDR_SILENT };      // answers / refuses / no route / never answers (times out)
std::vector<std::pair<uint32_t, int> > &addresses();                // what each address does (unknown addresses: loopback is up, others are unreachable)
std::vector<std::pair<std::string, std::vector<uint32_t> > > &hosts();   // what each name resolves to
struct Attempt { uint32_t ip; uint16_t port; uint64_t at; bool done; ec_t ec; };
std::vector<Attempt> &attempts();                                   // every connect attempt of simulated sockets, in order
extern bool strict_reconnect;                                       // a socket whose connect failed cannot be used for another one
std::vector<EndP> &server_ends();               // every server-side endpoint ever created

/// blocking raw client for harness fibers
class Client {
public:
    bool connect(uint16_t port, uint64_t timeout_us = 30000000);
    bool send(const std::string &s, uint64_t timeout_us = 60000000);     // false on error
    /// appends whatever arrives to `in`; false on EOF/reset/timeout
    bool recv_some(uint64_t timeout_us = 60000000);
    bool recv_until(const std::function<bool(const std::string &)> &p, uint64_t timeout_us = 60000000);
    bool recv_eof(uint64_t timeout_us = 60000000);                       // reads everything until EOF or reset
    void shutdown(); void close(); void reset();
    bool ssl_handshake(uint64_t timeout_us = 30000000);                  // performs the simulated handshake
    std::string in; bool eof = false, rst = false, timed_out = false, ssl = false; ec_t ec; EndP end;
    ~Client() { if (end) close(); }
};
static const char SSL_CH[] = "\x16HELLO-CL", SSL_SH[] = "\x16HELLO-SV", SSL_FI[] = "\x16""FINISH-C";
enum { SSL_LEN = 9, SSL_KEY = 0x5A };
}

// ---------------------------------------------------------------------------------------------
namespace simasio {
typedef boost::system::error_code ec_t;

struct Service;
struct OpBase {
    sim::HbToken hb; OpBase() {}
    virtual ~OpBase() {}
    virtual void complete(const ec_t &ec, size_t n) = 0;   // invokes the handler (deletes itself first)
};
struct Service {
    struct Item { OpBase *op; ec_t ec; size_t n; };
    std::deque<Item> q; size_t work = 0; bool stopped = false; bool alive = true; unsigned magic = 0x5e41ce;
    std::vector<int> running;                       // fibers inside run()
    std::vector<std::function<void()> > at_shutdown;
    Service(); ~Service();
    void post(OpBase *op, const ec_t &ec = ec_t(), size_t n = 0);      // counts as work until run
    void post_pending(OpBase *op, const ec_t &ec, size_t n);            // work was already counted by the pending op
    size_t run(size_t max, bool wait);
    void stop(); void reset();
    void work_started(); void work_finished();
    bool in_this_thread() const;
    void check(const char *what) const;
};
struct Buf { char *p; size_t n; };
struct PendingIo { OpBase *op; std::vector<Buf> bufs; bool ssl; };

struct Socket {
    Service *svc; simnet::EndP end; bool open = false;
    std::deque<PendingIo> rd, wr; uint32_t fam = 0; bool spent = false; OpBase *conn = 0; OpBase *hs = 0; bool hs_server = false; int hs_stage = 0; std::string hs_in;
    explicit Socket(Service *s); ~Socket();
    void attach(simnet::EndP e);
    void pump();                                     // try pending operations
    void start_read(const std::vector<Buf> &b, bool ssl, OpBase *op);
    void start_write(const std::vector<Buf> &b, bool ssl, OpBase *op);
    size_t read(const std::vector<Buf> &b, bool ssl, ec_t &ec);
    size_t write(const std::vector<Buf> &b, bool ssl, ec_t &ec);
    void start_connect(uint16_t port, OpBase *op, uint32_t ip = simnet::LOOPBACK);
    void connect(uint16_t port, ec_t &ec, uint32_t ip = simnet::LOOPBACK);
    void start_handshake(bool server, OpBase *op);
    void handshake(bool server, ec_t &ec);
    void cancel(ec_t &ec); void close(ec_t &ec); void shutdown(ec_t &ec);
    size_t available(ec_t &ec);
    bool alive_token_ok; std::shared_ptr<int> life;
    void fail_all(const ec_t &e);
    bool try_handshake(ec_t &ec, bool &done);
};
struct Acceptor {
    Service *svc; bool open = false, bound = false; uint16_t port = 0; simnet::ListenerP l; std::deque<std::pair<Socket *, OpBase *> > pend;
    explicit Acceptor(Service *s); ~Acceptor();
    void bind(uint16_t p, ec_t &ec); void listen(ec_t &ec); void start_accept(Socket *s, OpBase *op); void accept(Socket *s, ec_t &ec);
    void close(ec_t &ec); void cancel(ec_t &ec); void pump(); std::shared_ptr<int> life;
};
struct Timer {
    Service *svc; int64_t expiry = 0; std::vector<OpBase *> waits; uint64_t gen = 0; std::shared_ptr<int> life;
    explicit Timer(Service *s); ~Timer();
    size_t set_expiry(int64_t wall_us); size_t cancel(); void start_wait(OpBase *op); void fire(); void arm();
    void wait();
};
int sockets_open();                  ///< sockets currently open in simulated asio
}
#endif
