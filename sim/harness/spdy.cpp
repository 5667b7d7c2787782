// P24 SPDY sessions decode to what was sent; P25 damaged SPDY packets are harmless
#include "common.hpp"
#include <boost/asio.hpp>
#include <pion/spdy/parser.hpp>
#include <pion/spdy/decompressor.hpp>
#include <zlib.h>
#include <sys/mman.h>
#include <cstring>
#include <map>
#include <memory>
using namespace sim; using namespace hx; using namespace pion;
typedef std::map<std::string, std::string> Headers;

namespace {
// (the dictionary of the SPDY/2 specification, with its terminating zero)
const char DICT[] =
    "optionsgetheadpostputdeletetraceacceptaccept-charsetaccept-encodingaccept-languageauthorizationexpectfromhostif-modified-sinceif-matchif-none-match"
    "if-rangeif-unmodifiedsincemax-forwardsproxy-authorizationrangerefererteuser-agent100101200201202203204205206300301302303304305306307400401402403404"
    "405406407408409410411412413414415416417500501502503504505accept-rangesageetaglocationproxy-authenticatepublicretry-afterservervarywarningwww-authentic"
    "ateallowcontent-basecontent-encodingcache-controlconnectiondatetrailertransfer-encodingupgradeviawarningcontent-languagecontent-lengthcontent-location"
    "content-md5content-rangecontent-typeetagexpireslast-modifiedset-cookieMondayTuesdayWednesdayThursdayFridaySaturdaySundayJanFebMarAprMayJunJulAugSep"
    "OctNovDecchunkedtext/htmlimage/pngimage/jpgimage/gifapplication/xmlapplication/xhtmltext/plainpublicmax-agecharset=iso-8859-1utf-8gzipdeflateHTTP/1.1"
    "statusversionurl";
struct Deflater {
    z_stream z; bool first = true;
    Deflater(int level = 9) { memset(&z, 0, sizeof z); deflateInit(&z, level); deflateSetDictionary(&z, (const Bytef *)DICT, sizeof DICT); }
    ~Deflater() { deflateEnd(&z); }
    std::string operator()(const std::string &in) {
        std::string out; char b[4096]; z.next_in = (Bytef *)in.data(); z.avail_in = (uInt)in.size();
        do { z.next_out = (Bytef *)b; z.avail_out = sizeof b; deflate(&z, Z_SYNC_FLUSH); out.append(b, sizeof b - z.avail_out); } while (z.avail_out == 0);
        return out;
    }
};
// memory of exactly the packet's size: a guard page behind it (zlib is not instrumented), poison before it
struct Arena {
    char *base, *guard; size_t size; const char *ptr = 0;
    Arena() { size = 1u << 18; base = (char *)mmap(0, size + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); guard = base + size; mprotect(guard, 4096, PROT_NONE); }
    const char *put(const std::string &s) { char *p = guard - s.size(); memset(p - 4096, 0xEE, 4096); if (!s.empty()) memcpy(p, s.data(), s.size()); return p; }
};
Arena &arena() { static Arena a[8]; return a[sim::self() & 7]; }
std::string be(uint32_t v, int n) { std::string s; for (int i = n - 1; i >= 0; --i) s += (char)(v >> (8 * i)); return s; }
std::string hex(const std::string &s, size_t max = 400) { std::string o; char b[3]; for (unsigned char c : s) { if (o.size() > max) { o += ".."; break; } snprintf(b, 3, "%02x", c); o += b; } return o; }
std::string word(int lo, int hi) { static const char *a = "abcdefghijklmnopqrstuvwxyz-/.0123456789"; std::string s; int n = plan_range(lo, hi); for (int i = 0; i < n; ++i) s += a[plan(39)]; return s; }
std::string block(const Headers &h) { std::string s = be((uint32_t)h.size(), 2); for (auto &x : h) s += be((uint32_t)x.first.size(), 2) + x.first + be((uint32_t)x.second.size(), 2) + x.second; return s; }

enum Kind { SYN_STREAM = 1, SYN_REPLY = 2, RST = 3, SETTINGS = 4, NOOP = 5, PING = 6, GOAWAY = 7, HEADERS = 8, WINDOW = 9, CRED = 10, DATA = 0, BAD = 99, GOAWAY_ERR = 98 };
struct Frame { int kind; uint32_t stream; bool fin; Headers h; std::string data, wire; };
struct Host {     // the two ends of one session: their compressors and streams
    Deflater req, rep; std::vector<uint32_t> streams; uint32_t next = 1, push = 2; int level;
    Host(int l) : req(l), rep(l), level(l) {}
    Headers headers(bool big) {
        static const char *n[] = { "host", "method", "url", "version", "scheme", "accept", "accept-encoding", "user-agent", "status", "content-type", "set-cookie", "x" };
        Headers h; int k = plan(12) == 0 ? 0 : plan_range(1, 10);
        for (int i = 0; i < k; ++i) { std::string v; int t = plan(6); if (t == 0) v = ""; else if (t == 1) { int l = plan_range(0, 40); for (int j = 0; j < l; ++j) v += (char)plan(256); } else v = word(0, 30); h[plan(3) ? std::string(n[plan(12)]) : word(0, 12)] = v; }
        if (big) { size_t room = 16300 - block(h).size(); size_t k2 = plan(3) ? plan((uint32_t)room) : room - plan(64); if (k2 > 6) { std::string v; for (size_t j = 0; j < k2 - 6; ++j) v += (char)(plan(4) ? 'a' + (int)(j % 7) : (int)plan(256)); h["zz"] = v; } }
        return h;
    }
    std::string ctl(int type, int flags, const std::string &body, int ver = 2) { return be(0x8000 | ver, 2) + be(type, 2) + be(flags, 1) + be((uint32_t)body.size(), 3) + body; }
    Frame make(int k) {
        Frame f; f.kind = k; f.fin = plan(3) == 0; f.stream = streams.empty() ? 1 : streams[plan((uint32_t)streams.size())]; bool big = plan(16) == 0;
        switch (k) {
        case SYN_STREAM: { bool push_ = plan(5) == 0; f.stream = push_ ? push : next; (push_ ? push : next) += 2 * (1 + (plan(10) == 0 ? plan(400) : f.stream < (1u << 22) && plan(12) == 0 ? plan(1u << 21) : 0)); streams.push_back(f.stream); f.h = headers(big);
            f.wire = ctl(k, (f.fin ? 1 : 0) | (push_ ? 2 : 0), be(f.stream, 4) + be(push_ ? 1 : 0, 4) + be(plan(4) << 14, 2) + (push_ ? rep : req)(block(f.h))); break; }
        case SYN_REPLY: case HEADERS: f.h = headers(big); f.wire = ctl(k, f.fin, be(f.stream, 4) + be(0, 2) + rep(block(f.h))); break;
        case RST: f.wire = ctl(k, 0, be(f.stream, 4) + be(plan(14), 4)); break;
        case SETTINGS: { int n = plan_range(0, 3); std::string b = be(n, 4); for (int i = 0; i < n; ++i) b += be(plan(8), 4) + be(plan(1000), 4); f.wire = ctl(k, plan(2), b); break; }
        case NOOP: f.wire = ctl(k, 0, plan(2) ? "" : be(plan(9), 4)); break;
        case PING: f.wire = ctl(k, 0, be(plan(4) ? 1 + plan(1000) : 0, 4)); break;
        case GOAWAY_ERR: f.wire = ctl(GOAWAY, 0, be(f.stream, 4) + be(plan(2) ? 1 : 11, 4), 3); break;
        case GOAWAY: f.wire = plan(3) ? ctl(k, 0, be(f.stream, 4)) : ctl(k, 0, be(f.stream, 4) + be(2 * plan(2), 4), 3); break;
        case WINDOW: f.wire = ctl(k, 0, be(f.stream, 4) + be(1 + plan(60000), 4)); break;
        case CRED: f.wire = ctl(k, 0, word(0, 30), 3); break;
        case DATA: { int n = plan(5) == 0 ? 0 : plan(4) ? 1 + plan(80) : 1 + plan(5000); for (int i = 0; i < n; ++i) f.data += (char)(plan(3) ? 'a' + i % 26 : (int)plan(256)); f.wire = be(f.stream, 4) + be(f.fin ? 1 : 0, 1) + be(n, 3) + f.data; break; }
        case BAD: { std::string b = be(f.stream, 4) + word(0, 20); switch (plan(3)) { case 0: f.wire = ctl(11 + plan(300), 0, b); break; case 1: f.wire = ctl(1 + plan(2), 0, be(f.stream, 4) + be(0, 6) + word(4, 30), 4 + plan(90)); break; default: f.wire = be(0x11 + plan(100), 1) + b + be(0, 8); } }
        }
        return f;
    }
};
struct Session { Host host; boost::shared_ptr<spdy::decompressor> d; size_t frames = 0; Session() : host(plan(4) ? 9 : (int)plan(9) + 1), d(LIB(new spdy::decompressor)) {} };
const char *KN(int k) { static const char *n[] = { "DATA", "SYN_STREAM", "SYN_REPLY", "RST_STREAM", "SETTINGS", "NOOP", "PING", "GOAWAY", "HEADERS", "WINDOW_UPDATE", "CREDENTIAL" }; return k == BAD ? "BAD" : k == GOAWAY_ERR ? "GOAWAY with an error" : n[k]; }
std::string show(const Headers &h) { std::string s; for (auto &x : h) { s += "["; for (char c : x.first + "=" + x.second) s += c >= 32 && c < 127 ? c : '?'; s += "]"; if (s.size() > 500) return s + "..."; } return s; }

int verdict(boost::tribool t) { return boost::indeterminate(t) ? 2 : t ? 1 : 0; }

// frames packed into packets (a data frame may end outside its packet), several sessions sharing one parser
void p24() {
    std::unique_ptr<spdy::parser> own(LIB(new spdy::parser)); spdy::parser &shared = *own; std::vector<std::unique_ptr<Session> > ss; int n = plan_range(1, 3); for (int i = 0; i < n; ++i) ss.emplace_back(new Session);
    std::vector<std::pair<spdy::http_protocol_info, Frame> > history;
    int packets = plan_range(3, 24);
    for (int p = 0; p < packets; ++p) {
        Session &s = *ss[plan((uint32_t)ss.size())]; std::string w; std::vector<Frame> fs; int k = plan_range(1, plan(3) ? 4 : 12); bool cut = false;
        for (int i = 0; i < k; ++i) {
            static const int pick[] = { SYN_STREAM, SYN_STREAM, SYN_REPLY, SYN_REPLY, SYN_REPLY, DATA, DATA, DATA, DATA, HEADERS, RST, SETTINGS, NOOP, PING, GOAWAY, WINDOW, CRED };
            int kind = pick[plan(17)]; if (plan(25) == 0) kind = plan(4) ? (int)BAD : (int)GOAWAY_ERR; if (i == 0 && s.host.streams.empty() && plan(8)) kind = SYN_STREAM;
            fs.push_back(s.host.make(kind)); w += fs.back().wire; SIM_COUNT("frames");
            if (kind == BAD || kind == GOAWAY_ERR) { SIM_COUNT("fault.refused-frame"); break; }         // (a refused frame ends the packet)
            if (kind == DATA && plan(6) == 0 && !fs.back().data.empty()) { w.resize(w.size() - 1 - plan((uint32_t)fs.back().data.size())); cut = true; SIM_COUNT("fault.split-frame"); break; }
        }
        const char *base = arena().put(w), *at = base; uint32_t left = (uint32_t)w.size();
        log("packet of %zu bytes, %zu frames%s", w.size(), fs.size(), cut ? ", last one cut" : "");
        for (size_t i = 0; i < fs.size(); ++i) {
            const Frame &f = fs[i]; bool last = i + 1 == fs.size(); spdy::http_protocol_info info; boost::system::error_code ec; ++*counter("evals"); ++s.frames;
            if (last && cut && left < 8) break;
            boost::tribool rc = boost::indeterminate; const char *start = at; 
            try { rc = LIB(shared.parse(info, ec, s.d, at, left, (uint32_t)s.host.streams.size())); }
            catch (std::exception &e) { violation("exception", "parse() threw %s on a %s frame", e.what(), KN(f.kind)); }
            int v = verdict(rc);
            if (f.kind == BAD || f.kind == GOAWAY_ERR) { CHECK(v == 0 && ec, "wrong-verdict", "an invalid or failing frame got verdict %d: %s", v, hex(f.wire).c_str()); SIM_PROBE("refused"); break; }
            CHECK(v == (last ? 1 : 2) && !ec, "wrong-verdict", "verdict %d (error %d) for %s frame %zu of %zu in its packet (session frame %zu): %s", v, ec.value(), KN(f.kind), i + 1, fs.size(), s.frames, hex(f.wire).c_str());
            int want = f.kind == SYN_STREAM ? HTTP_REQUEST : f.kind == SYN_REPLY ? HTTP_RESPONSE : f.kind == DATA ? HTTP_DATA : f.kind == HEADERS || f.kind == NOOP ? NON_SPDY : SPDY_CONTROL;
            CHECK((int)info.http_type == want, "wrong-frame", "%s frame reported as type %u", KN(f.kind), info.http_type);
            if (f.kind == SYN_STREAM || f.kind == SYN_REPLY || f.kind == HEADERS || f.kind == DATA) CHECK(info.stream_id == f.stream, "wrong-frame", "%s frame of stream %u reported for stream %u", KN(f.kind), f.stream, info.stream_id);
            CHECK(info.data_offset == 8 && info.data_size == f.wire.size() - 8, "wrong-frame", "%s frame with %zu bytes reported with offset %u size %u", KN(f.kind), f.wire.size() - 8, info.data_offset, info.data_size);
            CHECK(info.http_headers == f.h, "wrong-headers", "%s frame %zu of the session decoded to %s, sent %s", KN(f.kind), s.frames, show(info.http_headers).c_str(), show(f.h).c_str());
            if (f.kind == DATA) {
                CHECK(info.last_chunk == f.fin, "wrong-frame", "data frame with final flag %d reported as %d", f.fin, info.last_chunk);
                const char *c = shared.get_spdy_data_content(); size_t have = std::min<size_t>(f.data.size(), (size_t)(base + w.size() - (start + 8)));
                CHECK(c == start + 8 && std::string(c, have) == f.data.substr(0, have), "wrong-frame", "data content is not at the data of the frame");
            } else CHECK(!info.last_chunk, "wrong-frame", "%s frame reported as the last data", KN(f.kind));
            if (!last) { at = shared.get_spdy_read_pointer(); CHECK(at == start + f.wire.size() && left == (uint32_t)(base + w.size() - at), "wrong-frame", "after a %s frame of %zu bytes the next one is looked for at %zd with %u bytes left of %zu", KN(f.kind), f.wire.size(), at - start, left, (size_t)(base + w.size() - start)); }
            if (f.kind != BAD) CHECK(spdy::parser::get_spdy_frame_type(start) == (f.kind == DATA ? spdy::spdy_data_frame : spdy::spdy_control_frame) && spdy::parser::is_spdy_control_frame(start) == (f.kind != DATA), "wrong-frame", "frame type helpers are wrong for a %s frame", KN(f.kind));
            if (f.kind == SYN_STREAM || f.kind == SYN_REPLY) CHECK(spdy::parser::get_control_frame_stream_id(start) == f.stream, "wrong-frame", "get_control_frame_stream_id() is wrong");
            if (history.size() < 40) history.push_back(std::make_pair(info, f));
        }
    }
    for (auto &x : history) CHECK(x.first.http_headers == x.second.h, "wrong-headers", "headers decoded earlier changed");
}

std::string deflate_any(Deflater &d, const std::string &raw) { return d(raw); }
bool reference(const std::string &raw, Headers &h) {
    if (raw.size() < 2) return false; size_t p = 2; unsigned n = (unsigned char)raw[0] * 256u + (unsigned char)raw[1];
    auto get = [&](std::string &o) { if (raw.size() - p < 2) return false; size_t l = (unsigned char)raw[p] * 256u + (unsigned char)raw[p + 1]; p += 2; if (raw.size() - p < l) return false; o = raw.substr(p, l); p += l; return true; };
    for (unsigned i = 0; i < n; ++i) { std::string a, b; if (!get(a) || !get(b)) return false; h.insert(std::make_pair(a, b)); }
    return true;
}
void good_session(spdy::parser &ps) {
    Session s; 
    for (int i = 0; i < 3; ++i) {
        Frame f = s.host.make(i == 0 ? SYN_STREAM : i == 1 ? SYN_REPLY : DATA); const char *b = arena().put(f.wire); uint32_t left = (uint32_t)f.wire.size(); spdy::http_protocol_info info; boost::system::error_code ec;
        int v = verdict(ps.parse(info, ec, s.d, b, left, 1));
        CHECK(v == 1 && !ec && info.http_headers == f.h, "unusable-after-damage", "after damaged packets a new session's %s frame gets verdict %d (error %d), headers %s instead of %s", KN(f.kind), v, ec.value(), show(info.http_headers).c_str(), show(f.h).c_str());
    }
    ++*counter("evals");
}
void p25() {
    spdy::parser ps; std::unique_ptr<Session> s(new Session); int packets = plan_range(4, 16);
    for (int p = 0; p < packets; ++p) {
        if (plan(6) == 0) s.reset(new Session);
        std::string w; int kind = plan(5); bool exact = false; Headers want; bool ok = false; ++*counter("evals");
        if (kind == 0) {        // a header block that lies about its contents
            s.reset(new Session); std::string raw = plan(3) ? block(s->host.headers(false)) : ""; exact = true;
            if (plan(2)) { Session warm; Frame f = s->host.make(SYN_STREAM); const char *b = arena().put(f.wire); uint32_t l = (uint32_t)f.wire.size(); spdy::http_protocol_info i; boost::system::error_code e; ps.parse(i, e, s->d, b, l, 1); }     // leaves old bytes in the buffer
            for (int i = plan_range(0, 3); i > 0 && !raw.empty(); --i) { size_t q = plan((uint32_t)raw.size()); switch (plan(4)) { case 0: raw[q] = (char)(plan(2) ? 0xff : plan(256)); break; case 1: raw.resize(q); break; case 2: raw[plan(2) % raw.size()] = (char)plan(256); break; default: raw.erase(q, 1); } }
            if (raw.empty() && plan(2)) raw = be(plan(4), 1 + plan(3));
            ok = reference(raw, want); bool reply = plan(2); std::string c = (reply ? s->host.rep : s->host.req)(raw);
            if (reply) w = s->host.ctl(plan(2) ? 2 : 8, 0, be(1, 4) + be(0, 2) + c); else w = s->host.ctl(1, 0, be(1, 4) + be(0, 6) + c);
            SIM_COUNT("fault.lying-header-block");
        } else if (kind == 1) { // truncated
            int k = plan_range(1, 3); for (int i = 0; i < k; ++i) w += s->host.make((int)plan(11)).wire; w.resize(plan((uint32_t)w.size())); SIM_COUNT("fault.truncation");
        } else if (kind == 2) { // corrupted
            int k = plan_range(1, 3); for (int i = 0; i < k; ++i) w += s->host.make((int)plan(11)).wire;
            for (int i = plan_range(1, 6); i > 0; --i) { size_t q = plan(3) ? plan((uint32_t)std::min<size_t>(w.size(), 24)) : plan((uint32_t)w.size()); if (plan(2)) w[q] = (char)(plan(2) ? plan(256) : plan(12)); else w[q] ^= (char)(1 << plan(8)); } SIM_COUNT("fault.corruption");
        } else if (kind == 3) { // a lying frame length
            Frame f = s->host.make((int)plan(11)); w = f.wire; uint32_t len = plan(3) ? plan(20) : plan(1u << 24); w.replace(5, 3, be(len, 3)); if (len < w.size() - 8 && plan(2)) w.resize(8 + len); else if (plan(2)) w += s->host.make((int)plan(11)).wire; SIM_COUNT("fault.lying-length");
        } else {                // hostile: tiny packets, a bomb, noise
            int k = plan(3); if (k == 0) { int l = plan_range(0, 16); for (int i = 0; i < l; ++i) w += (char)(plan(3) ? (i == 0 ? (plan(2) ? 0x80 : 0) : (int)plan(12)) : (int)plan(256)); }
            else if (k == 1) { Deflater &d = plan(2) ? s->host.req : s->host.rep; std::string raw = be(1, 2) + be(1, 2) + "a" + be(65535, 2) + std::string(16000 + plan(60000), 'b'); w = s->host.ctl(&d == &s->host.req ? 1 : 2, 0, be(1, 4) + be(0, &d == &s->host.req ? 6 : 2) + d(raw)); SIM_COUNT("fault.bomb"); }
            else { std::string noise; int l = plan_range(0, 60); for (int i = 0; i < l; ++i) noise += (char)plan(256); int t = (int)plan(2); w = s->host.ctl(1 + t, 0, be(1 + plan(3), 4) + be(0, t ? 2 : 6) + noise); }
        }
        if (w.size() > 100000) w.resize(100000);
        const char *b = arena().put(w), *at = b; uint32_t left = (uint32_t)w.size(); log("damaged packet kind %d of %zu bytes", kind, w.size());
        for (int guard = 0; ; ++guard) {
            CHECK(guard < 20000, "no-end", "parsing a packet of %zu bytes does not end", w.size());
            spdy::http_protocol_info info; boost::system::error_code ec; boost::tribool rc = boost::indeterminate; uint32_t before = left; const char *start = at;
            try { rc = ps.parse(info, ec, s->d, at, left, 1); } catch (std::exception &e) { violation("exception", "parse() threw %s on %s", e.what(), hex(w).c_str()); }
            int v = verdict(rc); size_t total = 0; for (auto &x : info.http_headers) total += x.first.size() + x.second.size();
            CHECK(total <= 16384, "invented-headers", "%zu bytes of headers decoded", total);
            CHECK((v == 0) == (bool)ec, "wrong-verdict", "verdict %d with error code %d on %s", v, ec.value(), hex(w).c_str());
            if (exact && guard == 0) {
                if (!ok) CHECK(v == 0, "invented-headers", "a header block that ends early was decoded to %s", show(info.http_headers).c_str());
                else CHECK(v != 0 && info.http_headers == want, "wrong-headers", "verdict %d, headers %s, sent %s", v, show(info.http_headers).c_str(), show(want).c_str());
            }
            if (v != 0) { const char *c = ps.get_spdy_data_content(), *r = ps.get_spdy_read_pointer(); if (before >= 8) CHECK(c >= b && c <= b + w.size(), "outside-packet", "data content pointer %zd outside a packet of %zu bytes: %s", c - b, w.size(), hex(w).c_str()); CHECK(r >= b && r <= b + w.size(), "outside-packet", "read pointer %zd outside a packet of %zu bytes: %s", r - b, w.size(), hex(w).c_str()); }
            if (v != 2) break;
            at = ps.get_spdy_read_pointer();
            if (at == start) { CHECK(left == before && left < 8, "no-progress", "no progress with %u of %u bytes left: %s", left, before, hex(w).c_str()); break; }      // the rest of the frame is in the next packet
            CHECK(at > start && left == (uint32_t)(b + w.size() - at), "outside-packet", "next frame looked for at %zd with %u bytes left in a packet of %zu: %s", at - b, left, w.size(), hex(w).c_str());
        }
        if (plan(4) == 0) good_session(ps);
    }
    good_session(ps);
}
}
#ifndef SIM_LITE
void spdy_task() { p24(); }       // (see multi.cpp)
#else
void harness_run() { quiet_logging(); std::string p = property(); if (p == "P24") p24(); else p25(); }
#endif
