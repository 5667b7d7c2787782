#include "fs.hpp"
#include "sim.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/statfs.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#ifdef st_mtime
#endif
namespace simfs {
Cfg cfg; std::vector<Access> accesses;
namespace {
struct Node { bool dir = false; std::string data; int64_t mtime = 0, btime = 0; int mode = 0644; uint64_t ino = 0; std::map<std::string, std::shared_ptr<Node>> kids; };
typedef std::shared_ptr<Node> NP;
NP root; std::string cwd; bool on = false; uint64_t next_ino = 1, nops = 0;
struct Open { NP n; int64_t pos = 0; bool rd = false, wr = false, app = false; bool used = false; std::string path; };
const int FD0 = 1 << 20; std::vector<Open> fds;
struct FakeFile { uint64_t magic; int fd; };
struct FakeDir { uint64_t magic; int fd; std::vector<std::pair<std::string, NP>> ents; size_t i; struct dirent64 de; struct dirent de32; };
const uint64_t FM = 0x51f11e51f11eull, DM = 0x51d1451d145ull;
std::map<void *, FakeFile *> files; std::map<void *, FakeDir *> dirs;
int live_h = 0;
struct Q { sim::Quiet q; };
std::vector<std::string> split(const std::string &p) {
    std::vector<std::string> r; size_t i = 0;
    while (i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); if (j > i) r.push_back(p.substr(i, j - i)); i = j + 1; }
    return r;
}
/// walks; returns node or null with errno; res = canonical absolute path; parent/leaf for creation
NP walk(const char *path, std::string &res, NP *parent = 0, std::string *leaf = 0) {
    std::string p = path; if (p.empty()) { errno = ENOENT; return NP(); }
    bool trailing = p.size() > 1 && p.back() == '/';
    std::vector<std::string> comps; if (p[0] != '/') { comps = split(cwd); } auto more = split(p); comps.insert(comps.end(), more.begin(), more.end());
    std::vector<std::pair<std::string, NP>> st; st.push_back(std::make_pair("", root));
    res = "/";
    for (size_t i = 0; i < comps.size(); ++i) {
        NP cur = st.back().second; bool last = i + 1 == comps.size();
        if (!cur->dir) { errno = ENOTDIR; goto fail; }
        if (comps[i] == ".") continue;
        if (comps[i] == "..") { if (st.size() > 1) st.pop_back(); continue; }
        if (comps[i].size() > 255) { errno = ENAMETOOLONG; goto fail; }
        auto k = cur->kids.find(comps[i]);
        if (k == cur->kids.end()) {
            res.clear(); for (size_t j = 1; j < st.size(); ++j) res += "/" + st[j].first; res += "/" + comps[i];
            for (size_t j = i + 1; j < comps.size(); ++j) res += "/" + comps[j];
            if (last && parent) { *parent = cur; *leaf = comps[i]; }
            errno = ENOENT; return NP();
        }
        st.push_back(std::make_pair(comps[i], k->second));
    }
    if (trailing && !st.back().second->dir) { errno = ENOTDIR; goto fail; }
    res.clear(); for (size_t j = 1; j < st.size(); ++j) res += "/" + st[j].first; if (res.empty()) res = "/";
    if (parent) { *parent = st.size() > 1 ? st[st.size() - 2].second : NP(); *leaf = st.back().first; }
    return st.back().second;
fail:
    res.clear(); for (size_t j = 1; j < st.size(); ++j) res += "/" + st[j].first; return NP();
}
void rec(Kind k, const std::string &p, bool ok) { accesses.push_back(Access{k, p, ok, sim::self()}); if (k != STAT) sim::log("fs %d %s %s", (int)k, p.c_str(), ok ? "ok" : "refused"); }
uint64_t nfaults = 0;
bool flt(const char *kind, int n) { if (n > 0 && sim::fault(kind, (uint32_t)n, 1000)) { ++nfaults; return true; } return false; }
uint64_t used_bytes(const NP &n) { uint64_t t = n->data.size(); for (auto &k : n->kids) t += used_bytes(k.second); return t; }
void point(unsigned k) { ++nops; sim::sync_point(1100 + k); }
int alloc_fd(const Open &o) { for (size_t i = 0; i < fds.size(); ++i) if (!fds[i].used) { fds[i] = o; fds[i].used = true; return FD0 + (int)i; } fds.push_back(o); fds.back().used = true; return FD0 + (int)fds.size() - 1; }
Open *of(int fd) { if (fd < FD0 || (size_t)(fd - FD0) >= fds.size() || !fds[fd - FD0].used) return 0; return &fds[fd - FD0]; }
int vopen(const char *path, int flags) {
    point(1); Q q;
    std::string res, leaf; NP par; NP n = walk(path, res, &par, &leaf); int e = errno;
    bool wr = (flags & O_ACCMODE) != O_RDONLY, rd = (flags & O_ACCMODE) != O_WRONLY; bool dirreq = flags & O_DIRECTORY;
    Kind k = wr ? OPEN_W : dirreq || (n && n->dir) ? LIST : OPEN_R;
    if ((n || par) && flt("file-open-error", cfg.open_err)) { rec(k, res, false); errno = sim::choose(sim::FAULT, 2) ? EMFILE : EACCES; return -1; }
    if (n && (flags & O_CREAT) && (flags & O_EXCL)) { rec(k, res, false); errno = EEXIST; return -1; }
    if (!n) {
        if (!(flags & O_CREAT) || e != ENOENT || !par) { rec(k, res, false); errno = e; return -1; }
        n = std::make_shared<Node>(); n->ino = ++next_ino; n->mtime = sim::wall(); par->kids[leaf] = n; par->mtime = sim::wall();
    } else {
        if (n->dir && wr) { rec(k, res, false); errno = EISDIR; return -1; }
        if (dirreq && !n->dir) { rec(k, res, false); errno = ENOTDIR; return -1; }
        if ((rd && !(n->mode & 0400)) || (wr && !(n->mode & 0200))) { rec(k, res, false); errno = EACCES; return -1; }
        if (wr && (flags & O_TRUNC)) { n->data.clear(); n->mtime = sim::wall(); }
    }
    rec(k, res, true);
    Open o; o.n = n; o.rd = rd; o.wr = wr; o.app = flags & O_APPEND; o.path = res; ++live_h;
    return alloc_fd(o);
}
int vclose(int fd) { point(2); Q q; Open *o = of(fd); o->used = false; bool w = o->wr; o->n.reset(); --live_h; if (w && flt("file-close-error", cfg.close_err)) { errno = EIO; return -1; } return 0; }
ssize_t vread(int fd, void *buf, size_t len) {
    point(3); Q q; Open *o = of(fd);
    if (!o->rd) { errno = EBADF; return -1; } if (o->n->dir) { errno = EISDIR; return -1; }
    if (flt("file-read-error", cfg.read_err)) { errno = EIO; return -1; }
    int64_t sz = (int64_t)o->n->data.size(); if (o->pos >= sz || !len) return 0;
    size_t n = std::min<size_t>(len, (size_t)(sz - o->pos));
    if (n > 1 && flt("file-short-read", cfg.read_short)) n = 1 + sim::choose(sim::FAULT, (uint32_t)n - 1);
    sim::check_range(buf, n, true, "read() into"); std::memcpy(buf, o->n->data.data() + o->pos, n); o->pos += (int64_t)n; return (ssize_t)n;
}
ssize_t vwrite(int fd, const void *buf, size_t len) {
    point(4); Q q; Open *o = of(fd); if (!o->wr) { errno = EBADF; return -1; } if (!len) return 0;
    if (flt("file-write-error", cfg.write_err)) { errno = sim::choose(sim::FAULT, 2) ? EIO : ENOSPC; return -1; }
    size_t n = len; uint64_t used = cfg.capacity == ~0ull ? 0 : used_bytes(root);
    if (cfg.capacity != ~0ull && used + n > cfg.capacity) { n = used >= cfg.capacity ? 0 : (size_t)(cfg.capacity - used); if (!n) { SIM_COUNT("fault.disk-full"); ++nfaults; errno = ENOSPC; return -1; } }
    if (n > 1 && flt("file-short-write", cfg.write_short)) n = 1 + sim::choose(sim::FAULT, (uint32_t)n - 1);
    if (o->app) o->pos = (int64_t)o->n->data.size();
    if ((size_t)o->pos + n > o->n->data.size()) o->n->data.resize((size_t)o->pos + n);
    sim::check_range(buf, n, false, "write() from"); std::memcpy(&o->n->data[(size_t)o->pos], buf, n); o->pos += (int64_t)n; o->n->mtime = sim::wall(); return (ssize_t)n;
}
int64_t vseek(int fd, int64_t off, int wh) { Q q; Open *o = of(fd); int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : (int64_t)o->n->data.size(); if (b + off < 0) { errno = EINVAL; return -1; } return o->pos = b + off; }
template <class S> void fill(const Node &n, S *s) {
    std::memset(s, 0, sizeof *s); s->st_mode = (n.dir ? S_IFDIR | 0755 : S_IFREG | n.mode); s->st_size = (off_t)n.data.size(); s->st_nlink = 1; s->st_ino = n.ino; s->st_dev = 77; s->st_blksize = 4096; s->st_blocks = ((off_t)n.data.size() + 511) / 512;
    s->st_mtim.tv_sec = n.mtime / 1000000; s->st_mtim.tv_nsec = n.mtime % 1000000 * 1000; s->st_ctim = s->st_atim = s->st_mtim;
}
void fillx(const Node &n, struct statx *s) {
    std::memset(s, 0, sizeof *s); s->stx_mask = STATX_BASIC_STATS; s->stx_mode = (uint16_t)(n.dir ? S_IFDIR | 0755 : S_IFREG | n.mode); s->stx_size = n.data.size(); s->stx_nlink = 1; s->stx_ino = n.ino; s->stx_dev_major = 7; s->stx_blksize = 4096;
    s->stx_mtime.tv_sec = n.mtime / 1000000; s->stx_mtime.tv_nsec = (uint32_t)(n.mtime % 1000000 * 1000); s->stx_ctime = s->stx_atime = s->stx_btime = s->stx_mtime;
}
NP vstat(const char *path) { point(5); Q q; std::string res; NP n = walk(path, res); int e = errno; rec(STAT, res, (bool)n); if (n && flt("file-stat-error", cfg.stat_err)) { errno = EIO; return NP(); } errno = e; return n; }
int vunlink(const char *path, int what) {   // what: 0 file only, 1 dir only, 2 either
    point(6); Q q; std::string res, leaf; NP par; NP n = walk(path, res, &par, &leaf); int e = errno;
    if (!n) { rec(UNLINK, res, false); errno = e; return -1; }
    if (n->dir && what == 0) { rec(UNLINK, res, false); errno = EISDIR; return -1; } if (!n->dir && what == 1) { rec(UNLINK, res, false); errno = ENOTDIR; return -1; }
    if (n->dir && !n->kids.empty()) { rec(UNLINK, res, false); errno = ENOTEMPTY; return -1; } if (!par) { errno = EBUSY; return -1; }
    if (flt("file-unlink-error", cfg.unlink_err)) { rec(UNLINK, res, false); errno = EACCES; return -1; }
    rec(UNLINK, res, true); par->kids.erase(leaf); return 0;
}
bool mode_flags(const char *m, int &f) {
    switch (m[0]) { case 'r': f = O_RDONLY; break; case 'w': f = O_WRONLY | O_CREAT | O_TRUNC; break; case 'a': f = O_WRONLY | O_CREAT | O_APPEND; break; default: return false; }
    if (std::strchr(m, '+')) f = (f & ~O_ACCMODE) | O_RDWR; if (std::strchr(m, 'x')) f |= O_EXCL; return true;
}
FILE *wrap(int fd) { if (fd < 0) return 0; Q q; FakeFile *f = new FakeFile(); f->magic = FM; f->fd = fd; files[f] = f; return (FILE *)f; }
FakeFile *ff(void *p) { if (!on) return 0; Q q; auto i = files.find(p); return i == files.end() ? 0 : i->second; }
FakeDir *fdd(void *p) { if (!on) return 0; Q q; auto i = dirs.find(p); return i == dirs.end() ? 0 : i->second; }
DIR *mkdirp(int fd) { Q q; Open *o = of(fd); if (!o || !o->n->dir) { errno = ENOTDIR; return 0; } FakeDir *d = new FakeDir(); d->magic = DM; d->fd = fd; d->i = 0; d->ents.push_back(std::make_pair(".", o->n)); d->ents.push_back(std::make_pair("..", root)); for (auto &k : o->n->kids) d->ents.push_back(std::make_pair(k.first, k.second)); dirs[d] = d; return (DIR *)d; }
template <class F> F *real(const char *n) { return (F *)dlsym(RTLD_NEXT, n); }
}
void enable(const char *c) { Q q; root = std::make_shared<Node>(); root->dir = true; root->ino = 1; cwd = c; on = true; mkdirs(c); }
void mkdirs(const std::string &p) { Q q; NP cur = root; for (auto &c : split(p)) { NP &k = cur->kids[c]; if (!k) { k = std::make_shared<Node>(); k->dir = true; k->ino = ++next_ino; k->mtime = sim::wall(); } cur = k; } }
void put(const std::string &p, const std::string &d) { Q q; size_t s = p.rfind('/'); mkdirs(p.substr(0, s)); std::string r, leaf; NP par; NP n = walk(p.c_str(), r, &par, &leaf); if (!n) { n = std::make_shared<Node>(); n->ino = ++next_ino; par->kids[leaf] = n; } n->data = d; n->mtime = sim::wall(); }
bool exists(const std::string &p) { Q q; std::string r; return (bool)walk(p.c_str(), r); }
bool is_dir(const std::string &p) { Q q; std::string r; NP n = walk(p.c_str(), r); return n && n->dir; }
const std::string *data(const std::string &p) { Q q; std::string r; NP n = walk(p.c_str(), r); return n && !n->dir ? &n->data : 0; }
void erase(const std::string &p) { Q q; std::string r, leaf; NP par; NP n = walk(p.c_str(), r, &par, &leaf); if (n && par) par->kids.erase(leaf); }
void replace(const std::string &p, const std::string &d) { Q q; erase(p); put(p, d); }
void truncate_to(const std::string &p, size_t l) { Q q; std::string r; NP n = walk(p.c_str(), r); if (n && !n->dir && n->data.size() > l) { n->data.resize(l); n->mtime = sim::wall(); } }
int64_t mtime(const std::string &p) { Q q; std::string r; NP n = walk(p.c_str(), r); return n ? n->mtime : 0; }
uint64_t faults_fired() { return nfaults; }
void set_mode(const std::string &p, int m) { Q q; std::string r; NP n = walk(p.c_str(), r); if (n) n->mode = m; }
static void coll(const NP &n, const std::string &p, std::vector<std::string> &v) { for (auto &k : n->kids) { if (k.second->dir) coll(k.second, p + "/" + k.first, v); else v.push_back(p + "/" + k.first); } }
std::vector<std::string> all_files() { Q q; std::vector<std::string> v; coll(root, "", v); return v; }
int open_handles() { return live_h; }
uint64_t ops() { return nops; }
}
using namespace simfs;
#define VFD(fd) (on && (fd) >= FD0 && of(fd))
extern "C" {
int open(const char *p, int fl, ...) { if (on) return vopen(p, fl); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { if (on) return vopen(p, fl); va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return (int)syscall(SYS_openat, AT_FDCWD, p, fl, m); }
static std::string atpath(int d, const char *p) { if (p[0] == '/' || d == AT_FDCWD) return p; Open *o = of(d); return o ? o->path + "/" + p : std::string(p); }
int openat(int d, const char *p, int fl, ...) { if (on) { std::string s = atpath(d, p); return vopen(s.c_str(), fl); } va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return (int)syscall(SYS_openat, d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { if (on) { std::string s = atpath(d, p); return vopen(s.c_str(), fl); } va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return (int)syscall(SYS_openat, d, p, fl, m); }
int __openat64_2(int d, const char *p, int fl) { return openat64(d, p, fl, 0); }
int __open64_2(const char *p, int fl) { return open64(p, fl, 0); }
int creat(const char *p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
int close(int fd) { if (VFD(fd)) return vclose(fd); return (int)syscall(SYS_close, fd); }
ssize_t read(int fd, void *b, size_t n) { if (VFD(fd)) return vread(fd, b, n); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (VFD(fd)) return vwrite(fd, b, n); return syscall(SYS_write, fd, b, n); }
ssize_t writev(int fd, const struct iovec *v, int c) {
    if (!VFD(fd)) return syscall(SYS_writev, fd, v, c);
    ssize_t t = 0; for (int i = 0; i < c; ++i) { if (!v[i].iov_len) continue; ssize_t r = vwrite(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t;
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (VFD(fd)) { int64_t s = of(fd)->pos; of(fd)->pos = o; ssize_t r = vread(fd, b, n); of(fd)->pos = s; return r; } return syscall(SYS_pread64, fd, b, n, o); }
off_t lseek(int fd, off_t o, int w) noexcept { if (VFD(fd)) return vseek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
FILE *fopen(const char *p, const char *m) { if (on) { int f; if (!mode_flags(m, f)) { errno = EINVAL; return 0; } return wrap(vopen(p, f)); } return real<FILE *(const char *, const char *)>("fopen")(p, m); }
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }
int fclose(FILE *f) { if (FakeFile *x = ff(f)) { int r = vclose(x->fd); Q q; files.erase(f); delete x; return r; } return real<int(FILE *)>("fclose")(f); }
int fileno(FILE *f) noexcept { if (FakeFile *x = ff(f)) return x->fd; return real<int(FILE *)>("fileno")(f); }
int fflush(FILE *f) { if (f && ff(f)) return 0; return real<int(FILE *)>("fflush")(f); }
size_t fread(void *b, size_t s, size_t n, FILE *f) { if (FakeFile *x = ff(f)) { size_t want = s * n, got = 0; while (got < want) { ssize_t r = vread(x->fd, (char *)b + got, want - got); if (r <= 0) break; got += (size_t)r; } return s ? got / s : 0; } return real<size_t(void *, size_t, size_t, FILE *)>("fread")(b, s, n, f); }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) { if (FakeFile *x = ff(f)) { size_t want = s * n, got = 0; while (got < want) { ssize_t r = vwrite(x->fd, (const char *)b + got, want - got); if (r <= 0) break; got += (size_t)r; } return s ? got / s : 0; } return real<size_t(const void *, size_t, size_t, FILE *)>("fwrite")(b, s, n, f); }
int fstat(int fd, struct stat *s) noexcept { if (VFD(fd)) { Q q; fill(*of(fd)->n, s); return 0; } return (int)syscall(SYS_fstat, fd, s); }
int fstat64(int fd, struct stat64 *s) noexcept { return fstat(fd, (struct stat *)s); }
int stat(const char *p, struct stat *s) noexcept { if (on) { NP n = vstat(p); if (!n) return -1; Q q; fill(*n, s); return 0; } return (int)syscall(SYS_stat, p, s); }
int stat64(const char *p, struct stat64 *s) noexcept { return stat(p, (struct stat *)s); }
int lstat(const char *p, struct stat *s) noexcept { if (on) return stat(p, s); return (int)syscall(SYS_lstat, p, s); }
int lstat64(const char *p, struct stat64 *s) noexcept { return lstat(p, (struct stat *)s); }
int fstatat(int d, const char *p, struct stat *s, int fl) noexcept { if (on) { std::string a = atpath(d, p); return stat(a.c_str(), s); } return (int)syscall(SYS_newfstatat, d, p, s, fl); }
int statx(int d, const char *p, int fl, unsigned mask, struct statx *s) noexcept {
    if (on) { if (!*p && VFD(d)) { Q q; fillx(*of(d)->n, s); return 0; } std::string a = atpath(d, p); NP n = vstat(a.c_str()); if (!n) return -1; Q q; fillx(*n, s); return 0; }
    return (int)syscall(SYS_statx, d, p, fl, mask, s);
}
int access(const char *p, int m) noexcept { if (on) { NP n = vstat(p); if (!n) return -1; if (((m & R_OK) && !(n->mode & 0400)) || ((m & W_OK) && !(n->mode & 0200))) { errno = EACCES; return -1; } return 0; } return (int)syscall(SYS_access, p, m); }
int unlink(const char *p) noexcept { if (on) return vunlink(p, 0); return (int)syscall(SYS_unlink, p); }
int rmdir(const char *p) noexcept { if (on) return vunlink(p, 1); return (int)syscall(SYS_rmdir, p); }
int remove(const char *p) noexcept { if (on) return vunlink(p, 2); return real<int(const char *)>("remove")(p); }
int unlinkat(int d, const char *p, int fl) noexcept { if (on) { std::string a = atpath(d, p); return vunlink(a.c_str(), fl & AT_REMOVEDIR ? 1 : 0); } return (int)syscall(SYS_unlinkat, d, p, fl); }
int mkdir(const char *p, mode_t m) noexcept { if (on) { point(7); Q q; std::string r, leaf; NP par; NP n = walk(p, r, &par, &leaf); int e = errno; if (n) { rec(MKDIR, r, false); errno = EEXIST; return -1; } if (e != ENOENT || !par) { rec(MKDIR, r, false); errno = e; return -1; } rec(MKDIR, r, true); mkdirs(r); return 0; } return (int)syscall(SYS_mkdir, p, m); }
int rename(const char *a, const char *b) noexcept {
    if (!on) return (int)syscall(SYS_rename, a, b);
    point(8); Q q; std::string ra, la, rb, lb; NP pa, pb; NP n = walk(a, ra, &pa, &la); if (!n) { rec(RENAME, ra, false); errno = ENOENT; return -1; }
    NP m = walk(b, rb, &pb, &lb); if (!pb) { rec(RENAME, rb, false); errno = ENOENT; return -1; } if (m && m->dir != n->dir) { errno = m->dir ? EISDIR : ENOTDIR; return -1; }
    if (flt("file-rename-error", cfg.unlink_err)) { errno = EIO; return -1; }
    rec(RENAME, ra, true); rec(RENAME, rb, true); pa->kids.erase(la); pb->kids[lb] = n; return 0;
}
int ftruncate(int fd, off_t l) noexcept { if (VFD(fd)) { Q q; of(fd)->n->data.resize((size_t)l); of(fd)->n->mtime = sim::wall(); return 0; } return (int)syscall(SYS_ftruncate, fd, l); }
int ftruncate64(int fd, off64_t l) noexcept { return ftruncate(fd, l); }
int truncate(const char *p, off_t l) noexcept { if (on) { Q q; std::string r; NP n = walk(p, r); rec(TRUNC, r, (bool)n); if (!n || n->dir) { errno = ENOENT; return -1; } n->data.resize((size_t)l); n->mtime = sim::wall(); return 0; } return (int)syscall(SYS_truncate, p, l); }
int truncate64(const char *p, off64_t l) noexcept { return truncate(p, l); }
int fsync(int fd) { if (VFD(fd)) return 0; return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (VFD(fd)) return 0; return (int)syscall(SYS_fdatasync, fd); }
char *getcwd(char *b, size_t n) noexcept { if (on) { if (!b || n < cwd.size() + 1) { errno = ERANGE; return 0; } std::strcpy(b, cwd.c_str()); return b; } long r = syscall(SYS_getcwd, b, n); return r < 0 ? 0 : b; }
ssize_t readlink(const char *p, char *b, size_t n) noexcept { if (on) { NP x = vstat(p); if (x) errno = EINVAL; return -1; } return syscall(SYS_readlink, p, b, n); }
char *realpath(const char *p, char *out) noexcept { if (on) { NP n = vstat(p); if (!n) return 0; Q q; std::string r; walk(p, r); if (!out) out = (char *)malloc(4097); std::strcpy(out, r.c_str()); return out; } return real<char *(const char *, char *)>("realpath")(p, out); }
DIR *fdopendir(int fd) { if (VFD(fd)) return mkdirp(fd); return real<DIR *(int)>("fdopendir")(fd); }
DIR *opendir(const char *p) { if (on) { int fd = vopen(p, O_RDONLY | O_DIRECTORY); return fd < 0 ? 0 : mkdirp(fd); } return real<DIR *(const char *)>("opendir")(p); }
struct dirent64 *readdir64(DIR *d) { if (FakeDir *x = fdd(d)) { if (x->i >= x->ents.size()) return 0; auto &e = x->ents[x->i++]; std::memset(&x->de, 0, sizeof x->de); std::strncpy(x->de.d_name, e.first.c_str(), 255); x->de.d_type = x->i <= 2 ? DT_DIR : e.second->dir ? DT_DIR : DT_REG; x->de.d_ino = x->i; return &x->de; } return real<struct dirent64 *(DIR *)>("readdir64")(d); }
struct dirent *readdir(DIR *d) { if (fdd(d)) return (struct dirent *)readdir64(d); return real<struct dirent *(DIR *)>("readdir")(d); }
int closedir(DIR *d) { if (FakeDir *x = fdd(d)) { int fd = x->fd; { Q q; dirs.erase(d); delete x; } return vclose(fd); } return real<int(DIR *)>("closedir")(d); }
int dirfd(DIR *d) noexcept { if (FakeDir *x = fdd(d)) return x->fd; return real<int(DIR *)>("dirfd")(d); }
int fstatfs64(int fd, struct statfs64 *s) noexcept { if (VFD(fd)) { std::memset(s, 0, sizeof *s); s->f_type = 0xEF53; s->f_bsize = 4096; return 0; } return (int)syscall(SYS_fstatfs, fd, s); }
int poll(struct pollfd *p, nfds_t n, int t) { if (on && n == 1 && VFD(p->fd)) { p->revents = p->events; return 1; } return (int)syscall(SYS_poll, p, n, t); }
int ioctl(int fd, unsigned long r, ...) noexcept { va_list a; va_start(a, r); void *p = va_arg(a, void *); va_end(a); if (VFD(fd)) { if (r == FIONREAD) { Open *o = of(fd); *(int *)p = (int)std::max<int64_t>(0, (int64_t)o->n->data.size() - o->pos); return 0; } errno = ENOTTY; return -1; } return (int)syscall(SYS_ioctl, fd, r, p); }
int posix_fadvise64(int, off64_t, off64_t, int) noexcept { return 0; }
}
