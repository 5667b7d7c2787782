// In-memory file system behind the libc file API, with fault injection and an access record.
#ifndef VERIF_FS_HPP
#define VERIF_FS_HPP
#include <cstdint>
#include <string>
#include <vector>
namespace simfs {
enum Kind { STAT, OPEN_R, OPEN_W, LIST, UNLINK, MKDIR, RENAME, TRUNC };
struct Access { Kind kind; std::string path; bool ok; int fiber; };   // path: absolute, resolved
struct Cfg {      // n in 1000 per operation; 0 = never
    int open_err = 0, read_err = 0, read_short = 0, write_err = 0, write_short = 0, unlink_err = 0, stat_err = 0, close_err = 0;
    bool disk_full_possible = false; uint64_t capacity = ~0ull;   // bytes
};
extern Cfg cfg;
void enable(const char *cwd);
void put(const std::string &path, const std::string &data);   ///< creates parents; sets mtime to the simulated wall clock
void mkdirs(const std::string &path);
bool exists(const std::string &path);
bool is_dir(const std::string &path);
const std::string *data(const std::string &path);             ///< 0 if not a regular file
void erase(const std::string &path);
void replace(const std::string &path, const std::string &data);   ///< as put, but as a new inode (open handles keep the old file)
void truncate_to(const std::string &path, size_t n);          ///< shrinks in place
int64_t mtime(const std::string &path);                       ///< us, 0 if there is none
uint64_t faults_fired();
void set_mode(const std::string &path, int mode);
std::vector<std::string> all_files();
extern std::vector<Access> accesses;
int open_handles();
uint64_t ops();
}
#endif
