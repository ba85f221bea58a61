// Simulated clock and file system. Reached through -Wl,--wrap.
#include "internal.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <algorithm>
#include <map>
#include <memory>
#include <set>

#include <dirent.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <termios.h>

extern "C" {
    int __real_open(const char*, int, ...);
    int __real_openat(int, const char*, int, ...);
    int __real_mkdir(const char*, mode_t);
    int __real_remove(const char*);
    int __real_unlinkat(int, const char*, int);
    int __real_stat(const char*, struct stat*);
    int __real_lstat(const char*, struct stat*);
    DIR* __real_fdopendir(int);
    struct dirent* __real_readdir(DIR*);
    int __real_closedir(DIR*);
    int __real_dirfd(DIR*);
    int __real_close(int);
    ssize_t __real_read(int, void*, size_t);
    ssize_t __real_write(int, const void*, size_t);
    off_t __real_lseek(int, off_t, int);
    int __real_fstat(int, struct stat*);
    int __real_flock(int, int);
    int __real_isatty(int);
    int __real_ioctl(int, unsigned long, ...);
    int __real_futimens(int, const struct timespec*);
    int __real_ftruncate(int, off_t);
    int __real_fsync(int);
    int __real_clock_gettime(clockid_t, struct timespec*);
    int __real_clock_getres(clockid_t, struct timespec*);
    time_t __real_time(time_t*);
    int __real_gettimeofday(struct timeval*, void*);
}

namespace sim {
using namespace internal;

// ---------------------------------------------------------------- clock
namespace {
i64 c_mono, c_real, c_user, c_drift, c_start;
int c_fail;
constexpr i64 giga = 1000000000;
}

void internal::reset_clock()
{
    c_mono = 1000 * giga;
    c_start = c_mono;
    c_real = 1700000000 * giga;
    c_user = 0;
    c_drift = 0;
    c_fail = 0;
}
i64 now_mono() { return c_mono; }
i64 now_real() { return c_real; }
void set_real(i64 ns) { c_real = ns; count("fault.wall_clock_jump"); }
void set_mono(i64 ns) { c_mono = ns; }
void advance(i64 ns)
{
    c_mono += ns;
    c_real += ns;
    c_user += ns;
    if (ns > 0) add_simulated(ns);
}
void set_clock_drift_per_read(i64 ns) { c_drift = ns; }
void set_clock_failure(int err) { c_fail = err; }
void set_cpu_times(i64 ns) { c_user = ns; }

// ---------------------------------------------------------------- file system
namespace fs {
Config config;
std::string cwd;
int last_error = 0;
u64 n_errors = 0;
u64 n_eintr = 0;
u64 n_dir_faults[64] = {};
namespace {

struct Inode {
    std::string data;
    bool dir = false;
    bool stream = false;
    i64 mtime = 0;
    std::size_t stream_pos = 0;
    // flock state: descriptors
    std::set<const void*> sh;
    const void* ex = nullptr;
};
struct Desc {
    std::shared_ptr<Inode> ino;
    std::string path;
    off_t pos = 0;
    int flags = 0;
};
constexpr int fd_base = 500000;

struct State {
    std::map<std::string, std::shared_ptr<Inode>> files;
    std::map<int, std::shared_ptr<Desc>> fds;
    std::map<std::string, int> one_shot;
    int next_fd = fd_base;
    bool remap_std = false;
    u64 calls = 0;
    std::set<const void*> dirs;
};
State* st = nullptr;

struct Quiet { // allocations of the simulator are not faulted
    NoFault nf;
    NoPreempt np;
};

bool is_sim_path(const char* p) { return p && (std::strncmp(p, "/sim/", 5) == 0 || (*p && *p != '/' && !fs::cwd.empty())); }
bool is_sim_fd(int fd) { return g_run_active && (fd >= fd_base || (st && st->remap_std && fd >= 0 && fd <= 2)); }

u64 used()
{
    u64 n = 0;
    for (auto& [p, i] : st->files) n += i->data.size();
    return n;
}

int err(int e, const char* call)
{
    if (e == EINTR) { ++n_eintr; count("fault.eintr"); }
    else { ++n_errors; last_error = e; }
    trace("  sys %s -> errno %d", call, e);
    errno = e;
    return -1;
}

bool one_shot(const char* call, int& e)
{
    auto i = st->one_shot.find(call);
    if (i == st->one_shot.end())
        return false;
    e = i->second;
    st->one_shot.erase(i);
    return true;
}

// 1 in n; choice 0 is "no"
bool hit(u64 n) { return n > 0 && chance(1, std::max<u64>(n, 2)); }

std::shared_ptr<Desc> find(int fd, const char* call)
{
    auto i = st->fds.find(fd);
    if (i == st->fds.end()) {
        if (fd >= fd_base)
            fail("bad-descriptor", "%s() on descriptor %d, which is not open", call, fd - fd_base);
        return nullptr;
    }
    return i->second;
}
void enter(const char* call)
{
    ++st->calls;
    (void)call;
    if (config.yield) yield();
}
} // namespace

void reset()
{
    bool old = g_run_active;
    g_run_active = false;
    delete st;
    st = new State;
    config = Config();
    fs::cwd = std::string();
    last_error = 0;
    n_errors = 0;
    n_eintr = 0;
    for (auto& n : n_dir_faults) n = 0;
    auto root = std::make_shared<Inode>();
    root->dir = true;
    st->files["/sim"] = root;
    g_run_active = old;
}
void put(const std::string& path, std::string contents)
{
    Quiet q;
    auto& i = st->files[path];
    if (!i) i = std::make_shared<Inode>();
    i->data = std::move(contents);
    i->mtime = now_real();
    i->stream_pos = 0;
}
bool exists(const std::string& path) { Quiet q; return st->files.count(path) != 0; }
void remove(const std::string& path) { Quiet q; st->files.erase(path); }
std::string get(const std::string& path)
{
    Quiet q;
    auto i = st->files.find(path);
    return i == st->files.end() ? std::string() : i->second->data;
}
void mkdir(const std::string& path)
{
    Quiet q;
    auto i = std::make_shared<Inode>();
    i->dir = true;
    st->files[path] = i;
}
std::vector<std::string> list()
{
    Quiet q;
    std::vector<std::string> v;
    for (auto& [p, i] : st->files) v.push_back(p);
    return v;
}
bool is_dir(const std::string& path)
{
    auto i = st->files.find(path);
    return i != st->files.end() && i->second->dir;
}
void mkstream(const std::string& path)
{
    Quiet q;
    auto& i = st->files[path];
    if (!i) i = std::make_shared<Inode>();
    i->stream = true;
}
i64 mtime(const std::string& path)
{
    Quiet q;
    auto i = st->files.find(path);
    return i == st->files.end() ? -1 : i->second->mtime;
}
u64 num_open()
{
    u64 n = 0;
    for (auto& e : st->fds) if (e.first >= fd_base) ++n;
    return n;
}
u64 num_open(const std::string& path)
{
    u64 n = 0;
    for (auto& [fd, d] : st->fds) if (d->path == path) ++n;
    return n;
}
std::vector<OpenInfo> list_open()
{
    Quiet q;
    std::vector<OpenInfo> v;
    for (auto& [fd, d] : st->fds) v.push_back({ fd >= fd_base ? fd - fd_base : fd, d->path, d->flags });
    return v;
}
int fail_next(const char* call, int e)
{
    Quiet q;
    st->one_shot[call] = e;
    return e;
}
u64 calls() { return st->calls; }
void remap_std(bool on)
{
    Quiet q;
    st->remap_std = on;
    const char* names[] = { "/sim/stdin", "/sim/stdout", "/sim/stderr" };
    for (int i = 0; i < 3; ++i) {
        st->fds.erase(i);
        if (!on) continue;
        auto& ino = st->files[names[i]];
        if (!ino) ino = std::make_shared<Inode>();
        ino->stream = true;
        auto d = std::make_shared<Desc>();
        d->ino = ino;
        d->path = names[i];
        d->flags = O_RDWR | O_APPEND;
        st->fds[i] = d;
    }
}

namespace {
std::string norm(const char* path);
int sim_open(const char* path, int flags)
{
    Quiet q;
    enter("open");
    int e;
    if (one_shot("open", e)) { count("fault.open_error"); return err(e, "open"); }
    if (hit(config.open_error)) {
        static const int es[] = { EACCES, EMFILE, ENFILE, EIO, ENOMEM, EROFS };
        count("fault.open_error");
        return err(es[choose(6)], "open");
    }
    std::string p = norm(path);
    auto i = st->files.find(p);
    if (i == st->files.end()) {
        if (!(flags & O_CREAT))
            return err(ENOENT, "open");
        std::size_t slash = p.rfind('/');
        std::string parent = p.substr(0, slash);
        if (!st->files.count(parent))
            return err(ENOENT, "open");
        auto ino = std::make_shared<Inode>();
        ino->mtime = now_real();
        i = st->files.emplace(p, ino).first;
    }
    else {
        if ((flags & O_CREAT) && (flags & O_EXCL))
            return err(EEXIST, "open");
        if (i->second->dir && ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT)))
            return err(EISDIR, "open");
        if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) {
            i->second->data.clear();
            i->second->mtime = now_real();
        }
    }
    auto d = std::make_shared<Desc>();
    d->ino = i->second;
    d->path = p;
    d->flags = flags;
    int fd;
    if (config.reuse_fds) {
        fd = fd_base;
        while (st->fds.count(fd)) ++fd;
    }
    else {
        fd = st->next_fd++;
    }
    st->fds[fd] = d;
    trace("  sys open(%s,%s%s%s%s%s) = fd%d", path + 5, (flags & O_ACCMODE) == O_RDONLY ? "r" : "rw", flags & O_CREAT ? ",creat" : "",
          flags & O_EXCL ? ",excl" : "", flags & O_TRUNC ? ",trunc" : "", flags & O_APPEND ? ",append" : "", fd - fd_base);
    return fd;
}
// Directories: paths are lexical ("." and ".." are resolved without looking at symbolic links, of which there are none)
std::string norm(const char* path)
{
    std::vector<std::string> v;
    std::string seg;
    std::string full = *path != '/' && !fs::cwd.empty() ? fs::cwd + "/" + path : path;
    for (const char* c = full.c_str();; ++c) {
        if (*c && *c != '/') { seg += *c; continue; }
        if (seg == "..") {
            std::string t; // What precedes must exist, as in a real file system
            for (auto& x : v) t += "/" + x;
            auto i = v.size() < 2 ? st->files.end() : st->files.find(t);
            if (v.size() >= 2 && (i == st->files.end() || !i->second->dir)) return "/sim/ /missing";
            if (!v.empty()) v.pop_back();
        }
        else if (!seg.empty() && seg != ".") v.push_back(seg);
        seg.clear();
        if (!*c) break;
    }
    std::string s;
    for (auto& x : v) s += "/" + x;
    return s;
}
bool has_children(const std::string& p)
{
    auto i = st->files.upper_bound(p + "/");
    return i != st->files.end() && i->first.compare(0, p.size() + 1, p + "/") == 0;
}
bool dir_fault(const char* call)
{
    enter(call);
    int e;
    if (one_shot(call, e)) { ++n_dir_faults[self() & 63]; count("fault.directory_error"); err(e, call); return true; }
    if (hit(config.dir_error)) {
        static const int es[] = { EACCES, EIO, EROFS, ENOMEM, EBUSY, EPERM };
        ++n_dir_faults[self() & 63];
        count("fault.directory_error");
        err(es[choose(6)], call);
        return true;
    }
    return false;
}
// 1: directory, 0: other, -1: fails
int parent_ok(const std::string& p, const char* call)
{
    auto i = st->files.find(p.substr(0, p.rfind('/')));
    if (i == st->files.end()) return err(ENOENT, call);
    if (!i->second->dir) return err(ENOTDIR, call);
    return 0;
}
int sim_mkdir(const char* path)
{
    Quiet q;
    if (dir_fault("mkdir")) return -1;
    std::string p = norm(path);
    if (parent_ok(p, "mkdir") < 0) return -1;
    if (st->files.count(p)) return err(EEXIST, "mkdir");
    auto ino = std::make_shared<Inode>();
    ino->dir = true;
    st->files[p] = ino;
    trace("  sys mkdir(%s)", p.c_str() + 5);
    return 0;
}
int do_remove(const std::string& p, bool dir, bool file, const char* call)
{
    if (parent_ok(p, call) < 0) return -1;
    auto i = st->files.find(p);
    if (i == st->files.end()) return err(ENOENT, call);
    if (i->second->dir && !dir) return err(EISDIR, call);
    if (!i->second->dir && !file) return err(ENOTDIR, call);
    if (i->second->dir && has_children(p)) return err(ENOTEMPTY, call);
    st->files.erase(i);
    trace("  sys %s(%s)", call, p.c_str() + 5);
    return 0;
}
int sim_remove(const char* path)
{
    Quiet q;
    if (dir_fault("remove")) return -1;
    return do_remove(norm(path), true, true, "remove");
}
int sim_unlinkat(const std::string& p, int flags)
{
    Quiet q;
    if (dir_fault("unlinkat")) return -1;
    bool rmdir = (flags & AT_REMOVEDIR) != 0;
    return do_remove(p, rmdir, !rmdir, "unlinkat");
}
int sim_stat(const char* path, struct stat* b)
{
    Quiet q;
    if (dir_fault("stat")) return -1;
    std::string p = norm(path);
    auto i = st->files.find(p);
    if (i == st->files.end()) return parent_ok(p, "stat") < 0 ? -1 : err(ENOENT, "stat");
    std::memset(b, 0, sizeof *b);
    b->st_mode = i->second->dir ? S_IFDIR | 0755 : i->second->stream ? S_IFIFO | 0644 : S_IFREG | 0644;
    b->st_size = off_t(i->second->data.size());
    b->st_nlink = 1;
    return 0;
}
struct Dir { u64 magic; int fd; std::vector<std::string> names; std::size_t pos = 0; struct dirent ent; };
constexpr u64 dir_magic = 0x5111d125eaf00dULL;
Dir* as_dir(DIR* d) { auto p = reinterpret_cast<Dir*>(d); return g_run_active && st && st->dirs.count(p) ? p : nullptr; }
int sim_close(int fd);
int sim_openat(int fd, const char* name, int flags)
{
    Quiet q;
    std::string p = name;
    if (fd != AT_FDCWD) { auto d = find(fd, "openat"); if (!d) { errno = EBADF; return -1; } p = d->path + "/" + name; }
    p = norm(p.c_str());
    auto i = st->files.find(p);
    if ((flags & O_DIRECTORY) && i != st->files.end() && !i->second->dir) {
        if (dir_fault("openat")) return -1;
        return err(ENOTDIR, "openat");
    }
    if (dir_fault("openat")) return -1;
    return sim_open(p.c_str(), flags);
}
DIR* sim_fdopendir(int fd)
{
    Quiet q;
    if (dir_fault("fdopendir")) return nullptr;
    auto d = find(fd, "fdopendir");
    if (!d || !d->ino->dir) { err(ENOTDIR, "fdopendir"); return nullptr; }
    auto p = new Dir { dir_magic, fd };
    p->names = { ".", ".." };
    std::string pre = d->path + "/";
    for (auto i = st->files.upper_bound(pre); i != st->files.end() && i->first.compare(0, pre.size(), pre) == 0; ++i)
        if (i->first.find('/', pre.size()) == std::string::npos) p->names.push_back(i->first.substr(pre.size()));
    for (std::size_t i = p->names.size(); i > 1; --i) std::swap(p->names[i - 1], p->names[i - 1 - choose(i)]); // any order
    st->dirs.insert(p);
    return reinterpret_cast<DIR*>(p);
}
struct dirent* sim_readdir(Dir* d)
{
    Quiet q;
    if (d->pos == d->names.size()) return nullptr;
    if (dir_fault("readdir")) return nullptr;
    const std::string& n = d->names[d->pos++];
    auto i = st->files.find(st->fds[d->fd]->path + "/" + n);
    std::memset(&d->ent, 0, sizeof d->ent);
    d->ent.d_ino = 1;
    bool special = n == "." || n == "..";
    d->ent.d_type = choose(4) == 1 ? DT_UNKNOWN : special || (i != st->files.end() && i->second->dir) ? DT_DIR : DT_REG;
    std::strncpy(d->ent.d_name, n.c_str(), sizeof d->ent.d_name - 1);
    return &d->ent;
}
int sim_closedir(Dir* d)
{
    Quiet q;
    sim_close(d->fd);
    st->dirs.erase(d);
    delete d;
    return 0;
}
void drop_locks(Desc* d)
{
    if (d->ino->ex == d) d->ino->ex = nullptr;
    d->ino->sh.erase(d);
}
int sim_close(int fd)
{
    Quiet q;
    enter("close");
    auto d = find(fd, "close");
    if (!d) { errno = EBADF; return -1; }
    trace("  sys close(fd%d)", fd >= fd_base ? fd - fd_base : fd);
    if (fd < fd_base) count("probe.std_stream_closed");
    drop_locks(d.get());
    st->fds.erase(fd);
    return 0;
}
std::size_t cut(std::size_t n)
{
    if (n > 1 && hit(config.short_io)) {
        count("fault.short_transfer");
        // at least one byte
        switch (choose(3)) {
            case 0: return 1;
            case 1: return n - 1;
            default: return 1 + choose(n - 1);
        }
    }
    return n;
}
ssize_t sim_read(int fd, void* buf, std::size_t n)
{
    Quiet q;
    enter("read");
    auto d = find(fd, "read");
    if (!d) return err(EBADF, "read");
    int e;
    if (one_shot("read", e)) { count("fault.read_error"); return err(e, "read"); }
    if (hit(config.eintr)) return err(EINTR, "read");
    if (d->ino->dir) return err(EISDIR, "read");
    if ((d->flags & O_ACCMODE) == O_WRONLY) return err(EBADF, "read");
    if (hit(config.io_error)) { count("fault.read_error"); return err(choose(2) ? EIO : ENXIO, "read"); }
    const std::string& s = d->ino->data;
    std::size_t pos = d->ino->stream ? d->ino->stream_pos : std::size_t(d->pos);
    std::size_t avail = pos < s.size() ? s.size() - pos : 0;
    std::size_t m = cut(std::min(n, avail));
    std::memcpy(buf, s.data() + std::min(pos, s.size()), m);
    if (d->ino->stream) d->ino->stream_pos += m;
    else d->pos += off_t(m);
    trace("  sys read(fd%d,%zu) = %zu", fd >= fd_base ? fd - fd_base : fd, n, m);
    return ssize_t(m);
}
ssize_t sim_write(int fd, const void* buf, std::size_t n)
{
    Quiet q;
    enter("write");
    auto d = find(fd, "write");
    if (!d) return err(EBADF, "write");
    int e;
    if (one_shot("write", e)) { count("fault.write_error"); return err(e, "write"); }
    if (hit(config.eintr)) return err(EINTR, "write");
    if ((d->flags & O_ACCMODE) == O_RDONLY) return err(EBADF, "write");
    if (hit(config.io_error)) { count("fault.write_error"); return err(choose(2) ? EIO : ENOSPC, "write"); }
    if (n == 0) { trace("  sys write(fd%d,0) = 0", fd - fd_base); return 0; } // Does not move the file position, not even with O_APPEND
    std::string& s = d->ino->data;
    std::size_t pos = ((d->flags & O_APPEND) || d->ino->stream) ? s.size() : std::size_t(d->pos);
    std::size_t m = cut(n);
    if (config.disk_capacity != ~0ULL) {
        u64 u = used();
        u64 room = config.disk_capacity > u ? config.disk_capacity - u : 0;
        u64 need = pos + m > s.size() ? pos + m - s.size() : 0;
        if (need > room) {
            u64 allowed = m - (need - room);
            if (need - room >= m) { count("fault.disk_full"); return err(ENOSPC, "write"); }
            m = allowed;
            count("fault.disk_full_partial");
        }
    }
    if (pos + m > s.size() && m > 0) s.resize(pos + m, '\0');
    std::memcpy(s.data() + pos, buf, m);
    if (!d->ino->stream) d->pos = off_t(pos + m);
    d->ino->mtime = now_real();
    trace("  sys write(fd%d,%zu) = %zu", fd >= fd_base ? fd - fd_base : fd, n, m);
    return ssize_t(m);
}
off_t sim_lseek(int fd, off_t off, int whence)
{
    Quiet q;
    enter("lseek");
    auto d = find(fd, "lseek");
    if (!d) return err(EBADF, "lseek");
    int e;
    if (one_shot("lseek", e)) { count("fault.seek_error"); return err(e, "lseek"); }
    if (d->ino->stream) return err(ESPIPE, "lseek");
    if (hit(config.seek_error)) { count("fault.seek_error"); return err(EIO, "lseek"); }
    off_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? d->pos : off_t(d->ino->data.size());
    off_t r;
    if (__builtin_add_overflow(base, off, &r) || r < 0) return err(EINVAL, "lseek");
    d->pos = r;
    trace("  sys lseek(fd%d,%lld,%d) = %lld", fd >= fd_base ? fd - fd_base : fd, static_cast<long long>(off), whence, static_cast<long long>(r));
    return r;
}
int sim_fstat(int fd, struct stat* b)
{
    Quiet q;
    enter("fstat");
    auto d = find(fd, "fstat");
    if (!d) return err(EBADF, "fstat");
    int e;
    if (one_shot("fstat", e)) { count("fault.stat_error"); return err(e, "fstat"); }
    if (hit(config.stat_error)) { count("fault.stat_error"); return err(EIO, "fstat"); }
    std::memset(b, 0, sizeof *b);
    b->st_mode = d->ino->dir ? (S_IFDIR | 0755) : d->ino->stream ? (S_IFIFO | 0644) : (S_IFREG | 0644);
    b->st_size = off_t(d->ino->data.size());
    b->st_nlink = 1;
    b->st_blksize = 4096;
    b->st_mtim.tv_sec = d->ino->mtime / giga;
    b->st_mtim.tv_nsec = d->ino->mtime % giga;
    return 0;
}
struct LockWait { Inode* ino; const void* self; bool ex; };
bool can_lock(void* p)
{
    LockWait* w = static_cast<LockWait*>(p);
    if (w->ino->ex && w->ino->ex != w->self) return false;
    if (w->ex)
        for (auto x : w->ino->sh) if (x != w->self) return false;
    return true;
}
int sim_flock(int fd, int op)
{
    Quiet q;
    enter("flock");
    auto d = find(fd, "flock");
    if (!d) return err(EBADF, "flock");
    int e;
    if (one_shot("flock", e)) { count("fault.lock_error"); return err(e, "flock"); }
    if (hit(config.eintr)) return err(EINTR, "flock");
    bool nb = op & LOCK_NB;
    op &= ~LOCK_NB;
    if (op == LOCK_UN) {
        drop_locks(d.get());
        trace("  sys flock(fd%d,UN)", fd - fd_base);
        yield();
        return 0;
    }
    if (hit(config.lock_error)) { count("fault.lock_error"); return err(ENOLCK, "flock"); }
    bool ex = op == LOCK_EX;
    LockWait w = { d->ino.get(), d.get(), ex };
    if (!can_lock(&w)) {
        if (nb) { count("probe.lock_would_block"); trace("  sys flock(fd%d) would block", fd - fd_base); errno = EWOULDBLOCK; last_error = EWOULDBLOCK; return -1; }
        count("probe.lock_blocked");
        // A signal may arrive while blocked
        if (config.eintr && hit(config.eintr)) return err(EINTR, "flock(blocked)");
        block_until(&can_lock, &w, "flock");
    }
    drop_locks(d.get());
    if (ex) d->ino->ex = d.get();
    else d->ino->sh.insert(d.get());
    trace("  sys flock(fd%d,%s)", fd - fd_base, ex ? "EX" : "SH");
    return 0;
}
} // namespace
} // namespace fs
} // namespace sim

using namespace sim;
using namespace sim::internal;

extern "C" {

int __wrap_open(const char* path, int flags, ...)
{
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = mode_t(va_arg(ap, int));
        va_end(ap);
    }
    if (g_run_active && fs::is_sim_path(path))
        return fs::sim_open(path, flags);
    return __real_open(path, flags, mode);
}
int __wrap_open64(const char* path, int flags, ...)
{
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) {
        va_list ap;
        va_start(ap, flags);
        mode = mode_t(va_arg(ap, int));
        va_end(ap);
    }
    return __wrap_open(path, flags, mode);
}
bool sim_dir_path(int fd, const char* path) { return fs::is_sim_fd(fd) || (sim::g_run_active && fs::is_sim_path(path)); }
int __wrap_openat(int fd, const char* path, int flags, ...)
{
    mode_t mode = 0;
    if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
    if (sim_dir_path(fd, path)) return fs::sim_openat(fs::is_sim_fd(fd) ? fd : AT_FDCWD, path, flags);
    return __real_openat(fd, path, flags, mode);
}
int __wrap___openat_2(int fd, const char* path, int flags) { return __wrap_openat(fd, path, flags); } // (fortified)
int __wrap_mkdir(const char* p, mode_t m) { return sim_dir_path(-1, p) ? fs::sim_mkdir(p) : __real_mkdir(p, m); }
int __wrap_remove(const char* p) { return sim_dir_path(-1, p) ? fs::sim_remove(p) : __real_remove(p); }
int __wrap_stat(const char* p, struct stat* b) { return sim_dir_path(-1, p) ? fs::sim_stat(p, b) : __real_stat(p, b); }
int __wrap_lstat(const char* p, struct stat* b) { return sim_dir_path(-1, p) ? fs::sim_stat(p, b) : __real_lstat(p, b); }
int __wrap_unlinkat(int fd, const char* p, int f)
{
    if (!sim_dir_path(fd, p)) return __real_unlinkat(fd, p, f);
    std::string q;
    { fs::Quiet quiet; q = fs::is_sim_fd(fd) && p[0] != '/' ? fs::find(fd, "unlinkat")->path + "/" + p : std::string(p); q = fs::norm(q.c_str()); }
    int r = fs::sim_unlinkat(q, f);
    { fs::Quiet quiet; int e = errno; q = std::string(); errno = e; }
    return r;
}
DIR* __wrap_fdopendir(int fd) { return fs::is_sim_fd(fd) ? fs::sim_fdopendir(fd) : __real_fdopendir(fd); }
struct dirent* __wrap_readdir(DIR* d) { auto p = fs::as_dir(d); return p ? fs::sim_readdir(p) : __real_readdir(d); }
int __wrap_closedir(DIR* d) { auto p = fs::as_dir(d); return p ? fs::sim_closedir(p) : __real_closedir(d); }
int __wrap_dirfd(DIR* d) { auto p = fs::as_dir(d); return p ? p->fd : __real_dirfd(d); }
int __wrap_close(int fd) { return fs::is_sim_fd(fd) ? fs::sim_close(fd) : __real_close(fd); }
ssize_t __wrap_read(int fd, void* b, size_t n) { return fs::is_sim_fd(fd) ? fs::sim_read(fd, b, n) : __real_read(fd, b, n); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { return fs::is_sim_fd(fd) ? fs::sim_write(fd, b, n) : __real_write(fd, b, n); }
off_t __wrap_lseek(int fd, off_t o, int w) { return fs::is_sim_fd(fd) ? fs::sim_lseek(fd, o, w) : __real_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
int __wrap_fstat(int fd, struct stat* b) { return fs::is_sim_fd(fd) ? fs::sim_fstat(fd, b) : __real_fstat(fd, b); }
int __wrap_fstat64(int fd, struct stat* b) { return __wrap_fstat(fd, b); }
int __wrap_flock(int fd, int op) { return fs::is_sim_fd(fd) ? fs::sim_flock(fd, op) : __real_flock(fd, op); }
int __wrap_isatty(int fd)
{
    if (fs::is_sim_fd(fd)) { errno = ENOTTY; return 0; }
    return __real_isatty(fd);
}
int __wrap_ioctl(int fd, unsigned long req, ...)
{
    va_list ap;
    va_start(ap, req);
    void* p = va_arg(ap, void*);
    va_end(ap);
    if (fs::is_sim_fd(fd)) { errno = ENOTTY; return -1; }
    return __real_ioctl(fd, req, p);
}
int __wrap_ftruncate(int fd, off_t n)
{
    if (!fs::is_sim_fd(fd)) return __real_ftruncate(fd, n);
    fs::Quiet q;
    auto d = fs::find(fd, "ftruncate");
    d->ino->data.resize(std::size_t(n));
    return 0;
}
int __wrap_fsync(int fd) { return fs::is_sim_fd(fd) ? 0 : __real_fsync(fd); }
int __wrap_futimens(int fd, const struct timespec* ts)
{
    if (!fs::is_sim_fd(fd)) return __real_futimens(fd, ts);
    fs::Quiet q;
    fs::enter("futimens");
    auto d = fs::find(fd, "futimens");
    int e;
    if (fs::one_shot("futimens", e)) { count("fault.futimens_error"); return fs::err(e, "futimens"); }
    if (fs::hit(fs::config.futimens_error)) { count("fault.futimens_error"); return fs::err(EPERM, "futimens"); }
    if (!ts || ts[1].tv_nsec == UTIME_NOW) d->ino->mtime = c_real;
    else if (ts[1].tv_nsec != UTIME_OMIT) d->ino->mtime = ts[1].tv_sec * giga + ts[1].tv_nsec;
    trace("  sys futimens(fd%d)", fd - fs::fd_base);
    return 0;
}

int __wrap_clock_gettime(clockid_t id, struct timespec* ts)
{
    if (!g_run_active) return __real_clock_gettime(id, ts);
    if (c_fail) { errno = c_fail; c_fail = 0; count("fault.clock_failure"); trace("  sys clock_gettime failed"); return -1; }
    if (c_drift) advance(c_drift);
    i64 t;
    switch (id) {
        case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: t = c_real; break;
        case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: t = c_user; break;
        default: t = c_mono; break;
    }
    i64 s = t / giga, n = t % giga;
    if (n < 0) { n += giga; --s; }
    ts->tv_sec = s;
    ts->tv_nsec = n;
    return 0;
}
time_t __wrap_time(time_t* t)
{
    if (!g_run_active) return __real_time(t);
    i64 s = c_real / giga;
    if (c_real % giga < 0) --s;
    if (t) *t = s;
    return s;
}
int __wrap_gettimeofday(struct timeval* tv, void* tz)
{
    if (!g_run_active) return __real_gettimeofday(tv, tz);
    i64 s = c_real / giga, n = c_real % giga;
    if (n < 0) { n += giga; --s; }
    tv->tv_sec = s;
    tv->tv_usec = n / 1000;
    return 0;
}

} // extern "C"
