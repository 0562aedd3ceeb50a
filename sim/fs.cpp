#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "fs.hpp"
#include "alloc.hpp"
#include "core.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <string>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

namespace sim
{
namespace fs
{
namespace
{
struct Inode { std::string data; };
struct Fd
{
    std::shared_ptr<Inode> ino;
    off_t pos = 0;
    int flags = 0;
    bool open = false;
    bool wrote = false;
    FILE* fp = nullptr;
};

const int BASE = 1 << 20;

struct State
{
    std::map<std::string, std::shared_ptr<Inode>> files;
    std::vector<Fd> fds;
};

State* g_st = nullptr;
Faults g_f;
bool g_fired = false, g_crashed = false;
unsigned g_writes = 0, g_reads = 0, g_closes = 0, g_opens = 0, g_mut = 0;

State& st()
{
    if (!g_st)
    {
        alloc::Exempt e;
        g_st = new State();
    }
    return *g_st;
}

AtRunStart at_start(reset);

bool sim_path(const char* p) { return p && strncmp(p, "/sim/", 5) == 0 && in_run(); }

Fd* get_fd(int fd)
{
    if (fd < BASE || !g_st) { return nullptr; }
    size_t i = fd - BASE;
    if (i >= g_st->fds.size() || !g_st->fds[i].open) { return nullptr; }
    return &g_st->fds[i];
}

// A call that would change the disk: false when the machine is already down.
bool mutate()
{
    unsigned k = g_mut++;
    if (g_crashed) { return false; }
    if (g_f.crash_at >= 0 && static_cast<int>(k) >= g_f.crash_at)
    {
        g_crashed = true;
        count("fault.crash");
        event("disk: crash at mutating call %u", k);
        return false;
    }
    return true;
}

int do_open(const char* path, int flags)
{
    alloc::Exempt e;
    const unsigned k = g_opens++;
    if (g_f.fail_open_at >= 0 && static_cast<int>(k) == g_f.fail_open_at)
    {
        g_fired = true;
        count("fault.open_failure");
        static const int errs[] = {EACCES, EMFILE, EIO, ENFILE};
        errno = errs[choose(4, "open errno")];
        event("disk: open %s fails", path);
        return -1;
    }
    std::string p(path);
    if (p.compare(0, 12, "/sim/missing") == 0)
    {
        errno = ENOENT;
        return -1;
    }
    auto it = st().files.find(p);
    std::shared_ptr<Inode> ino;
    if (it == st().files.end())
    {
        if (!(flags & O_CREAT))
        {
            errno = ENOENT;
            return -1;
        }
        ino = std::make_shared<Inode>();
        if (mutate()) { st().files[p] = ino; }
    }
    else
    {
        if ((flags & O_CREAT) && (flags & O_EXCL))
        {
            errno = EEXIST;
            return -1;
        }
        ino = it->second;
        if ((flags & O_TRUNC) && !ino->data.empty())
        {
            if (mutate()) { ino->data.clear(); }
            else
            {
                ino = std::make_shared<Inode>();   // the dying process sees a truncated file, the disk does not
            }
        }
    }
    size_t i = 0;
    for (; i < st().fds.size(); ++i) { if (!st().fds[i].open) { break; } }
    if (i == st().fds.size()) { st().fds.push_back(Fd()); }
    Fd& f = st().fds[i];
    f = Fd();
    f.ino = ino;
    f.flags = flags;
    f.open = true;
    f.pos = (flags & O_APPEND) ? ino->data.size() : 0;
    return BASE + static_cast<int>(i);
}

ssize_t do_pread(Fd& f, void* buf, size_t n, off_t pos)
{
    alloc::Exempt e;
    const int acc = f.flags & O_ACCMODE;
    if (acc == O_WRONLY) { errno = EBADF; return -1; }
    if (n == 0) { return 0; }
    if (g_f.eintr && chance(g_f.eintr, 16, "EINTR on read"))
    {
        count("fault.eintr_read");
        errno = EINTR;
        return -1;
    }
    const unsigned k = g_reads++;
    if (g_f.fail_read_at >= 0 && (g_f.fail_read_once ? static_cast<int>(k) == g_f.fail_read_at : static_cast<int>(k) >= g_f.fail_read_at))
    {
        g_fired = true;
        count("fault.read_eio");
        event("disk: read #%u fails with EIO", k);
        errno = EIO;
        return -1;
    }
    const std::string& d = f.ino->data;
    if (pos < 0 || static_cast<size_t>(pos) >= d.size()) { return 0; }
    size_t m = std::min(n, d.size() - static_cast<size_t>(pos));
    if (m > 1 && g_f.short_read && chance(g_f.short_read, 16, "short read"))
    {
        count("fault.short_read");
        m = 1 + choose(std::min<size_t>(m - 1, 4096), "short read length");
    }
    memcpy(buf, d.data() + pos, m);
    return m;
}

ssize_t do_pwrite(Fd& f, const void* buf, size_t n, off_t pos)
{
    alloc::Exempt e;
    if ((f.flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if (n == 0) { return 0; }
    if (g_f.eintr && chance(g_f.eintr, 16, "EINTR on write"))
    {
        count("fault.eintr_write");
        errno = EINTR;
        return -1;
    }
    const unsigned k = g_writes++;
    f.wrote = true;
    size_t m = n;
    if (g_f.fail_write_at >= 0 && (g_f.fail_write_once ? static_cast<int>(k) == g_f.fail_write_at : static_cast<int>(k) >= g_f.fail_write_at))
    {
        g_fired = true;
        count("fault.write_error");
        static const int errs[] = {EIO, ENOSPC, EDQUOT, EFBIG};
        errno = errs[choose(4, "write errno")];
        event("disk: write #%u fails", k);
        return -1;
    }
    if (m > 1 && g_f.short_write && chance(g_f.short_write, 16, "short write"))
    {
        count("fault.short_write");
        m = 1 + choose(std::min<size_t>(m - 1, 4096), "short write length");
    }
    if (g_f.enospc_after >= 0)
    {
        size_t end = pos + m;
        size_t grow = end > f.ino->data.size() ? end - f.ino->data.size() : 0;
        if (grow > static_cast<size_t>(g_f.enospc_after))
        {
            g_fired = true;
            count("fault.disk_full");
            event("disk: full at write #%u", k);
            m -= grow - g_f.enospc_after;
            g_f.enospc_after = 0;
            if (m == 0)
            {
                errno = ENOSPC;
                return -1;
            }
        }
        else { g_f.enospc_after -= grow; }
    }
    unsigned cut = m;
    if (g_f.crash_at >= 0 && !g_crashed && static_cast<int>(g_mut) == g_f.crash_at)
    {
        cut = choose(m + 1, "torn write length");
        if (cut > 0)
        {
            count("fault.torn_write");
            if (f.ino->data.size() < pos + cut) { f.ino->data.resize(pos + cut); }
            memcpy(&f.ino->data[pos], buf, cut);
        }
        mutate();
        return m;
    }
    if (!mutate()) { return m; }
    if (f.ino->data.size() < pos + m) { f.ino->data.resize(pos + m); }
    memcpy(&f.ino->data[pos], buf, m);
    return m;
}

ssize_t do_read(int fd, void* buf, size_t n)
{
    Fd& f = *get_fd(fd);
    ssize_t r = do_pread(f, buf, n, f.pos);
    if (r > 0) { f.pos += r; }
    return r;
}

ssize_t do_write(int fd, const void* buf, size_t n)
{
    Fd& f = *get_fd(fd);
    if (f.flags & O_APPEND) { f.pos = f.ino->data.size(); }
    ssize_t r = do_pwrite(f, buf, n, f.pos);
    if (r > 0) { f.pos += r; }
    return r;
}

off_t do_seek(int fd, off_t off, int whence)
{
    Fd& f = *get_fd(fd);
    off_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? f.pos : static_cast<off_t>(f.ino->data.size());
    if (base + off < 0) { errno = EINVAL; return -1; }
    f.pos = base + off;
    return f.pos;
}

int do_close(int fd)
{
    alloc::Exempt e;
    Fd& f = *get_fd(fd);
    const bool wrote = (f.flags & O_ACCMODE) != O_RDONLY;
    f.open = false;
    f.ino.reset();
    if (wrote)
    {
        const unsigned k = g_closes++;
        if (g_f.fail_close_at >= 0 && static_cast<int>(k) == g_f.fail_close_at)
        {
            g_fired = true;
            count("fault.close_error");
            event("disk: close fails");
            static const int errs[] = {EIO, ENOSPC, EDQUOT};
            errno = errs[choose(3, "close errno")];
            return -1;
        }
    }
    return 0;
}

void fill_stat(Fd* f, Inode* ino, struct stat* s)
{
    memset(s, 0, sizeof(*s));
    s->st_mode = S_IFREG | 0644;
    s->st_nlink = 1;
    s->st_size = (f ? f->ino.get() : ino)->data.size();
    s->st_blksize = 4096;
    s->st_blocks = (s->st_size + 511) / 512;
}

// FILE* on top of a simulated descriptor.  errno set by the callbacks reaches the caller.
ssize_t ck_read(void* c, char* b, size_t n) { return do_read(static_cast<int>(reinterpret_cast<intptr_t>(c)), b, n); }
ssize_t ck_write(void* c, const char* b, size_t n)
{
    const int fd = static_cast<int>(reinterpret_cast<intptr_t>(c));
    size_t done = 0;
    while (done < n)
    {
        ssize_t r = do_write(fd, b + done, n - done);
        if (r < 0)
        {
            if (errno == EINTR) { continue; }
            return done;     // short: glibc reports a write error
        }
        done += r;
    }
    return done;
}
int ck_seek(void* c, off64_t* off, int whence)
{
    off_t r = do_seek(static_cast<int>(reinterpret_cast<intptr_t>(c)), *off, whence);
    if (r < 0) { return -1; }
    *off = r;
    return 0;
}
int ck_close(void* c) { return do_close(static_cast<int>(reinterpret_cast<intptr_t>(c))); }

int mode_flags(const char* m)
{
    int fl = 0;
    const bool plus = strchr(m, '+') != nullptr;
    switch (m[0])
    {
        case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
        case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
        case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
        default: return -1;
    }
    if (strchr(m, 'x')) { fl |= O_EXCL; }
    return fl;
}

FILE* wrap(int fd, const char* mode)
{
    cookie_io_functions_t io;
    io.read = ck_read;
    io.write = ck_write;
    io.seek = ck_seek;
    io.close = ck_close;
    FILE* fp = fopencookie(reinterpret_cast<void*>(static_cast<intptr_t>(fd)), mode, io);
    if (!fp) { broken("fopencookie failed"); }
    get_fd(fd)->fp = fp;
    return fp;
}

FILE* do_fopen(const char* path, const char* mode)
{
    int fl = mode_flags(mode);
    if (fl < 0) { errno = EINVAL; return nullptr; }
    int fd = do_open(path, fl);
    return fd < 0 ? nullptr : wrap(fd, mode);
}

template <typename F>
F next(const char* name)
{
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) { broken("no next %s", name); }
    return reinterpret_cast<F>(p);
}
} // namespace

void reset()
{
    alloc::Exempt e;
    st().files.clear();
    st().fds.clear();
    clear_faults();
}
void set(const Faults& f)
{
    g_f = f;
    g_fired = g_crashed = false;
    g_writes = g_reads = g_closes = g_opens = g_mut = 0;
}
void clear_faults() { set(Faults()); }
bool fired() { return g_fired; }
bool crashed() { return g_crashed; }
void restart()
{
    alloc::Exempt e;
    for (auto& f : st().fds)
    {
        f.open = false;
        f.ino.reset();
    }
    clear_faults();
}
unsigned writes() { return g_writes; }
unsigned mutations() { return g_mut; }
unsigned reads() { return g_reads; }
unsigned opens() { return g_opens; }
unsigned leaked_fds()
{
    unsigned n = 0;
    for (auto& f : st().fds) { n += f.open; }
    return n;
}
bool exists(const std::string& p) { return st().files.count(p) > 0; }
std::string get(const std::string& p)
{
    alloc::Exempt e;
    auto it = st().files.find(p);
    return it == st().files.end() ? std::string() : it->second->data;
}
void put(const std::string& p, const std::string& d)
{
    alloc::Exempt e;
    auto& ino = st().files[p];
    if (!ino) { ino = std::make_shared<Inode>(); }
    ino->data = d;
}
void remove(const std::string& p)
{
    alloc::Exempt e;
    st().files.erase(p);
}

} // namespace fs
} // namespace sim

using namespace sim::fs;

extern "C"
{

FILE* fopen(const char* path, const char* mode)
{
    if (sim_path(path)) { return do_fopen(path, mode); }
    static auto f = next<FILE* (*)(const char*, const char*)>("fopen");
    return f(path, mode);
}
FILE* fopen64(const char* path, const char* mode)
{
    if (sim_path(path)) { return do_fopen(path, mode); }
    static auto f = next<FILE* (*)(const char*, const char*)>("fopen64");
    return f(path, mode);
}
FILE* fdopen(int fd, const char* mode)
{
    if (get_fd(fd)) { return wrap(fd, mode); }
    static auto f = next<FILE* (*)(int, const char*)>("fdopen");
    return f(fd, mode);
}
int fileno(FILE* fp)
{
    if (g_st)
    {
        for (size_t i = 0; i < g_st->fds.size(); ++i)
        {
            if (g_st->fds[i].open && g_st->fds[i].fp == fp) { return BASE + static_cast<int>(i); }
        }
    }
    static auto f = next<int (*)(FILE*)>("fileno");
    return f(fp);
}
static int open_va(const char* path, int flags, mode_t mode)
{
    if (sim_path(path)) { return do_open(path, flags); }
    return static_cast<int>(syscall(SYS_openat, AT_FDCWD, path, flags, mode));
}
int open(const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t m = va_arg(ap, mode_t);
    va_end(ap);
    return open_va(path, flags, m);
}
int open64(const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    mode_t m = va_arg(ap, mode_t);
    va_end(ap);
    return open_va(path, flags, m);
}
int creat(const char* path, mode_t m) { return open_va(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
int close(int fd)
{
    if (get_fd(fd)) { return do_close(fd); }
    return static_cast<int>(syscall(SYS_close, fd));
}
ssize_t read(int fd, void* b, size_t n)
{
    if (get_fd(fd)) { return do_read(fd, b, n); }
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n)
{
    if (get_fd(fd)) { return do_write(fd, b, n); }
    return syscall(SYS_write, fd, b, n);
}
ssize_t pread(int fd, void* b, size_t n, off_t o)
{
    if (Fd* f = get_fd(fd)) { return do_pread(*f, b, n, o); }
    return syscall(SYS_pread64, fd, b, n, o);
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    if (Fd* f = get_fd(fd)) { return do_pwrite(*f, b, n, o); }
    return syscall(SYS_pwrite64, fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec* v, int c)
{
    if (get_fd(fd))
    {
        // one simulated write of the gathered bytes
        std::string all;
        sim::alloc::Exempt e;
        for (int i = 0; i < c; ++i) { all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len); }
        return do_write(fd, all.data(), all.size());
    }
    return syscall(SYS_writev, fd, v, c);
}
ssize_t readv(int fd, const struct iovec* v, int c)
{
    if (get_fd(fd))
    {
        for (int i = 0; i < c; ++i)
        {
            if (v[i].iov_len) { return do_read(fd, v[i].iov_base, v[i].iov_len); }
        }
        return 0;
    }
    return syscall(SYS_readv, fd, v, c);
}
off_t lseek(int fd, off_t o, int w) noexcept
{
    if (get_fd(fd)) { return do_seek(fd, o, w); }
    return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept
{
    if (get_fd(fd)) { return do_seek(fd, o, w); }
    return syscall(SYS_lseek, fd, o, w);
}
int fstat(int fd, struct stat* s) noexcept
{
    if (Fd* f = get_fd(fd)) { fill_stat(f, nullptr, s); return 0; }
    return static_cast<int>(syscall(SYS_fstat, fd, s));
}
int fstat64(int fd, struct stat64* s) noexcept
{
    if (Fd* f = get_fd(fd)) { fill_stat(f, nullptr, reinterpret_cast<struct stat*>(s)); return 0; }
    return static_cast<int>(syscall(SYS_fstat, fd, s));
}
int stat(const char* p, struct stat* s) noexcept
{
    if (sim_path(p))
    {
        sim::alloc::Exempt e;
        auto it = st().files.find(p);
        if (it == st().files.end()) { errno = ENOENT; return -1; }
        fill_stat(nullptr, it->second.get(), s);
        return 0;
    }
    return static_cast<int>(syscall(SYS_newfstatat, AT_FDCWD, p, s, 0));
}
int access(const char* p, int m) noexcept
{
    if (sim_path(p))
    {
        sim::alloc::Exempt e;
        if (!st().files.count(p)) { errno = ENOENT; return -1; }
        return 0;
    }
    return static_cast<int>(syscall(SYS_faccessat, AT_FDCWD, p, m));
}
int fsync(int fd)
{
    if (get_fd(fd)) { return 0; }
    return static_cast<int>(syscall(SYS_fsync, fd));
}
int fdatasync(int fd)
{
    if (get_fd(fd)) { return 0; }
    return static_cast<int>(syscall(SYS_fdatasync, fd));
}
int ftruncate(int fd, off_t n) noexcept
{
    if (Fd* f = get_fd(fd))
    {
        sim::alloc::Exempt e;
        if (mutate()) { f->ino->data.resize(n); }
        return 0;
    }
    return static_cast<int>(syscall(SYS_ftruncate, fd, n));
}
int rename(const char* a, const char* b) noexcept
{
    if (sim_path(a))
    {
        sim::alloc::Exempt e;
        auto it = st().files.find(a);
        if (it == st().files.end()) { errno = ENOENT; return -1; }
        if (mutate())
        {
            st().files[b] = it->second;
            st().files.erase(a);
        }
        return 0;
    }
    return static_cast<int>(syscall(SYS_rename, a, b));
}
int unlink(const char* p) noexcept
{
    if (sim_path(p))
    {
        sim::alloc::Exempt e;
        if (!st().files.count(p)) { errno = ENOENT; return -1; }
        if (mutate()) { st().files.erase(p); }
        return 0;
    }
    return static_cast<int>(syscall(SYS_unlink, p));
}
int remove(const char* p) noexcept
{
    return unlink(p);
}
int ioctl(int fd, unsigned long req, ...) noexcept
{
    va_list ap;
    va_start(ap, req);
    void* a = va_arg(ap, void*);
    va_end(ap);
    if (Fd* f = get_fd(fd))
    {
        if (req == FIONREAD)
        {
            off_t left = static_cast<off_t>(f->ino->data.size()) - f->pos;
            *static_cast<int*>(a) = left > 0 ? static_cast<int>(left) : 0;
            return 0;
        }
        errno = ENOTTY;
        return -1;
    }
    return static_cast<int>(syscall(SYS_ioctl, fd, req, a));
}

} // extern C
