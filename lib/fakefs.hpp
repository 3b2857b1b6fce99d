// An in-memory file system standing in for the POSIX calls of the code under test (link with -Wl,--wrap=...).
// It logs, per file, what is durable and what is written but not yet synced, can fail chosen calls, and
// enumerates every file content a crash could leave behind.
#pragma once
#include "mc.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <errno.h>
#include <functional>
#include <cstdarg>

// Harnesses under the controlled scheduler make every call a scheduling point and hide the bookkeeping from it.
#ifndef FAKEFS_GUARD
#define FAKEFS_GUARD
#endif

namespace fakefs
{
    using Bytes = std::vector<uint8_t>;

    struct Op { bool trunc; size_t off; Bytes data; };

    struct File
    {
        Bytes durable;
        std::vector<Op> pending;
        Bytes cur;
    };

    struct Disk
    {
        std::map<std::string, File> files;
    };

    enum class Call { Open, Lseek, Read, Write, Truncate, Fsync, Fstat, Close, Access };
    inline const char* name(Call c)
    {
        static const char* n[] = { "open", "lseek", "read", "write", "ftruncate", "fsync", "fstat", "close", "access" };
        return n[(int)c];
    }

    struct Fd { std::string file; size_t pos; bool open; bool rdonly; };

    constexpr int fd_base = 1000;

    struct World
    {
        Disk disk;
        std::vector<Fd> fds;
        long calls = 0;
        // Fault decision for call number n: 0 none, 1 error, 2 short transfer (read/write)
        std::function<int(long, Call)> fault;
        std::function<void(Call)> after;    // called after every completed call
        bool trace = false;
        bool active = false;

        int open_fds() const { int n = 0; for (auto& f : fds) n += f.open; return n; }
    };

    inline World& w() { static World x; return x; }

    inline void apply_op(Bytes& b, const Op& op)
    {
        if (op.trunc) b.resize(op.off);
        else
        {
            if (b.size() < op.off + op.data.size()) b.resize(op.off + op.data.size());
            std::copy(op.data.begin(), op.data.end(), b.begin() + op.off);
        }
    }

    inline Fd* get(int fd)
    {
        int i = fd - fd_base;
        if (i < 0 || i >= (int)w().fds.size() || !w().fds[i].open) return nullptr;
        return &w().fds[i];
    }

    struct Scope   // fault decision and post-call hook around one call
    {
        Call c;
        int f;
        Scope(Call call) : c(call), f(0)
        {
            long n = w().calls++;
            if (w().fault) f = w().fault(n, c);
            if (f && w().trace) mc::trace("  call %ld: %s %s", n, name(c), f == 1 ? "fails" : "transfers less than asked");
        }
        ~Scope() { if (w().after) w().after(c); }
    };

    inline int do_open(const char* path, int flags)
    {
        Scope s(Call::Open);
        if (s.f) { errno = EMFILE; return -1; }
        auto& fs = w().disk.files;
        if (!fs.count(path))
        {
            if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
            fs[path];
        }
        if (flags & O_TRUNC) { Op o { true, 0, {} }; apply_op(fs[path].cur, o); fs[path].pending.push_back(o); }
        w().fds.push_back({ path, 0, true, (flags & O_ACCMODE) == O_RDONLY });
        return fd_base + (int)w().fds.size() - 1;
    }
    inline off_t do_lseek(int fd, off_t off, int wh)
    {
        Fd* f = get(fd);
        if (!f) { errno = EBADF; return -1; }
        Scope s(Call::Lseek);
        if (s.f == 1) { errno = EIO; return -1; }
        off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)f->pos : (off_t)w().disk.files[f->file].cur.size();
        if (base + off < 0) { errno = EINVAL; return -1; }
        f->pos = base + off;
        return f->pos;
    }
    inline ssize_t do_pread(Fd* f, void* buf, size_t n, size_t pos, bool upd)
    {
        Scope s(Call::Read);
        if (s.f == 1) { errno = EIO; return -1; }
        auto& b = w().disk.files[f->file].cur;
        size_t k = pos < b.size() ? std::min(n, b.size() - pos) : 0;
        if (s.f == 2 && k > 1) k /= 2;
        if (k) memcpy(buf, b.data() + pos, k);
        if (upd) f->pos = pos + k;
        return k;
    }
    inline ssize_t do_pwrite(Fd* f, const void* buf, size_t n, size_t pos, bool upd)
    {
        if (f->rdonly) { errno = EBADF; return -1; }
        Scope s(Call::Write);
        if (s.f == 1) { errno = ENOSPC; return -1; }
        size_t k = n;
        if (s.f == 2 && k > 1) k /= 2;
        if (k)
        {
            Op o { false, pos, Bytes((const uint8_t*)buf, (const uint8_t*)buf + k) };
            auto& file = w().disk.files[f->file];
            apply_op(file.cur, o);
            file.pending.push_back(o);
        }
        if (upd) f->pos = pos + k;
        return k;
    }
    inline int do_truncate(int fd, off_t len)
    {
        Fd* f = get(fd);
        if (!f) { errno = EBADF; return -1; }
        Scope s(Call::Truncate);
        if (s.f) { errno = EIO; return -1; }
        auto& file = w().disk.files[f->file];
        Op o { true, (size_t)len, {} };
        apply_op(file.cur, o);
        file.pending.push_back(o);
        return 0;
    }
    inline int do_fsync(int fd)
    {
        Fd* f = get(fd);
        if (!f) { errno = EBADF; return -1; }
        Scope s(Call::Fsync);
        if (s.f) { errno = EIO; return -1; }
        auto& file = w().disk.files[f->file];
        file.durable = file.cur;
        file.pending.clear();
        return 0;
    }
    inline int do_fstat(int fd, struct stat* st)
    {
        Fd* f = get(fd);
        if (!f) { errno = EBADF; return -1; }
        Scope s(Call::Fstat);
        if (s.f) { errno = EIO; return -1; }
        memset(st, 0, sizeof *st);
        st->st_mode = S_IFREG | 0600;
        st->st_size = w().disk.files[f->file].cur.size();
        return 0;
    }
    inline int do_close(int fd)
    {
        Fd* f = get(fd);
        if (!f) { mc::fail("close() of a descriptor that is not open"); }
        Scope s(Call::Close);
        f->open = false;
        return 0;
    }

    // ---- crash states ----

    // All contents of one file a crash may leave: each sector independently at any version it has had since the
    // last sync, the size any size it has had (missing data reads as zeros); and every byte-granular prefix of
    // each single write.  Returns false if the number of combinations exceeded the cap.
    inline bool crash_images(const File& f, size_t sector, size_t cap, std::set<Bytes>& out, bool bytes = true)
    {
        std::vector<Bytes> ver { f.durable };
        for (auto& op : f.pending)
        {
            // torn append/overwrite, byte granular, everything before it persisted
            if (!op.trunc && bytes)
                for (size_t p = 1; p < op.data.size(); p += (op.data.size() > 400 ? 37 : 1))
                {
                    Bytes b = ver.back();
                    apply_op(b, Op { false, op.off, Bytes(op.data.begin(), op.data.begin() + p) });
                    out.insert(b);
                }
            Bytes b = ver.back();
            apply_op(b, op);
            ver.push_back(b);
        }
        std::set<size_t> sizes;
        size_t mx = 0;
        for (auto& v : ver) { sizes.insert(v.size()); mx = std::max(mx, v.size()); }
        size_t nsec = (mx + sector - 1) / sector;
        std::vector<std::vector<Bytes>> opt(nsec);
        for (size_t s = 0; s < nsec; ++s)
        {
            std::set<Bytes> o;
            for (auto& v : ver)
            {
                Bytes x(sector, 0);
                for (size_t i = 0; i < sector; ++i) if (s * sector + i < v.size()) x[i] = v[s * sector + i];
                if (o.insert(x).second) opt[s].push_back(x);
            }
        }
        bool complete = true;
        std::vector<size_t> idx(nsec, 0);
        size_t n = 0;
        while (true)
        {
            Bytes b;
            for (size_t s = 0; s < nsec; ++s) b.insert(b.end(), opt[s][idx[s]].begin(), opt[s][idx[s]].end());
            for (size_t sz : sizes)
            {
                Bytes c(b.begin(), b.begin() + std::min(sz, b.size()));
                c.resize(sz);
                out.insert(c);
            }
            if (++n >= cap) { complete = false; break; }
            size_t s = 0;
            while (s < nsec && ++idx[s] == opt[s].size()) idx[s++] = 0;
            if (s == nsec) break;
        }
        return complete;
    }
}

extern "C"
{
    int __real_open(const char*, int, ...);
    off_t __real_lseek(int, off_t, int);
    ssize_t __real_read(int, void*, size_t);
    ssize_t __real_write(int, const void*, size_t);
    ssize_t __real_pread(int, void*, size_t, off_t);
    ssize_t __real_pwrite(int, const void*, size_t, off_t);
    int __real_ftruncate(int, off_t);
    int __real_fsync(int);
    int __real_fdatasync(int);
    int __real_fstat(int, struct stat*);
    int __real_close(int);
    int __real_access(const char*, int);

    int __wrap_open(const char* p, int fl, ...)
    {
        FAKEFS_GUARD;
        if (!fakefs::w().active) { va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a); return __real_open(p, fl, m); }
        return fakefs::do_open(p, fl);
    }
    off_t __wrap_lseek(int fd, off_t o, int wh) { FAKEFS_GUARD; return fd < fakefs::fd_base && !fakefs::w().active ? __real_lseek(fd, o, wh) : fakefs::do_lseek(fd, o, wh); }
    ssize_t __wrap_read(int fd, void* b, size_t n)
    {
        FAKEFS_GUARD;
        if (fd < fakefs::fd_base && !fakefs::w().active) return __real_read(fd, b, n);
        auto* f = fakefs::get(fd);
        if (!f) { errno = EBADF; return -1; }
        return fakefs::do_pread(f, b, n, f->pos, true);
    }
    ssize_t __wrap_write(int fd, const void* b, size_t n)
    {
        FAKEFS_GUARD;
        if (fd < fakefs::fd_base && !fakefs::w().active) return __real_write(fd, b, n);
        auto* f = fakefs::get(fd);
        if (!f) { errno = EBADF; return -1; }
        return fakefs::do_pwrite(f, b, n, f->pos, true);
    }
    ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o)
    {
        FAKEFS_GUARD;
        auto* f = fakefs::get(fd);
        if (!f) return __real_pread(fd, b, n, o);
        return fakefs::do_pread(f, b, n, o, false);
    }
    ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o)
    {
        FAKEFS_GUARD;
        auto* f = fakefs::get(fd);
        if (!f) return __real_pwrite(fd, b, n, o);
        return fakefs::do_pwrite(f, b, n, o, false);
    }
    int __wrap_ftruncate(int fd, off_t l) { FAKEFS_GUARD; return fd < fakefs::fd_base && !fakefs::w().active ? __real_ftruncate(fd, l) : fakefs::do_truncate(fd, l); }
    int __wrap_fsync(int fd) { FAKEFS_GUARD; return fd < fakefs::fd_base && !fakefs::w().active ? __real_fsync(fd) : fakefs::do_fsync(fd); }
    int __wrap_fdatasync(int fd) { FAKEFS_GUARD; return fd < fakefs::fd_base && !fakefs::w().active ? __real_fdatasync(fd) : fakefs::do_fsync(fd); }
    int __wrap_fstat(int fd, struct stat* st) { FAKEFS_GUARD; return fd < fakefs::fd_base && !fakefs::w().active ? __real_fstat(fd, st) : fakefs::do_fstat(fd, st); }
    int __wrap_close(int fd) { FAKEFS_GUARD; return fd < fakefs::fd_base && !fakefs::w().active ? __real_close(fd) : fakefs::do_close(fd); }
    int __wrap_access(const char* p, int m)
    {
        FAKEFS_GUARD;
        if (!fakefs::w().active) return __real_access(p, m);
        fakefs::Scope s(fakefs::Call::Access);
        if (fakefs::w().disk.files.count(p)) return 0;
        errno = ENOENT;
        return -1;
    }
}
