// Interposed file operations: fault and crash injection for files below one folder.
#ifndef VERIF_FAULT_IO_H
#define VERIF_FAULT_IO_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <string>

namespace fio {
struct control
{
	bool		armed;
	std::string	prefix;			// only files whose path starts with this
	long		count;			// operations seen
	long		crash_at;		// -1 never
	int			crash_mode;		// 0 before the operation, 1 after it, 2 after a part of it
	long		fault_at;		// -1 never; first faulty operation
	long		fault_len;		// number of successive faulty operations
	int			err;
	long		part;			// bytes of a faulty or torn write that reach the file
	long		budget;			// free bytes on the disk, -1 unlimited
	long		faults;			// faults delivered
	bool		writes_only;
	bool		short_first;	// only the first faulty write is a short one, the others fail
	void reset()
	{
		armed = false;
		count = faults = 0;
		crash_at = fault_at = -1;
		fault_len = 1;
		crash_mode = 0;
		err = EIO;
		part = 0;
		budget = -1;
		writes_only = false;
		short_first = false;
	}
};
extern control g;
control g;
static bool fds[4096];

inline bool ours(int fd) { return g.armed && fd >= 0 && fd < 4096 && fds[fd]; }
inline ssize_t raw_write(int fd, const void* p, size_t n) { return syscall(SYS_write, fd, p, n); }

// returns -2: go on with the operation; otherwise the operation failed
inline bool before_op()
{
	long k = g.count++;
	if(k == g.crash_at && g.crash_mode == 0) { _exit(9); }
	if(g.fault_at >= 0 && k >= g.fault_at && k < g.fault_at + g.fault_len) { ++g.faults; return true; }
	return false;
}
inline void after_op()
{
	if(g.count - 1 == g.crash_at && g.crash_mode != 0) { _exit(9); }
}
inline ssize_t do_write(int fd, const char* p, size_t n)
{
	bool bad = before_op();
	if(g.count - 1 == g.crash_at && g.crash_mode == 2)
	{
		raw_write(fd, p, std::min<size_t>(n, static_cast<size_t>(g.part)));
		_exit(9);
	}
	ssize_t rc;
	if(bad)
	{
		size_t k = std::min<size_t>(n, static_cast<size_t>(g.part));
		if(g.short_first && g.count - 1 != g.fault_at) { k = 0; }
		if(k > 0 && k < n)
		{
			rc = raw_write(fd, p, k);	// a short write; the caller tries the rest in its next operation
		}
		else { errno = g.err; rc = -1; }
	}
	else if(g.budget >= 0)
	{
		size_t k = std::min<size_t>(n, static_cast<size_t>(g.budget));
		if(k == 0 && n != 0) { ++g.faults; errno = ENOSPC; rc = -1; }
		else
		{
			rc = raw_write(fd, p, k);
			g.budget -= static_cast<long>(k);
		}
	}
	else { rc = raw_write(fd, p, n); }
	int e = errno;
	after_op();
	errno = e;
	return rc;
}
inline bool is_ours(const char* path) { return g.armed && strncmp(path, g.prefix.c_str(), g.prefix.size()) == 0; }
inline int do_open(int dir, const char* path, int flags, mode_t mode)
{
	bool mine = is_ours(path);
	bool op = mine && (flags & (O_WRONLY | O_RDWR)) != 0;
	if(op && before_op() && !g.writes_only)
	{
		errno = g.err;
		return -1;
	}
	int fd = static_cast<int>(syscall(SYS_openat, dir, path, flags, mode));
	if(fd >= 0 && fd < 4096) { fds[fd] = op; }
	int e = errno;
	if(op) { after_op(); }
	errno = e;
	return fd;
}
}

extern "C" {
ssize_t write(int fd, const void* p, size_t n)
{
	return fio::ours(fd) ? fio::do_write(fd, static_cast<const char*>(p), n) : fio::raw_write(fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int n)
{
	if(fio::ours(fd) && n > 0) { return fio::do_write(fd, static_cast<const char*>(v[0].iov_base), v[0].iov_len); }
	return syscall(SYS_writev, fd, v, n);
}
int ftruncate64(int fd, off64_t len) noexcept
{
	if(fio::ours(fd) && fio::before_op()) { errno = fio::g.err; return -1; }
	int rc = static_cast<int>(syscall(SYS_ftruncate, fd, len));
	if(fio::ours(fd)) { fio::after_op(); }
	return rc;
}
int ftruncate(int fd, off_t len) noexcept { return ftruncate64(fd, len); }
#define FIO_MODE mode_t mode = 0; if(flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = static_cast<mode_t>(va_arg(a, int)); va_end(a); }
int open(const char* path, int flags, ...) { FIO_MODE return fio::do_open(AT_FDCWD, path, flags, mode); }
int open64(const char* path, int flags, ...) { FIO_MODE return fio::do_open(AT_FDCWD, path, flags | O_LARGEFILE, mode); }
int openat(int d, const char* path, int flags, ...) { FIO_MODE return fio::do_open(d, path, flags, mode); }
int openat64(int d, const char* path, int flags, ...) { FIO_MODE return fio::do_open(d, path, flags | O_LARGEFILE, mode); }
}
#endif
