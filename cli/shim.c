/* Stands between the program and libc. Numbers every operation on files under
 * SHIM_DIR, writes it to SHIM_LOG, and lets one of them go wrong.
 *   SHIM_FAULT=K:ERRNO        operation K fails
 *   SHIM_FAULT=K:ERRNO:on     K and all writing operations after it fail
 *   SHIM_FAULT=K:short        operation K transfers one byte only
 *   SHIM_FAULT=K:kill         the process is ended before operation K
 *   SHIM_DELAY=N              each operation is preceded by up to N microseconds
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dir[1024];
static size_t dirlen;
static int logfd = -1, fault = -1, err, sticky, mode; /* mode: 0 errno, 1 short, 2 kill */
static int counter;
static unsigned delay;
static unsigned char fds[4096];

__attribute__((constructor)) static void start(void)
{
	const char *d = getenv("SHIM_DIR"), *l = getenv("SHIM_LOG"), *f = getenv("SHIM_FAULT"), *w = getenv("SHIM_DELAY");
	if (d) { strncpy(dir, d, sizeof dir - 1); dirlen = strlen(dir); }
	if (l) {
		logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
		if (logfd >= 0) { int h = syscall(SYS_fcntl, logfd, F_DUPFD_CLOEXEC, 900); syscall(SYS_close, logfd); logfd = h; }
	}
	if (f) {
		fault = atoi(f);
		const char *a = strchr(f, ':');
		if (a) {
			a++;
			if (!strcmp(a, "kill")) mode = 2;
			else if (!strcmp(a, "short")) mode = 1;
			else { err = atoi(a); sticky = strstr(a, ":on") != 0; }
		}
	}
	if (w) delay = atoi(w);
	unsetenv("LD_PRELOAD");
	unsetenv("SHIM_DIR"); unsetenv("SHIM_LOG"); unsetenv("SHIM_FAULT"); unsetenv("SHIM_DELAY");
}

static int watched(const char *p)
{
	return dirlen && p && (p[0] != '/' || (!strncmp(p, dir, dirlen) && (p[dirlen] == '/' || !p[dirlen])));
}

/* 0: go on; -1: fail with errno; 1: transfer one byte only */
static int op(const char *kind, const char *path, int writes)
{
	int k = __atomic_fetch_add(&counter, 1, __ATOMIC_SEQ_CST);
	if (delay) usleep((k * 2654435761u ^ (unsigned)getpid() * 40503u) % delay);
	char b[1400];
	int n = snprintf(b, sizeof b, "%d %s %s\n", k, kind, path ? path : "-");
	if (n > (int)sizeof b) n = sizeof b;
	int faulty = k == fault || (fault >= 0 && sticky && k > fault && writes);
	if (logfd >= 0) {
		syscall(SYS_write, logfd, b, n);
		if (faulty) syscall(SYS_write, logfd, "fault\n", 6);
	}
	if (!faulty) return 0;
	if (mode == 2) { syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); for (;;) pause(); }
	if (mode == 1) return 1;
	errno = err;
	return -1;
}

#define REAL(ret, name, ...) static ret (*f)(__VA_ARGS__); if (!f) f = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, name)
static int mark(int fd, int w) { if (fd >= 0 && fd < (int)sizeof fds) fds[fd] = w; return fd; }
static int is(int fd) { return fd >= 0 && fd < (int)sizeof fds && fds[fd]; }

#define OPEN(name) \
int name(const char *path, int flags, ...) \
{ \
	va_list ap; va_start(ap, flags); int m = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); \
	REAL(int, #name, const char *, int, ...); \
	int w = watched(path), wr = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT); \
	if (w && op(wr ? "create" : "open", path, wr) < 0) return -1; \
	return mark(f(path, flags, m), w); \
}
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int d, const char *path, int flags, ...) \
{ \
	va_list ap; va_start(ap, flags); int m = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); \
	REAL(int, #name, int, const char *, int, ...); \
	int w = watched(path), wr = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT); \
	if (w && op(wr ? "create" : "open", path, wr) < 0) return -1; \
	return mark(f(d, path, flags, m), w); \
}
OPENAT(openat)
OPENAT(openat64)
int close(int fd) { REAL(int, "close", int); mark(fd, 0); return f(fd); }

ssize_t write(int fd, const void *b, size_t n)
{
	REAL(ssize_t, "write", int, const void *, size_t);
	if (!is(fd)) return f(fd, b, n);
	int k = op("write", 0, 1);
	return k < 0 ? -1 : f(fd, b, k && n > 1 ? 1 : n);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
	REAL(ssize_t, "writev", int, const struct iovec *, int);
	if (!is(fd)) return f(fd, v, c);
	int k = op("write", 0, 1);
	if (k < 0) return -1;
	if (k) for (int i = 0; i < c; i++) if (v[i].iov_len) { struct iovec o = { v[i].iov_base, 1 }; return f(fd, &o, 1); }
	return f(fd, v, c);
}
ssize_t read(int fd, void *b, size_t n)
{
	REAL(ssize_t, "read", int, void *, size_t);
	if (!is(fd)) return f(fd, b, n);
	int k = op("read", 0, 0);
	return k < 0 ? -1 : f(fd, b, k && n > 1 ? 1 : n);
}
#define P1(name, kind, ...) int name(const char *p) { REAL(int, #name, const char *); return watched(p) && op(kind, p, 1) < 0 ? -1 : f(p); }
P1(unlink, "unlink")
P1(rmdir, "rmdir")
int unlinkat(int d, const char *p, int fl) { REAL(int, "unlinkat", int, const char *, int); return watched(p) && op("unlink", p, 1) < 0 ? -1 : f(d, p, fl); }
int mkdir(const char *p, mode_t m) { REAL(int, "mkdir", const char *, mode_t); return watched(p) && op("mkdir", p, 1) < 0 ? -1 : f(p, m); }
int rename(const char *a, const char *b) { REAL(int, "rename", const char *, const char *); return watched(b) && op("rename", b, 1) < 0 ? -1 : f(a, b); }
int renameat(int x, const char *a, int y, const char *b)
{ REAL(int, "renameat", int, const char *, int, const char *); return watched(b) && op("rename", b, 1) < 0 ? -1 : f(x, a, y, b); }
int renameat2(int x, const char *a, int y, const char *b, unsigned fl)
{ REAL(int, "renameat2", int, const char *, int, const char *, unsigned); return watched(b) && op("rename", b, 1) < 0 ? -1 : f(x, a, y, b, fl); }
int link(const char *a, const char *b) { REAL(int, "link", const char *, const char *); return watched(b) && op("link", b, 1) < 0 ? -1 : f(a, b); }
int symlink(const char *a, const char *b) { REAL(int, "symlink", const char *, const char *); return watched(b) && op("link", b, 1) < 0 ? -1 : f(a, b); }
int fsync(int fd) { REAL(int, "fsync", int); return is(fd) && op("sync", 0, 1) < 0 ? -1 : f(fd); }
int fdatasync(int fd) { REAL(int, "fdatasync", int); return is(fd) && op("sync", 0, 1) < 0 ? -1 : f(fd); }
int ftruncate(int fd, off_t n) { REAL(int, "ftruncate", int, off_t); return is(fd) && op("truncate", 0, 1) < 0 ? -1 : f(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(int, "ftruncate64", int, off64_t); return is(fd) && op("truncate", 0, 1) < 0 ? -1 : f(fd, n); }
