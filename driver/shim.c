/* Stands between the program and libc: keeps a log of what is done to watched
 * files, and makes calls short, interrupted or fail as a plan says. The plan
 * is that of the calling thread. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/uio.h>
#include <unistd.h>

enum { PASS = 0, SHORT = 1, ONCE = 2, STICKY = 3 };
struct step { int op, arg; };
struct seen {
	uint64_t opens, reads, writes, renames, shorts, interrupts, hard, bytes_written, bytes_read, trace;
};
#define STEPS 24
struct plan { struct step s[STEPS]; int n, i; };
static __thread struct {
	int on, reading;
	char prefix[2][600];
	struct plan open, write, read;
	int rename_error;
	unsigned char fd[4096];
	struct seen seen;
} t;

static void *real(const char *name) { return dlsym(RTLD_NEXT, name); }
#define REAL(ret, name, ...) static ret (*f)(__VA_ARGS__); if (!f) f = (ret (*)(__VA_ARGS__))real(name)

static void note(uint64_t what) { t.seen.trace = (t.seen.trace ^ what) * 0x100000001b3ull + 17; }

void shim_begin(const char *a, const char *b, int reading, const struct step *o, int no, const struct step *w, int nw,
	const struct step *r, int nr, int rename_error)
{
	memset(&t, 0, sizeof t);
	strncpy(t.prefix[0], a, sizeof t.prefix[0] - 1);
	strncpy(t.prefix[1], b, sizeof t.prefix[1] - 1);
	t.reading = reading;
	t.open.n = no; t.write.n = nw; t.read.n = nr;
	memcpy(t.open.s, o, no * sizeof *o);
	memcpy(t.write.s, w, nw * sizeof *w);
	memcpy(t.read.s, r, nr * sizeof *r);
	t.rename_error = rename_error;
	t.on = 1;
}

void shim_end(struct seen *out) { t.on = 0; *out = t.seen; }

static int watched(const char *path)
{
	if (!t.on || !path) return 0;
	for (int k = 0; k < 2; k++)
		if (t.prefix[k][0] && !strncmp(path, t.prefix[k], strlen(t.prefix[k]))) return 1;
	return 0;
}

/* What is to happen now: the number of bytes that may be transferred, or -1
 * with errno set. */
static ssize_t next(struct plan *p, size_t n)
{
	struct step s = { PASS, 0 };
	if (p->i < p->n) {
		s = p->s[p->i];
		if (s.op != STICKY) p->i++;
	}
	switch (s.op) {
	case SHORT:
		if (n > (size_t)s.arg && s.arg > 0) { t.seen.shorts++; note(1000 + s.arg); return s.arg; }
		break;
	case ONCE:
		t.seen.interrupts++;
		note(2000 + s.arg);
		errno = s.arg;
		return -1;
	case STICKY:
		t.seen.hard++;
		note(3000 + s.arg);
		errno = s.arg;
		return -1;
	}
	return n;
}

static int opening(const char *path, int flags)
{
	if (!watched(path)) return 0;
	int writes = (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT);
	if (!writes && !t.reading) return 0;
	t.seen.opens++;
	note(10 + writes);
	return next(&t.open, 1) < 0 ? -1 : 1;
}

static int opened(int fd, int w)
{
	if (fd >= 0 && fd < (int)sizeof t.fd) t.fd[fd] = w > 0;
	return fd;
}

#define OPEN(name) \
int name(const char *path, int flags, ...) \
{ \
	va_list ap; va_start(ap, flags); int mode = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); \
	REAL(int, #name, const char *, int, ...); \
	int w = opening(path, flags); \
	if (w < 0) return -1; \
	return opened(f(path, flags, mode), w); \
}
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int dir, const char *path, int flags, ...) \
{ \
	va_list ap; va_start(ap, flags); int mode = (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, int) : 0; va_end(ap); \
	REAL(int, #name, int, const char *, int, ...); \
	int w = opening(path, flags); \
	if (w < 0) return -1; \
	return opened(f(dir, path, flags, mode), w); \
}
OPENAT(openat)
OPENAT(openat64)

static int is(int fd) { return t.on && fd >= 0 && fd < (int)sizeof t.fd && t.fd[fd]; }

int close(int fd)
{
	REAL(int, "close", int);
	if (fd >= 0 && fd < (int)sizeof t.fd) t.fd[fd] = 0;
	return f(fd);
}

static ssize_t wrote(ssize_t n) { if (n > 0) t.seen.bytes_written += n; return n; }
static ssize_t got(ssize_t n) { if (n > 0) t.seen.bytes_read += n; return n; }

ssize_t write(int fd, const void *b, size_t n)
{
	REAL(ssize_t, "write", int, const void *, size_t);
	if (!is(fd)) return f(fd, b, n);
	t.seen.writes++; note(20);
	ssize_t k = next(&t.write, n);
	return k < 0 ? -1 : wrote(f(fd, b, k));
}

#define PWRITE(name) \
ssize_t name(int fd, const void *b, size_t n, off_t o) \
{ \
	REAL(ssize_t, #name, int, const void *, size_t, off_t); \
	if (!is(fd)) return f(fd, b, n, o); \
	t.seen.writes++; note(21); \
	ssize_t k = next(&t.write, n); \
	return k < 0 ? -1 : wrote(f(fd, b, k, o)); \
}
PWRITE(pwrite)
PWRITE(pwrite64)

ssize_t writev(int fd, const struct iovec *v, int c)
{
	REAL(ssize_t, "writev", int, const struct iovec *, int);
	if (!is(fd)) return f(fd, v, c);
	t.seen.writes++; note(22);
	size_t n = 0;
	for (int i = 0; i < c; i++) n += v[i].iov_len;
	ssize_t k = next(&t.write, n);
	if (k < 0) return -1;
	if ((size_t)k == n) return wrote(f(fd, v, c));
	for (int i = 0; i < c; i++)
		if (v[i].iov_len) {
			struct iovec one = { v[i].iov_base, v[i].iov_len < (size_t)k ? v[i].iov_len : (size_t)k };
			return wrote(f(fd, &one, 1));
		}
	return 0;
}

ssize_t read(int fd, void *b, size_t n)
{
	REAL(ssize_t, "read", int, void *, size_t);
	if (!is(fd)) return f(fd, b, n);
	t.seen.reads++; note(30);
	ssize_t k = next(&t.read, n);
	return k < 0 ? -1 : got(f(fd, b, k));
}

#define PREAD(name) \
ssize_t name(int fd, void *b, size_t n, off_t o) \
{ \
	REAL(ssize_t, #name, int, void *, size_t, off_t); \
	if (!is(fd)) return f(fd, b, n, o); \
	t.seen.reads++; note(31); \
	ssize_t k = next(&t.read, n); \
	return k < 0 ? -1 : got(f(fd, b, k, o)); \
}
PREAD(pread)
PREAD(pread64)

ssize_t readv(int fd, const struct iovec *v, int c)
{
	REAL(ssize_t, "readv", int, const struct iovec *, int);
	if (!is(fd)) return f(fd, v, c);
	t.seen.reads++; note(32);
	ssize_t k = next(&t.read, 1 << 30);
	if (k < 0) return -1;
	for (int i = 0; i < c; i++)
		if (v[i].iov_len) {
			struct iovec one = { v[i].iov_base, v[i].iov_len < (size_t)k ? v[i].iov_len : (size_t)k };
			return got(f(fd, &one, 1));
		}
	return f(fd, v, c);
}

#define SENDFILE(name) \
ssize_t name(int out, int in, off_t *o, size_t n) \
{ \
	REAL(ssize_t, #name, int, int, off_t *, size_t); \
	if (!is(out)) return f(out, in, o, n); \
	t.seen.writes++; note(23); \
	ssize_t k = next(&t.write, n); \
	return k < 0 ? -1 : wrote(f(out, in, o, k)); \
}
SENDFILE(sendfile)
SENDFILE(sendfile64)

ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned fl)
{
	REAL(ssize_t, "copy_file_range", int, off64_t *, int, off64_t *, size_t, unsigned);
	if (!is(out)) return f(in, oi, out, oo, n, fl);
	t.seen.writes++; note(24);
	ssize_t k = next(&t.write, n);
	return k < 0 ? -1 : wrote(f(in, oi, out, oo, k, fl));
}

static int renaming(const char *to)
{
	if (!watched(to)) return 0;
	t.seen.renames++; note(40);
	if (!t.rename_error) return 0;
	t.seen.hard++;
	errno = t.rename_error;
	return -1;
}

int rename(const char *a, const char *b)
{
	REAL(int, "rename", const char *, const char *);
	return renaming(b) ? -1 : f(a, b);
}
int renameat(int x, const char *a, int y, const char *b)
{
	REAL(int, "renameat", int, const char *, int, const char *);
	return renaming(b) ? -1 : f(x, a, y, b);
}
int renameat2(int x, const char *a, int y, const char *b, unsigned fl)
{
	REAL(int, "renameat2", int, const char *, int, const char *, unsigned);
	return renaming(b) ? -1 : f(x, a, y, b, fl);
}
