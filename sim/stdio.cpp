// C standard I/O, iostream objects, process start-up and exit for the code under test.
#include "kernel.h"

#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <fcntl.h>
#include <istream>
#include <new>
#include <ostream>
#include <streambuf>
#include <sys/stat.h>
#include <unistd.h>

using namespace sim;

#define UUT __attribute__((section("uut_data")))

namespace sim {
extern "C" Proc *sim_running();
extern "C" void sim_run_constructors(int argc, char **argv, char **env);
}

extern "C" {
extern char **sim_environ;
int uut_main(int argc, const char **argv);
ssize_t sim_read(int, void *, size_t);
ssize_t sim_write(int, const void *, size_t);
int sim_close(int);
int sim_open(const char *, int, ...);
off_t sim_lseek(int, off_t, int);
int sim_fstat(int, struct stat *);
void sim__exit(int);
void *sim_malloc(size_t);
void *sim_bufalloc(size_t);
void sim_free(void *);
}

struct SFILE
{
	int fd;
	bool open, rd, wr, eof, err;
	int mode;           // _IOFBF, _IOLBF, _IONBF
	char *buf;
	size_t cap, wlen;   // pending output
	size_t rpos, rlen;  // buffered input
	bool reading;
	SFILE *next;
};

static SFILE std_files[3] UUT = { { 0, true, true, false, false, false, 0, nullptr, 4096, 0, 0, 0, false, nullptr } };
static SFILE *all_files UUT = nullptr;
struct AtExit { void (*fn)(void *); void *arg; };
static AtExit at_exit[256] UUT = { { nullptr, nullptr } };
static int at_exit_count UUT = 0;
static bool exiting UUT = false;

extern "C" {
FILE *sim_stdin UUT = nullptr;
FILE *sim_stdout UUT = nullptr;
FILE *sim_stderr UUT = nullptr;
}

static SFILE *S(FILE *f) { return reinterpret_cast<SFILE *>(f); }

static void initFile(SFILE *f, int fd, bool rd, bool wr, int mode)
{
	f->fd = fd;
	f->open = true;
	f->rd = rd;
	f->wr = wr;
	f->eof = f->err = false;
	f->mode = mode;
	f->buf = nullptr;
	f->cap = 4096;
	f->wlen = f->rpos = f->rlen = 0;
	f->reading = false;
	f->next = all_files;
	all_files = f;
}

static bool rawWrite(SFILE *f, const char *b, size_t n)
{
	while (n)
	{
		ssize_t r = sim_write(f->fd, b, n);
		if (r < 0) { f->err = true; return false; }
		b += r;
		n -= size_t(r);
	}
	return true;
}

static int flushOne(SFILE *f)
{
	if (!f->wlen) return 0;
	size_t n = f->wlen;
	f->wlen = 0;
	return rawWrite(f, f->buf, n) ? 0 : -1;
}

static size_t putBytes(SFILE *f, const char *b, size_t n)
{
	if (!f->open || !f->wr) { f->err = true; errno = EBADF; return 0; }
	size_t total = n;
	if (f->mode == _IONBF) return rawWrite(f, b, n) ? total : 0;
	if (!f->buf) f->buf = static_cast<char *>(sim_bufalloc(f->cap));
	if (!f->buf) { f->err = true; return 0; }
	size_t room = f->cap - f->wlen;
	if (n < room || (n == room && f->wlen))
	{
		memcpy(f->buf + f->wlen, b, n);
		f->wlen += n;
	}
	else
	{
		size_t k = f->wlen ? std::min(n, room) : 0;
		memcpy(f->buf + f->wlen, b, k);
		f->wlen += k;
		b += k;
		n -= k;
		if (flushOne(f)) return total - n;
		size_t whole = n - n % f->cap;
		if (whole)
		{
			if (!rawWrite(f, b, whole)) return total - n;
			b += whole;
			n -= whole;
		}
		memcpy(f->buf, b, n);
		f->wlen = n;
	}
	if (f->mode == _IOLBF && memchr(f->buf, '\n', f->wlen) && flushOne(f)) return 0;
	return total;
}

static bool fillBuf(SFILE *f)
{
	if (f->eof || !f->open || !f->rd) { if (!f->open || !f->rd) f->err = true; return false; }
	if (!f->buf) f->buf = static_cast<char *>(sim_bufalloc(f->cap));
	ssize_t r = sim_read(f->fd, f->buf, f->cap);
	if (r < 0) { f->err = true; return false; }
	if (r == 0) { f->eof = true; return false; }
	f->rpos = 0;
	f->rlen = size_t(r);
	return true;
}

// ---------------------------------------------------------------- iostream objects
class SimBuf : public std::streambuf
{
	SFILE *f;
	int back = -1;

public:
	SimBuf(SFILE *file) : f(file) { }

protected:
	int_type overflow(int_type c) override
	{
		if (c == traits_type::eof()) return sync() ? traits_type::eof() : 0;
		char ch = char(c);
		return putBytes(f, &ch, 1) == 1 ? c : traits_type::eof();
	}
	std::streamsize xsputn(const char *s, std::streamsize n) override { return std::streamsize(putBytes(f, s, size_t(n))); }
	int sync() override { return f->open ? flushOne(f) : -1; }
	int_type underflow() override
	{
		if (f->rpos == f->rlen && !fillBuf(f)) return traits_type::eof();
		return static_cast<unsigned char>(f->buf[f->rpos]);
	}
	int_type uflow() override
	{
		if (f->rpos == f->rlen && !fillBuf(f)) return traits_type::eof();
		return static_cast<unsigned char>(f->buf[f->rpos++]);
	}
};

extern "C" {
alignas(16) char sim__ZSt4cout[sizeof(std::ostream)] UUT = { 0 };
alignas(16) char sim__ZSt4cerr[sizeof(std::ostream)] UUT = { 0 };
alignas(16) char sim__ZSt4clog[sizeof(std::ostream)] UUT = { 0 };
alignas(16) char sim__ZSt3cin[sizeof(std::istream)] UUT = { 0 };
}
alignas(16) static char buf_mem[4][sizeof(SimBuf)] UUT = { { 0 } };

// ---------------------------------------------------------------- start-up
extern "C" void sim_exit(int code);

extern "C" void sim_entry()
{
	Proc *p = sim_running();
	// build argv and environ in the process's own memory
	size_t argc = p->startArgv.size(), envc = p->startEnv.size();
	char **argv = static_cast<char **>(sim_malloc((argc + 1) * sizeof(char *)));
	char **env = static_cast<char **>(sim_malloc((envc + 1) * sizeof(char *)));
	for (size_t i = 0; i < argc; i++)
	{
		argv[i] = static_cast<char *>(sim_malloc(p->startArgv[i].size() + 1));
		memcpy(argv[i], p->startArgv[i].c_str(), p->startArgv[i].size() + 1);
	}
	argv[argc] = nullptr;
	for (size_t i = 0; i < envc; i++)
	{
		env[i] = static_cast<char *>(sim_malloc(p->startEnv[i].size() + 1));
		memcpy(env[i], p->startEnv[i].c_str(), p->startEnv[i].size() + 1);
	}
	env[envc] = nullptr;
	sim_environ = env;
	all_files = nullptr;
	initFile(&std_files[2], 2, false, true, _IONBF);
	initFile(&std_files[1], 1, false, true, _IOFBF);
	initFile(&std_files[0], 0, true, false, _IOFBF);
	sim_stdin = reinterpret_cast<FILE *>(&std_files[0]);
	sim_stdout = reinterpret_cast<FILE *>(&std_files[1]);
	sim_stderr = reinterpret_cast<FILE *>(&std_files[2]);
	at_exit_count = 0;
	exiting = false;
	g_uut = true;
	SimBuf *bi = new (buf_mem[0]) SimBuf(&std_files[0]);
	SimBuf *bo = new (buf_mem[1]) SimBuf(&std_files[1]);
	SimBuf *be = new (buf_mem[2]) SimBuf(&std_files[2]);
	SimBuf *bl = new (buf_mem[3]) SimBuf(&std_files[2]);
	std::istream *ci = new (sim__ZSt3cin) std::istream(bi);
	std::ostream *co = new (sim__ZSt4cout) std::ostream(bo);
	std::ostream *ce = new (sim__ZSt4cerr) std::ostream(be);
	new (sim__ZSt4clog) std::ostream(bl);
	ci->tie(co);
	ce->setf(std::ios_base::unitbuf);
	ce->tie(co);
	sim_run_constructors(int(argc), argv, env);
	sim_exit(uut_main(int(argc), const_cast<const char **>(argv)));
}

extern "C" {

int sim___cxa_atexit(void (*fn)(void *), void *arg, void *)
{
	if (at_exit_count == 256) return -1;
	at_exit[at_exit_count].fn = fn;
	at_exit[at_exit_count].arg = arg;
	at_exit_count++;
	return 0;
}

static void callPlain(void *fn) { reinterpret_cast<void (*)()>(fn)(); }
int sim_atexit(void (*fn)()) { return sim___cxa_atexit(callPlain, reinterpret_cast<void *>(fn), nullptr); }
int sim_at_quick_exit(void (*)()) { return 0; }

int sim_fflush(FILE *f)
{
	if (f) { if (!S(f)->open) { errno = EBADF; return -1; } return flushOne(S(f)); }
	int r = 0;
	for (SFILE *s = all_files; s; s = s->next)
		if (s->open && s->wr && flushOne(s)) r = -1;
	return r;
}

void sim_exit(int code)
{
	while (at_exit_count > 0)
	{
		at_exit_count--;
		at_exit[at_exit_count].fn(at_exit[at_exit_count].arg);
	}
	reinterpret_cast<std::ostream *>(sim__ZSt4cout)->flush();
	sim_fflush(nullptr);
	sim__exit(code);
}

void sim_quick_exit(int code) { sim__exit(code); }

int sim_fclose(FILE *f)
{
	SFILE *s = S(f);
	if (!s->open) { errno = EBADF; return -1; } // undefined in C; harmless for the standard streams in practice
	int r = s->wr ? flushOne(s) : 0;
	s->open = false;
	if (sim_close(s->fd) < 0) r = -1;
	return r;
}

size_t sim_fwrite(const void *b, size_t size, size_t n, FILE *f)
{
	if (!size || !n) return 0;
	size_t r = putBytes(S(f), static_cast<const char *>(b), size * n);
	return r == size * n ? n : r / size;
}
size_t sim_fwrite_unlocked(const void *b, size_t size, size_t n, FILE *f) { return sim_fwrite(b, size, n, f); }

size_t sim_fread(void *b, size_t size, size_t n, FILE *f)
{
	SFILE *s = S(f);
	size_t want = size * n, got = 0;
	while (got < want)
	{
		if (s->rpos == s->rlen && !fillBuf(s)) break;
		size_t k = std::min(want - got, s->rlen - s->rpos);
		memcpy(static_cast<char *>(b) + got, s->buf + s->rpos, k);
		s->rpos += k;
		got += k;
	}
	return size ? got / size : 0;
}

int sim_fputs(const char *t, FILE *f) { size_t n = strlen(t); return putBytes(S(f), t, n) == n ? 1 : EOF; }
int sim_puts(const char *t) { return sim_fputs(t, sim_stdout) == EOF || sim_fputs("\n", sim_stdout) == EOF ? EOF : 1; }
int sim_fputc(int c, FILE *f) { char ch = char(c); return putBytes(S(f), &ch, 1) == 1 ? c : EOF; }
int sim_putc(int c, FILE *f) { return sim_fputc(c, f); }
int sim_putchar(int c) { return sim_fputc(c, sim_stdout); }
int sim_fgetc(FILE *f) { unsigned char c; return sim_fread(&c, 1, 1, f) == 1 ? c : EOF; }
int sim_getc(FILE *f) { return sim_fgetc(f); }
int sim_getchar() { return sim_fgetc(sim_stdin); }
char *sim_fgets(char *b, int n, FILE *f)
{
	int i = 0;
	while (i < n - 1)
	{
		int c = sim_fgetc(f);
		if (c == EOF) break;
		b[i++] = char(c);
		if (c == '\n') break;
	}
	if (!i) return nullptr;
	b[i] = 0;
	return b;
}

int sim_vfprintf(FILE *f, const char *fmt, va_list ap)
{
	char b[4096];
	int n = vsnprintf(b, sizeof b, fmt, ap);
	if (n > int(sizeof b) - 1) n = sizeof b - 1;
	return n < 0 || putBytes(S(f), b, size_t(n)) != size_t(n) ? -1 : n;
}
int sim_fprintf(FILE *f, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vfprintf(f, fmt, ap);
	va_end(ap);
	return r;
}
int sim_printf(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vfprintf(sim_stdout, fmt, ap);
	va_end(ap);
	return r;
}
int sim_vprintf(const char *fmt, va_list ap) { return sim_vfprintf(sim_stdout, fmt, ap); }
void sim_perror(const char *s) { int e = errno; sim_fprintf(sim_stderr, "%s: %s\n", s, strerror(e)); }

static FILE *openFd(int fd, const char *mode)
{
	SFILE *s = static_cast<SFILE *>(sim_bufalloc(sizeof(SFILE)));
	bool plus = strchr(mode, '+') != nullptr;
	initFile(s, fd, mode[0] == 'r' || plus, mode[0] != 'r' || plus, _IOFBF);
	return reinterpret_cast<FILE *>(s);
}

FILE *sim_fopen(const char *path, const char *mode)
{
	bool plus = strchr(mode, '+') != nullptr;
	int fl = mode[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND);
	if (strchr(mode, 'e')) fl |= O_CLOEXEC;
	if (strchr(mode, 'x')) fl |= O_EXCL;
	int fd = sim_open(path, fl, 0666);
	return fd < 0 ? nullptr : openFd(fd, mode);
}
FILE *sim_fopen64(const char *path, const char *mode) { return sim_fopen(path, mode); }
FILE *sim_fdopen(int fd, const char *mode) { return openFd(fd, mode); }

int sim_fseek(FILE *f, long off, int whence)
{
	SFILE *s = S(f);
	if (s->wr && flushOne(s)) return -1;
	if (whence == SEEK_CUR) off -= long(s->rlen - s->rpos);
	if (sim_lseek(s->fd, off, whence) < 0) return -1;
	s->rpos = s->rlen = 0;
	s->eof = false;
	return 0;
}
int sim_fseeko(FILE *f, off_t off, int whence) { return sim_fseek(f, off, whence); }
int sim_fseeko64(FILE *f, off_t off, int whence) { return sim_fseek(f, off, whence); }
void sim_rewind(FILE *f) { (void)sim_fseek(f, 0, SEEK_SET); S(f)->err = false; }
long sim_ftell(FILE *f)
{
	SFILE *s = S(f);
	off_t o = sim_lseek(s->fd, 0, SEEK_CUR);
	return o < 0 ? -1 : long(o) - long(s->rlen - s->rpos) + long(s->wlen);
}
off_t sim_ftello(FILE *f) { return sim_ftell(f); }
off_t sim_ftello64(FILE *f) { return sim_ftell(f); }
int sim_feof(FILE *f) { return S(f)->eof; }
int sim_ferror(FILE *f) { return S(f)->err; }
void sim_clearerr(FILE *f) { S(f)->eof = S(f)->err = false; }
int sim_fileno(FILE *f) { return S(f)->fd; }
int sim_setvbuf(FILE *f, char *, int mode, size_t) { S(f)->mode = mode; return 0; }
void sim_setbuf(FILE *f, char *b) { S(f)->mode = b ? _IOFBF : _IONBF; }


int sim_fputs_unlocked(const char *t, FILE *f) { return sim_fputs(t, f); }
int sim_putchar_unlocked(int c) { return sim_putchar(c); }
int sim_fputc_unlocked(int c, FILE *f) { return sim_fputc(c, f); }
int sim_putc_unlocked(int c, FILE *f) { return sim_fputc(c, f); }
int sim_getc_unlocked(FILE *f) { return sim_fgetc(f); }
int sim_fgetc_unlocked(FILE *f) { return sim_fgetc(f); }
int sim_fflush_unlocked(FILE *f) { return sim_fflush(f); }
size_t sim_fread_unlocked(void *b, size_t s, size_t n, FILE *f) { return sim_fread(b, s, n, f); }
int sim_ungetc(int c, FILE *f)
{
	SFILE *s = S(f);
	if (c == EOF || !s->rpos) return EOF;
	s->buf[--s->rpos] = char(c);
	s->eof = false;
	return c;
}
void sim_setlinebuf(FILE *f) { S(f)->mode = _IOLBF; }
void sim_setbuffer(FILE *f, char *b, size_t) { sim_setbuf(f, b); }
void sim_flockfile(FILE *) { }
void sim_funlockfile(FILE *) { }
int sim_fpurge(FILE *f) { S(f)->wlen = 0; return 0; }

ssize_t sim_getdelim(char **line, size_t *cap, int delim, FILE *f)
{
	size_t n = 0;
	for (;;)
	{
		int c = sim_fgetc(f);
		if (c == EOF) break;
		if (n + 2 > *cap || !*line)
		{
			size_t k = *cap < 60 ? 120 : *cap * 2;
			char *r = static_cast<char *>(sim_malloc(k));
			if (!r) { errno = ENOMEM; return -1; }
			if (*line) { memcpy(r, *line, n); sim_free(*line); }
			*line = r;
			*cap = k;
		}
		(*line)[n++] = char(c);
		if (c == delim) break;
	}
	if (!n) return -1;
	(*line)[n] = 0;
	return ssize_t(n);
}
ssize_t sim_getline(char **line, size_t *cap, FILE *f) { return sim_getdelim(line, cap, '\n', f); }
ssize_t sim___getdelim(char **line, size_t *cap, int delim, FILE *f) { return sim_getdelim(line, cap, delim, f); }

FILE *sim_freopen(const char *path, const char *mode, FILE *f)
{
	SFILE *s = S(f);
	if (!path) { errno = EINVAL; return nullptr; }
	if (s->open) (void)sim_fclose(f);
	FILE *n = sim_fopen(path, mode);
	if (!n) return nullptr;
	SFILE *t = S(n), *next = s->next;
	all_files = t->next;
	*s = *t;
	s->next = next;
	return f;
}

} // extern "C"
