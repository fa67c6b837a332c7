// System calls and libc functions as seen by the code under test (every impure symbol X it refers to is linked to sim_X).
#include "kernel.h"

#include <algorithm>
#include <cstdarg>
#include <cstdlib>
#include <dirent.h>
#include <fcntl.h>
#include <limits.h>
#include <netinet/in.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/times.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <pthread.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

namespace sim {
extern "C" Proc *sim_running();
extern "C" void sim_crash(const char *what, int sig);
}

#define UUT __attribute__((section("uut_data")))

extern "C" {
char **sim_environ UUT = nullptr;
}

// ---------------------------------------------------------------- entering and leaving the kernel
static void deliverSignals(Proc *p)
{
	for (uint64_t m; (m = p->sigPending & ~p->sigMask) != 0;)
	{
		int s = __builtin_ctzll(m);
		p->sigPending &= ~(1ull << s);
		sighandler_t h = p->sig[s].h;
		int flags = p->sig[s].flags;
		uint64_t mask = p->sig[s].mask;
		if (h == SIG_IGN && s != SIGKILL) continue;
		if (h == SIG_DFL || s == SIGKILL)
		{
			if (s == SIGCHLD || s == SIGURG || s == SIGWINCH || s == SIGCONT) continue;
			p->request = REQ_EXIT;
			p->status = s;
			ctxExitNow();
		}
		uint64_t old = p->sigMask;
		p->sigMask |= mask | (flags & SA_NODEFER ? 0 : 1ull << s);
		if (flags & int(SA_RESETHAND)) p->sig[s] = SigAct();
		logEvent(p, "runs handler of signal %d", s);
		siginfo_t si;
		memset(&si, 0, sizeof si);
		si.si_signo = s;
		g_uut = true;
		if (flags & SA_SIGINFO) reinterpret_cast<void (*)(int, siginfo_t *, void *)>(h)(s, &si, nullptr);
		else h(s);
		g_uut = false;
		p->sigMask = old;
		p->handlersRun++;
		if (!(flags & SA_RESTART)) p->handlerRestart = false;
	}
}

static Proc *enter(Sys k, int &inj)
{
	g_uut = false;
	Proc *p = sim_running();
	p->request = REQ_YIELD;
	uint64_t node = uint64_t(p->role) * 64 + uint64_t(k);
	if (W->prevNode != node || W->prevSerial != p->serial)
	{
		W->edges.insert(W->prevNode * 4096 + node * 2 + (W->prevSerial != p->serial));
		if (W->prevSerial != p->serial) W->shape = (W->shape ^ (node * 131 + uint64_t(p->serial))) * 0x100000001b3ULL;
		W->prevNode = node;
		W->prevSerial = p->serial;
	}
	ctxYield();
	deliverSignals(p);
	W->st.syscalls++;
	inj = W->obs->onSyscall(p, k);
	return p;
}

static long leave(Proc *p, Sys k, long r)
{
	hashMix((uint64_t(p->serial) << 40) ^ (uint64_t(k) << 32) ^ uint64_t(r));
	if (W->traceOn && k != SYS_poll_ && k != SYS_other_) logEvent(p, "%s = %ld", sysName(k), r);
	deliverSignals(p);
	if (r < 0) { errno = int(-r); r = -1; }
	g_uut = true;
	return r;
}

// Blocks until the wait condition may hold; returns true when a signal handler ran meanwhile.
static bool blockWait(Proc *p)
{
	uint64_t h = p->handlersRun;
	p->handlerRestart = true;
	p->state = BLOCKED;
	p->request = REQ_YIELD;
	ctxYield();
	p->wait.kind = Wait::NONE;
	p->wait.deadline = NEVER;
	deliverSignals(p);
	return p->handlersRun != h;
}

// Accounts for a return from a waiting call that found nothing to do.
static void idleWake(Proc *p)
{
	if (p->bufferedFrames > 0) { p->bufferedFrames--; return; }
	if (W->now - p->pollWindowStart > SEC) { p->pollWindowStart = W->now; p->pollsInRow = 0; }
	if (++p->pollsInRow > W->k.spinThreshold)
	{
		if (!p->spinning) { p->spinning = true; logEvent(p, "is spinning"); W->obs->onSpin(p, p->pollsInRow); }
	}
}

static void throttle(Proc *p)
{
	if (!p->spinning) return;
	p->wait.kind = Wait::SLEEP;
	p->wait.deadline = W->now + MS;
	p->wait.interruptible = true;
	blockWait(p);
}

static void didWork(Proc *p)
{
	progress(p);
	p->spinning = false;
}

// What a process sends over a connection must stem from data it took from its streams (or from its request): otherwise it is idle chatter.
static int64_t &wireCredit(Proc *p)
{
	if (p->wireCredit < 0)
	{
		p->wireCredit = 8192;
		if (p->role == R_CLIENT)
			for (auto *v : { &p->startArgv, &p->startEnv })
				for (auto &x : *v) p->wireCredit += int64_t(x.size()) * 2 + 64;
	}
	return p->wireCredit;
}

static void didRead(Proc *p, File *f, size_t n)
{
	didWork(p);
	if (f->type == File::SOCK) p->bufferedFrames = 2 * (int64_t(n) / 5 + 1); // each may come with a poll and a write to a full pipe
	wireCredit(p) += f->type == File::SOCK ? int64_t(n) / 4 : int64_t(n) + 64;
}

static void didWrite(Proc *p, File *f, size_t n)
{
	if (f->type == File::SOCK)
	{
		int64_t &c = wireCredit(p);
		if (c < int64_t(n)) { c = 0; W->lastProgress = W->now; return; }
		c -= int64_t(n);
	}
	didWork(p);
}

static File *getFile(Proc *p, int fd)
{
	return fd < 0 || size_t(fd) >= p->fds.size() ? nullptr : p->fds[size_t(fd)].f;
}

#define ENTER(kind) int inj = 0; const Sys K = kind; Proc *p = enter(K, inj); (void)K
#define LEAVE(r) return decltype(ret())(leave(p, K, long(r)))
#define RET(type) auto ret = []() -> type { return type(); }; (void)ret

static int rdPollFile(File *f) { return kPollFile(f); }

static int doPollOnce(Proc *p, struct pollfd *fds, nfds_t n)
{
	int cnt = 0;
	for (nfds_t i = 0; i < n; i++)
	{
		fds[i].revents = 0;
		if (fds[i].fd < 0) continue;
		File *f = getFile(p, fds[i].fd);
		if (!f) fds[i].revents = POLLNVAL;
		else fds[i].revents = short(rdPollFile(f) & (fds[i].events | POLLERR | POLLHUP));
		if (fds[i].revents) cnt++;
	}
	return cnt;
}

static long pollCommon(Proc *p, struct pollfd *fds, nfds_t n, Time timeout)
{
	throttle(p);
	if (timeout != 0) p->bufferedFrames = 0; // it waits for more
	Time deadline = timeout < 0 ? NEVER : timeout > NEVER - W->now ? NEVER : W->now + timeout;
	for (;;)
	{
		int cnt = doPollOnce(p, fds, n);
		if (cnt || timeout == 0 || W->now >= deadline)
		{
			if (timeout != 0 || !cnt) idleWake(p);
			return cnt;
		}
		p->wait.kind = Wait::POLL;
		p->wait.pfds.assign(fds, fds + n);
		p->wait.deadline = deadline;
		p->wait.interruptible = true;
		W->obs->onBlockedPoll(p);
		if (blockWait(p))
		{
			cnt = doPollOnce(p, fds, n);
			if (cnt) return cnt;
			return -EINTR;
		}
	}
}

// Blocking read/write loops. kind selects the operation.
static long readCommon(Proc *p, File *f, void *buf, size_t n, bool nonblock, bool waitAll, Sys k, int inj)
{
	if (inj == -1 && n > 1) { n = 1 + chFault.draw(uint32_t(std::min(n - 1, size_t(64)))); fault("short-read"); waitAll = false; }
	size_t got = 0;
	if (f->type == File::REG && f->ino)
	{
		Inode *i = f->ino;
		if (i->readErrAt >= 0)
		{
			if (int64_t(f->off) >= i->readErrAt) { fault("file-read-error"); if (p->session && f->tag == std::string("client-stdin-file")) W->obs->onInputError(p); return -EIO; }
			n = std::min(n, size_t(i->readErrAt - int64_t(f->off)));
		}
		if (i->readMax && n > i->readMax) { n = i->readMax; fault("file-short-read"); }
	}
	for (;;)
	{
		ssize_t r = kRead(p, f, static_cast<char *>(buf) + got, n - got);
		if (r > 0)
		{
			didRead(p, f, size_t(r));
			got += size_t(r);
			if (!waitAll || got == n) return long(got);
			continue;
		}
		if (r == 0)
		{
			if (!f->eofSeen) { f->eofSeen = true; wireCredit(p) += 64; }
			return long(got);
		}
		if (r != -EAGAIN) return got ? long(got) : r;
		if (nonblock) { if (!got) idleWake(p); return got ? long(got) : -EAGAIN; }
		p->wait.kind = Wait::READ;
		p->wait.file = f;
		p->wait.interruptible = true;
		if (blockWait(p) && !p->handlerRestart) return got ? long(got) : -EINTR;
	}
	(void)k;
}

static long writeCommon(Proc *p, File *f, const void *buf, size_t n, bool nonblock, bool nosignal, int inj)
{
	if (inj == -1 && n > 1) { n = 1 + chFault.draw(uint32_t(std::min(n - 1, size_t(4096)))); fault("short-write"); }
	size_t done = 0;
	for (;;)
	{
		ssize_t r = kWrite(p, f, static_cast<const char *>(buf) + done, n - done, nosignal);
		if (r > 0)
		{
			didWrite(p, f, size_t(r));
			done += size_t(r);
			if (done == n || f->type == File::REG) return long(done);
			continue;
		}
		if (r == 0) return long(done);
		if (r != -EAGAIN) return done ? long(done) : r;
		if (nonblock) { if (!done) idleWake(p); return done ? long(done) : -EAGAIN; }
		p->wait.kind = Wait::WRITE;
		p->wait.file = f;
		p->wait.need = f->type == File::PIPE_W && n - done <= 4096 ? n - done : 1;
		p->wait.interruptible = true;
		if (f->type == File::SOCK) probe("send-blocked");
		else probe("write-blocked");
		if (blockWait(p) && !p->handlerRestart) return done ? long(done) : -EINTR;
	}
}

// The only file of /proc that exists
static const char *procPath(Proc *p, const char *path) { return strcmp(path, "/proc/self/exe") ? path : p->exePath.c_str(); }

static long openCommon(Proc *p, const char *path, int flags, mode_t mode, int inj)
{
	if (inj > 0) return -inj;
	std::string canon;
	int err = 0;
	Inode *n = lookup(p->ct, p->cwd, procPath(p, path), (flags & O_NOFOLLOW) == 0 && !((flags & O_CREAT) && (flags & O_EXCL)), &canon, &err);
	bool created = false;
	if (!n)
	{
		if (err != ENOENT || !(flags & O_CREAT) || canon.empty()) return -err;
		size_t s = canon.rfind('/');
		Inode *dir = lookup(p->ct, "/", s ? canon.substr(0, s) : "/", true, nullptr, &err);
		if (!dir) return -err;
		if (path[strlen(path) - 1] == '/') return -EISDIR;
		n = mkNode(Inode::REG, int(mode & ~mode_t(p->umask)) & 07777);
		n->creatorPid = p->pid;
		dir->ents[canon.substr(s + 1)] = n;
		created = true;
		W->obs->onFs(p, FS_CREATE, canon, nullptr, n);
	}
	else
	{
		if ((flags & O_CREAT) && (flags & O_EXCL)) return -EEXIST;
		if (n->type == Inode::LNK) return -ELOOP;
	}
	if (n->type == Inode::DIR)
	{
		if ((flags & O_ACCMODE) != O_RDONLY) return -EISDIR;
		File *f = newFile(File::DIR);
		f->ino = n;
		n->openCount++;
		return allocFd(p, f, flags & O_CLOEXEC);
	}
	if (flags & O_DIRECTORY) return -ENOTDIR;
	if ((flags & O_ACCMODE) != O_RDONLY && n->running > 0) return -ETXTBSY;
	if (!created && (flags & O_ACCMODE) != O_RDONLY && n->type == Inode::REG && !(n->mode & 0222) && n->denyWrite) return -EACCES;
	if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY && n->type == Inode::REG && !created)
	{
		W->obs->onFs(p, FS_TRUNC, canon, n, n);
		n->data.clear();
	}
	File *f = newFile(n->type == Inode::NUL ? File::NUL : n->type == Inode::FULL ? File::FULL : File::REG);
	f->ino = n;
	f->flags = flags & (O_ACCMODE | O_APPEND | O_NONBLOCK);
	n->openCount++;
	if (W->traceOn) logEvent(p, "open %s flags %o", canon.c_str(), flags);
	return allocFd(p, f, flags & O_CLOEXEC);
}

// Splits a path into its directory inode and last component (the component itself is not followed).
static Inode *parentDir(Proc *p, const char *path, std::string &name, std::string &canon, int &err)
{
	std::string s = path;
	while (s.size() > 1 && s.back() == '/') s.pop_back();
	size_t i = s.rfind('/');
	name = i == std::string::npos ? s : s.substr(i + 1);
	std::string d = i == std::string::npos ? "." : i == 0 ? "/" : s.substr(0, i);
	if (s.empty()) { err = ENOENT; return nullptr; }
	if (name == "." || name == ".." || name.empty()) { err = EINVAL; return nullptr; }
	Inode *dir = lookup(p->ct, p->cwd, d, true, &canon, &err);
	if (!dir) return nullptr;
	if (dir->type != Inode::DIR) { err = ENOTDIR; return nullptr; }
	canon = canon == "/" ? "/" + name : canon + "/" + name;
	return dir;
}

static void fillStat(Inode *n, struct stat *st)
{
	memset(st, 0, sizeof *st);
	st->st_ino = ino_t(n->id);
	st->st_dev = 1;
	st->st_nlink = nlink_t(n->nlink);
	st->st_size = off_t(n->data.size());
	st->st_blksize = 4096;
	switch (n->type)
	{
	case Inode::DIR: st->st_mode = S_IFDIR; break;
	case Inode::REG: st->st_mode = S_IFREG; break;
	case Inode::LNK: st->st_mode = S_IFLNK; break;
	default: st->st_mode = S_IFCHR; break;
	}
	st->st_mode |= mode_t(n->mode);
}

extern "C" {

// ---------------------------------------------------------------- polling and plain I/O
int sim_poll(struct pollfd *fds, nfds_t n, int timeout)
{
	RET(int); ENTER(SYS_poll_);
	if (inj > 0) LEAVE(-inj);
	LEAVE(pollCommon(p, fds, n, timeout < 0 ? -1 : Time(timeout) * MS));
}

int sim_ppoll(struct pollfd *fds, nfds_t n, const struct timespec *ts, const sigset_t *)
{
	RET(int); ENTER(SYS_poll_);
	if (inj > 0) LEAVE(-inj);
	LEAVE(pollCommon(p, fds, n, ts ? Time(ts->tv_sec) * SEC + ts->tv_nsec : -1));
}

int sim_select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
	RET(int); ENTER(SYS_poll_);
	if (inj > 0) LEAVE(-inj);
	struct pollfd pf[64];
	int n = 0;
	for (int i = 0; i < nfds && n < 64; i++)
	{
		short ev = 0;
		if (r && FD_ISSET(i, r)) ev |= POLLIN;
		if (w && FD_ISSET(i, w)) ev |= POLLOUT;
		if (ev) { pf[n].fd = i; pf[n].events = ev; n++; }
	}
	long c = pollCommon(p, pf, nfds_t(n), tv ? Time(tv->tv_sec) * SEC + Time(tv->tv_usec) * US : -1);
	if (c >= 0)
	{
		c = 0;
		if (e) FD_ZERO(e);
		for (int i = 0; i < n; i++)
		{
			if (pf[i].revents & POLLNVAL) LEAVE(-EBADF);
			bool rd = pf[i].revents & (POLLIN | POLLHUP | POLLERR), wr = pf[i].revents & (POLLOUT | POLLERR);
			if (r && (pf[i].events & POLLIN)) { if (rd) c++; else FD_CLR(pf[i].fd, r); }
			if (w && (pf[i].events & POLLOUT)) { if (wr) c++; else FD_CLR(pf[i].fd, w); }
		}
	}
	LEAVE(c);
}

// (reading and writing a socket is the same whichever call is used)
static bool isSocket(int fd)
{
	File *f = getFile(sim_running(), fd);
	return f && f->type == File::SOCK;
}

ssize_t sim_read(int fd, void *buf, size_t n)
{
	RET(ssize_t); ENTER(fd >= 0 && isSocket(fd) ? SYS_recv_ : SYS_read_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (inj > 0) LEAVE(-inj);
	LEAVE(readCommon(p, f, buf, n, f->flags & O_NONBLOCK, false, K, inj));
}

ssize_t sim_write(int fd, const void *buf, size_t n)
{
	RET(ssize_t); ENTER(fd >= 0 && isSocket(fd) ? SYS_send_ : SYS_write_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (inj > 0) LEAVE(-inj);
	LEAVE(writeCommon(p, f, buf, n, f->flags & O_NONBLOCK, false, inj));
}

ssize_t sim_readv(int fd, const struct iovec *v, int c)
{
	for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len);
	return sim_read(fd, nullptr, 0);
}

ssize_t sim_writev(int fd, const struct iovec *v, int c)
{
	ssize_t t = 0;
	for (int i = 0; i < c; i++)
	{
		if (!v[i].iov_len) continue;
		ssize_t r = sim_write(fd, v[i].iov_base, v[i].iov_len);
		if (r < 0) return t ? t : r;
		t += r;
		if (size_t(r) < v[i].iov_len) break;
	}
	return t;
}

ssize_t sim_recvfrom(int fd, void *buf, size_t n, int flags, struct sockaddr *, socklen_t *)
{
	RET(ssize_t); ENTER(SYS_recv_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (f->type != File::SOCK) LEAVE(-ENOTSOCK);
	if (inj > 0) LEAVE(-inj);
	if (flags & MSG_PEEK)
	{
		for (;;)
		{
			Sock *s = f->sock;
			if (!s->rcvq.empty()) { size_t k = std::min(n, s->rcvq.size()); memcpy(buf, s->rcvq.data(), k); LEAVE(k); }
			if (s->soErr) { int e = s->soErr; s->soErr = 0; LEAVE(-e); }
			if (s->finRcvd || s->shutR || s->dead) LEAVE(0);
			if ((f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT)) { idleWake(p); LEAVE(-EAGAIN); }
			p->wait.kind = Wait::READ;
			p->wait.file = f;
			p->wait.interruptible = true;
			if (blockWait(p) && !p->handlerRestart) LEAVE(-EINTR);
		}
	}
	LEAVE(readCommon(p, f, buf, n, (f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT), flags & MSG_WAITALL, K, inj));
}

ssize_t sim_recv(int fd, void *buf, size_t n, int flags) { return sim_recvfrom(fd, buf, n, flags, nullptr, nullptr); }

ssize_t sim_sendto(int fd, const void *buf, size_t n, int flags, const struct sockaddr *, socklen_t)
{
	RET(ssize_t); ENTER(SYS_send_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (f->type != File::SOCK) LEAVE(-ENOTSOCK);
	if (inj > 0) LEAVE(-inj);
	LEAVE(writeCommon(p, f, buf, n, (f->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT), flags & MSG_NOSIGNAL, inj));
}

ssize_t sim_send(int fd, const void *buf, size_t n, int flags) { return sim_sendto(fd, buf, n, flags, nullptr, 0); }

int sim_close(int fd)
{
	RET(int); ENTER(SYS_close_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (inj > 0 && inj != EINTR && f->type == File::REG && f->ino && (f->flags & O_ACCMODE) != O_RDONLY && !f->ino->data.empty())
	{
		// the error reports that data written earlier could not be stored
		size_t lost = std::min<size_t>(f->ino->data.size(), 1 + f->ino->data.size() % 4096);
		f->ino->data.resize(f->ino->data.size() - lost);
		probe("close-lost-data");
	}
	// An orderly close of a connection to itself is a simultaneous close: the port remains in use
	if (f->type == File::SOCK && f->refs == 1 && f->sock->self && !f->sock->abortOnClose && f->sock->rcvq.empty()) f->sock->selfLingers = true;
	closeFd(p, fd);
	if (inj > 0) LEAVE(-inj);
	LEAVE(0);
}

int sim_pipe2(int *fds, int flags)
{
	RET(int); ENTER(SYS_pipe_);
	if (inj > 0) LEAVE(-inj);
	Pipe *q = newPipe(W->k.pipeCap);
	q->creator = p;
	q->creatorPid = p->pid;
	q->uut = true;
	File *r = newFile(File::PIPE_R), *w = newFile(File::PIPE_W);
	r->pipe = w->pipe = q;
	r->flags = O_RDONLY | (flags & O_NONBLOCK);
	w->flags = O_WRONLY | (flags & O_NONBLOCK);
	fds[0] = allocFd(p, r, flags & O_CLOEXEC);
	fds[1] = allocFd(p, w, flags & O_CLOEXEC);
	LEAVE(0);
}

int sim_pipe(int *fds) { return sim_pipe2(fds, 0); }

int sim_dup2(int a, int b)
{
	RET(int); ENTER(SYS_dup_);
	File *f = getFile(p, a);
	if (!f || b < 0 || b > 1023) LEAVE(-EBADF);
	if (inj > 0) LEAVE(-inj);
	if (a != b) setFd(p, b, f, false);
	LEAVE(b);
}

int sim_dup3(int a, int b, int flags)
{
	RET(int); ENTER(SYS_dup_);
	File *f = getFile(p, a);
	if (!f || b < 0 || b > 1023) LEAVE(-EBADF);
	if (a == b) LEAVE(-EINVAL);
	if (inj > 0) LEAVE(-inj);
	setFd(p, b, f, flags & O_CLOEXEC);
	LEAVE(b);
}

int sim_dup(int a)
{
	RET(int); ENTER(SYS_dup_);
	File *f = getFile(p, a);
	if (!f) LEAVE(-EBADF);
	if (inj > 0) LEAVE(-inj);
	LEAVE(allocFd(p, f, false));
}

int sim_fcntl(int fd, int cmd, ...)
{
	RET(int);
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	ENTER(SYS_fcntl_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (inj > 0) LEAVE(-inj);
	switch (cmd)
	{
	case F_GETFL: LEAVE(f->flags);
	case F_SETFL: f->flags = (f->flags & O_ACCMODE) | (int(arg) & (O_NONBLOCK | O_APPEND)); LEAVE(0);
	case F_GETFD: LEAVE(p->fds[size_t(fd)].cloexec ? FD_CLOEXEC : 0);
	case F_SETFD: p->fds[size_t(fd)].cloexec = arg & FD_CLOEXEC; LEAVE(0);
	case F_DUPFD: LEAVE(allocFd(p, f, false, int(arg)));
	case F_DUPFD_CLOEXEC: LEAVE(allocFd(p, f, true, int(arg)));
	case 1031: // F_SETPIPE_SZ
	case 1032: // F_GETPIPE_SZ
		if (!f->pipe) LEAVE(-EBADF);
		LEAVE(long(f->pipe->cap));
	default: LEAVE(-EINVAL);
	}
}
int sim_fcntl64(int fd, int cmd, ...)
{
	va_list ap;
	va_start(ap, cmd);
	long arg = va_arg(ap, long);
	va_end(ap);
	return sim_fcntl(fd, cmd, arg);
}

int sim_ioctl(int fd, unsigned long req, ...)
{
	RET(int);
	va_list ap;
	va_start(ap, req);
	int *arg = va_arg(ap, int *);
	va_end(ap);
	ENTER(SYS_fcntl_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (req == FIONREAD)
	{
		*arg = f->sock ? int(f->sock->rcvq.size()) : f->pipe ? int(f->pipe->q.size()) : 0;
		LEAVE(0);
	}
	if (req == FIONBIO) { f->flags = *arg ? f->flags | O_NONBLOCK : f->flags & ~O_NONBLOCK; LEAVE(0); }
	LEAVE(-ENOTTY);
}

// ---------------------------------------------------------------- sockets
int sim_socket(int, int type, int)
{
	RET(int); ENTER(SYS_socket_);
	if (inj > 0) LEAVE(-inj);
	File *f = newFile(File::SOCK);
	f->sock = newSock(p);
	f->flags = O_RDWR | (type & SOCK_NONBLOCK ? O_NONBLOCK : 0);
	LEAVE(allocFd(p, f, type & SOCK_CLOEXEC));
}

int sim_setsockopt(int fd, int level, int name, const void *v, socklen_t)
{
	RET(int); ENTER(SYS_other_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (!f->sock) LEAVE(-ENOTSOCK);
	if (level == SOL_SOCKET && name == SO_REUSEADDR) f->sock->reuse = *static_cast<const int *>(v) != 0;
	if (level == SOL_SOCKET && name == SO_LINGER)
	{
		const struct linger *l = static_cast<const struct linger *>(v);
		f->sock->abortOnClose = l->l_onoff && l->l_linger == 0;
	}
	LEAVE(0);
}

int sim_getsockopt(int fd, int level, int name, void *v, socklen_t *len)
{
	RET(int); ENTER(SYS_other_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (!f->sock) LEAVE(-ENOTSOCK);
	int r = 0;
	if (level == SOL_SOCKET && name == SO_ERROR) { r = f->sock->soErr; f->sock->soErr = 0; }
	else if (level == SOL_SOCKET && name == SO_REUSEADDR) r = f->sock->reuse;
	*static_cast<int *>(v) = r;
	*len = sizeof(int);
	LEAVE(0);
}

int sim_bind(int fd, const struct sockaddr *a, socklen_t)
{
	RET(int); ENTER(SYS_bind_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (!f->sock) LEAVE(-ENOTSOCK);
	if (inj > 0) LEAVE(-inj);
	const struct sockaddr_in *in = reinterpret_cast<const struct sockaddr_in *>(a);
	f->sock->bindAddr = ntohl(in->sin_addr.s_addr);
	int port = ntohs(in->sin_port);
	if (port == 0) port = W->nextPort++;
	int r = kBind(f->sock, port);
	if (r == -EADDRINUSE)
		for (auto &q : W->procs) // a process the killed predecessor had only just forked (or that stalls) still holds the port
			if (q.get() != p && q->uut && alive(q.get()) && q->role == R_HANDLER && (q->stalledUntil > W->now || W->now < q->startAt + SEC / 2))
				for (auto &e : q->fds)
					if (e.f && e.f->sock && e.f->sock->listening && e.f->sock->port == port) { p->bindRace = true; probe("bind-races-dying-generation"); }
	LEAVE(r);
}

int sim_listen(int fd, int backlog)
{
	RET(int); ENTER(SYS_listen_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (!f->sock) LEAVE(-ENOTSOCK);
	if (inj > 0) LEAVE(-inj);
	if (!f->sock->bound) kBind(f->sock, W->nextPort++);
	if (portListening(f->sock->port) && !f->sock->listening) LEAVE(-EADDRINUSE);
	f->sock->listening = true;
	W->obs->onListen(p, f->sock);
	f->sock->backlogMax = size_t(backlog < 0 ? 0 : backlog);
	f->sock->uutListener = true;
	LEAVE(0);
}

int sim_accept4(int fd, struct sockaddr *a, socklen_t *len, int flags)
{
	RET(int); ENTER(SYS_accept_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (!f->sock) LEAVE(-ENOTSOCK);
	if (!f->sock->listening) LEAVE(-EINVAL);
	if (inj > 0)
	{
		if (inj == ECONNABORTED && !f->sock->backlog.empty())
		{
			Sock *s = f->sock->backlog.front();
			f->sock->backlog.pop_front();
			s->open = false;
			sockReset(s);
		}
		idleWake(p);
		LEAVE(-inj);
	}
	while (f->sock->backlog.empty())
	{
		if ((f->flags & O_NONBLOCK)) { idleWake(p); LEAVE(-EAGAIN); }
		p->wait.kind = Wait::ACCEPT;
		p->wait.file = f;
		p->wait.interruptible = true;
		if (blockWait(p) && !p->handlerRestart) LEAVE(-EINTR);
	}
	Sock *s = f->sock->backlog.front();
	f->sock->backlog.pop_front();
	s->queued = false;
	s->acceptIndex = W->acceptCounter++;
	File *c = newFile(File::SOCK);
	c->sock = s;
	c->flags = O_RDWR | (flags & SOCK_NONBLOCK ? O_NONBLOCK : 0);
	p->lastAccepted = s;
	didWork(p);
	W->obs->onAccept(p, s);
	if (a && len) { memset(a, 0, *len); a->sa_family = AF_INET; }
	LEAVE(allocFd(p, c, flags & SOCK_CLOEXEC));
}

int sim_accept(int fd, struct sockaddr *a, socklen_t *len) { return sim_accept4(fd, a, len, 0); }

int sim_connect(int fd, const struct sockaddr *a, socklen_t)
{
	RET(int); ENTER(SYS_connect_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (!f->sock) LEAVE(-ENOTSOCK);
	p->connectAttempts++;
	p->lastConnectAt = W->now;
	p->connectTimes.push_back(W->now);
	if (inj > 0) { idleWake(p); W->obs->onConnect(p, f->sock, false); LEAVE(-inj); }
	int port = ntohs(reinterpret_cast<const struct sockaddr_in *>(a)->sin_port);
	uint32_t addr = ntohl(reinterpret_cast<const struct sockaddr_in *>(a)->sin_addr.s_addr);
	if (f->sock->connected) LEAVE(-EISCONN);
	if (addr >> 24 != 127 && addr != 0) LEAVE(-ENETUNREACH);
	Time give = W->now + 127 * SEC;
	for (;;)
	{
		int r = kConnectStart(p, f->sock, addr ? addr : INADDR_LOOPBACK, port);
		if (r == 0) { didWork(p); W->obs->onConnect(p, f->sock, !f->sock->self); LEAVE(0); }
		if (r != -EAGAIN) { idleWake(p); W->obs->onConnect(p, f->sock, false); LEAVE(r); }
		if (W->now >= give) LEAVE(-ETIMEDOUT);
		p->wait.kind = Wait::CONNECT;
		p->wait.pid = port;
		p->wait.deadline = give;
		p->wait.interruptible = true;
		if (blockWait(p) && !p->handlerRestart) LEAVE(-EINTR);
	}
}

int sim_shutdown(int fd, int how)
{
	RET(int); ENTER(SYS_shutdown_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (!f->sock) LEAVE(-ENOTSOCK);
	if (f->sock->listening && how != SHUT_WR) { kUnlisten(f->sock); LEAVE(0); }
	if (!f->sock->connected) LEAVE(-ENOTCONN);
	kShutdown(f->sock, how);
	LEAVE(0);
}

int sim_getsockname(int fd, struct sockaddr *a, socklen_t *len)
{
	RET(int); ENTER(SYS_other_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (!f->sock) LEAVE(-ENOTSOCK);
	struct sockaddr_in in;
	memset(&in, 0, sizeof in);
	in.sin_family = AF_INET;
	in.sin_port = htons(uint16_t(f->sock->connected && !f->sock->isServerSide && !f->sock->self ? f->sock->sourcePort : f->sock->port));
	in.sin_addr.s_addr = htonl(0x7f000001);
	memcpy(a, &in, std::min(size_t(*len), sizeof in));
	*len = sizeof in;
	LEAVE(0);
}

int sim_getpeername(int fd, struct sockaddr *a, socklen_t *len)
{
	RET(int); ENTER(SYS_other_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (!f->sock) LEAVE(-ENOTSOCK);
	Sock *s = f->sock;
	if (!s->connected || !s->peer || s->dead) LEAVE(-ENOTCONN);
	struct sockaddr_in in;
	memset(&in, 0, sizeof in);
	in.sin_family = AF_INET;
	in.sin_port = htons(uint16_t(s->isServerSide ? s->peer->sourcePort : s->peer->port));
	in.sin_addr.s_addr = htonl(0x7f000001);
	memcpy(a, &in, std::min(size_t(*len), sizeof in));
	*len = sizeof in;
	LEAVE(0);
}

// ---------------------------------------------------------------- processes and signals
pid_t sim_fork()
{
	RET(pid_t); ENTER(SYS_fork_);
	if (inj > 0) LEAVE(-inj);
	p->request = REQ_FORK;
	ctxYield();
	p = sim_running(); // parent and child both resume here
	deliverSignals(p);
	LEAVE(p->forkResult);
}

pid_t sim_vfork() { return sim_fork(); }

static std::vector<std::string> strv(char *const *v)
{
	std::vector<std::string> r;
	while (v && *v) r.push_back(*v++);
	return r;
}

static int doExec(Proc *p, const char *path, char *const *argv, char *const *env)
{
	p->execPath = path;
	p->startArgv = strv(argv);
	p->startEnv = strv(env);
	p->request = REQ_EXEC;
	ctxYield();
	return p->forkResult;
}

int sim_execve(const char *path, char *const argv[], char *const env[])
{
	RET(int); ENTER(SYS_exec_);
	if (inj > 0) LEAVE(-inj);
	LEAVE(-doExec(p, path, argv, env));
}

int sim_execv(const char *path, char *const argv[]) { return sim_execve(path, argv, sim_environ); }

static const char *envGet(char **env, const char *name)
{
	size_t n = strlen(name);
	for (; env && *env; env++)
		if (!strncmp(*env, name, n) && (*env)[n] == '=') return *env + n + 1;
	return nullptr;
}

int sim_execvpe(const char *file, char *const argv[], char *const env[])
{
	RET(int); ENTER(SYS_exec_);
	if (inj > 0) LEAVE(-inj);
	if (!*file) LEAVE(-ENOENT);
	if (strchr(file, '/')) LEAVE(-doExec(p, file, argv, env));
	const char *path = envGet(sim_environ, "PATH");
	if (!path) path = "/bin:/usr/bin";
	bool acc = false;
	for (const char *s = path;;)
	{
		const char *e = strchr(s, ':');
		size_t n = e ? size_t(e - s) : strlen(s);
		char full[PATH_MAX];
		if (n + strlen(file) + 2 < sizeof full)
		{
			memcpy(full, s, n);
			if (n) full[n++] = '/';
			strcpy(full + n, file);
			int r = doExec(p, full, argv, env);
			if (r == EACCES) acc = true;
			else if (r != ENOENT && r != ENOTDIR && r != ELOOP && r != ENAMETOOLONG) LEAVE(-r);
		}
		if (!e) break;
		s = e + 1;
	}
	LEAVE(acc ? -EACCES : -ENOENT);
}

int sim_execvp(const char *file, char *const argv[]) { return sim_execvpe(file, argv, sim_environ); }

static pid_t waitCommon(Proc *p, pid_t pid, int *status, int options)
{
	for (;;)
	{
		bool any = false;
		for (Proc *c : W->live)
		{
			if (c->ppid != p->pid || (pid > 0 && c->pid != pid)) continue;
			if (c->state == ZOMBIE)
			{
				int r = c->pid;
				if (status) *status = c->status;
				if (options & WNOWAIT) return r;
				c->state = GONE;
				p->reapedPids.insert(r);
				W->byPid.erase(r);
				W->live.erase(std::find(W->live.begin(), W->live.end(), c));
				didWork(p);
				return r;
			}
			any = true;
		}
		if (!any) return -ECHILD;
		if (options & WNOHANG) return 0;
		p->wait.kind = Wait::CHILD;
		p->wait.pid = pid;
		p->wait.interruptible = true;
		W->obs->onBlockedPoll(p);
		if (blockWait(p) && !p->handlerRestart) return -EINTR;
	}
}

pid_t sim_waitpid(pid_t pid, int *status, int options)
{
	RET(pid_t); ENTER(SYS_waitpid_);
	if (inj > 0) LEAVE(-inj);
	LEAVE(waitCommon(p, pid, status, options));
}

int sim_waitid(idtype_t type, id_t id, siginfo_t *info, int options)
{
	RET(int); ENTER(SYS_waitpid_);
	if (inj > 0) LEAVE(-inj);
	if ((type != P_PID && type != P_ALL) || !(options & WEXITED)) LEAVE(-EINVAL);
	int status = 0;
	pid_t r = waitCommon(p, type == P_PID ? pid_t(id) : -1, &status, options & (WNOHANG | WNOWAIT));
	if (r < 0) LEAVE(r);
	if (info)
	{
		memset(info, 0, sizeof *info);
		if (r > 0)
		{
			info->si_signo = SIGCHLD;
			info->si_pid = r;
			info->si_code = WIFEXITED(status) ? CLD_EXITED : WCOREDUMP(status) ? CLD_DUMPED : CLD_KILLED;
			info->si_status = WIFEXITED(status) ? WEXITSTATUS(status) : WTERMSIG(status);
		}
	}
	LEAVE(0);
}

pid_t sim_wait(int *status) { return sim_waitpid(-1, status, 0); }
pid_t sim_wait4(pid_t pid, int *status, int options, struct rusage *) { return sim_waitpid(pid, status, options); }

int sim_kill(pid_t pid, int sig)
{
	RET(int); ENTER(SYS_kill_);
	if (sig < 0 || sig > 64) LEAVE(-EINVAL);
	int n = 0;
	// a group, everything, or one process
	Proc *targets[64];
	for (Proc *t : W->live)
	{
		bool hit = pid > 0 ? t->pid == pid : pid == 0 ? t->pgid == p->pgid : pid == -1 ? t != p && t->ct == p->ct : t->pgid == -pid;
		if (hit && n < 64) targets[n++] = t;
	}
	for (int i = 0; i < n; i++)
	{
		Proc *t = targets[i];
		KillRec k { p, pid, t, sig, t->ppid == p->pid, p->reapedPids.count(t->pid) && t->ppid != p->pid, W->now };
		if (sig) { W->obs->onKill(k); sendSignal(t, sig, p); }
	}
	if (!n)
	{
		if (sig) { KillRec k { p, pid, nullptr, sig, false, p->reapedPids.count(pid) != 0, W->now }; W->obs->onKill(k); }
		LEAVE(-ESRCH);
	}
	LEAVE(0);
}

int sim_raise(int sig) { return sim_kill(sim_running()->pid, sig); }

int sim_sigaction(int sig, const struct sigaction *sa, struct sigaction *old)
{
	RET(int); ENTER(SYS_signal_);
	if (sig < 1 || sig > 64) LEAVE(-EINVAL);
	SigAct &a = p->sig[sig];
	SigAct was = a;
	if (sa)
	{
		if (sig == SIGKILL || sig == SIGSTOP) LEAVE(-EINVAL);
		a.h = sa->sa_handler;
		a.flags = sa->sa_flags;
		memcpy(&a.mask, &sa->sa_mask, 8);
		a.mask <<= 1; // sigset bit n-1 -> bit n
		if (a.h == SIG_IGN) p->sigPending &= ~(1ull << sig);
	}
	if (old)
	{
		memset(old, 0, sizeof *old);
		old->sa_handler = was.h;
		old->sa_flags = was.flags;
		uint64_t m = was.mask >> 1;
		memcpy(&old->sa_mask, &m, 8);
	}
	LEAVE(0);
}

sighandler_t sim_signal(int sig, sighandler_t h)
{
	ENTER(SYS_signal_);
	if (sig < 1 || sig > 64 || sig == SIGKILL || sig == SIGSTOP) { leave(p, K, -EINVAL); return SIG_ERR; }
	sighandler_t old = p->sig[sig].h;
	p->sig[sig].h = h;
	p->sig[sig].flags = SA_RESTART;
	p->sig[sig].mask = 0;
	if (h == SIG_IGN) p->sigPending &= ~(1ull << sig);
	leave(p, K, 0);
	return old;
}

int sim_sigprocmask(int how, const sigset_t *set, sigset_t *old)
{
	RET(int); ENTER(SYS_signal_);
	uint64_t was = p->sigMask >> 1;
	if (set)
	{
		uint64_t m;
		memcpy(&m, set, 8);
		m <<= 1;
		if (how == SIG_BLOCK) p->sigMask |= m;
		else if (how == SIG_UNBLOCK) p->sigMask &= ~m;
		else p->sigMask = m;
		p->sigMask &= ~(1ull << SIGKILL | 1ull << SIGSTOP);
	}
	if (old) { memset(old, 0, sizeof *old); memcpy(old, &was, 8); }
	LEAVE(0);
}

int sim_pthread_sigmask(int how, const sigset_t *set, sigset_t *old) { return sim_sigprocmask(how, set, old); }

int sim_sigpending(sigset_t *set)
{
	RET(int); ENTER(SYS_signal_);
	uint64_t v = p->sigPending >> 1;
	memset(set, 0, sizeof *set);
	memcpy(set, &v, 8);
	LEAVE(0);
}

pid_t sim_getpid() { return sim_running()->pid; }
pid_t sim_getppid() { return sim_running()->ppid; }
uid_t sim_getuid() { return 0; }
uid_t sim_geteuid() { return 0; }
gid_t sim_getgid() { return 0; }
gid_t sim_getegid() { return 0; }
pthread_t sim_pthread_self() { return pthread_t(0x1000); }

pid_t sim_setsid()
{
	RET(pid_t); ENTER(SYS_setsid_);
	if (inj > 0) LEAVE(-inj);
	if (p->pgid == p->pid) LEAVE(-EPERM);
	p->sid = p->pgid = p->pid;
	LEAVE(p->pid);
}

pid_t sim_getsid(pid_t) { return sim_running()->sid; }
pid_t sim_getpgrp() { return sim_running()->pgid; }
int sim_setpgid(pid_t pid, pid_t pg)
{
	RET(int); ENTER(SYS_other_);
	Proc *t = pid ? findPid(pid) : p;
	if (!t) LEAVE(-ESRCH);
	t->pgid = pg ? pg : t->pid;
	LEAVE(0);
}

mode_t sim_umask(mode_t m)
{
	Proc *p = sim_running();
	mode_t o = mode_t(p->umask);
	p->umask = int(m & 0777);
	return o;
}

void sim__exit(int code)
{
	ENTER(SYS_exit_);
	p->request = REQ_EXIT;
	p->status = (code & 0xff) << 8;
	p->exitRequested = true;
	ctxExitNow();
}

void sim__Exit(int code) { sim__exit(code); }

void sim_abort()
{
	ENTER(SYS_exit_);
	p->request = REQ_EXIT;
	p->status = SIGABRT;
	p->exitRequested = true;
	ctxExitNow();
}

void sim___stack_chk_fail() { g_uut = false; sim_crash("stack smashing detected", SIGABRT); }
void sim___assert_fail(const char *, const char *, unsigned, const char *) { sim_abort(); }

// ---------------------------------------------------------------- time
static void sleepUntil(Proc *p, Time t, Time *left)
{
	while (W->now < t)
	{
		p->wait.kind = Wait::SLEEP;
		p->wait.deadline = t;
		p->wait.interruptible = true;
		W->obs->onBlockedPoll(p);
		if (blockWait(p)) break;
	}
	*left = t > W->now ? t - W->now : 0;
	idleWake(p);
}

int sim_nanosleep(const struct timespec *ts, struct timespec *rem)
{
	RET(int); ENTER(SYS_sleep_);
	if (ts->tv_sec < 0 || ts->tv_nsec < 0 || ts->tv_nsec > 999999999) LEAVE(-EINVAL);
	Time left = 0;
	throttle(p);
	Time start = W->now;
	Time d = ts->tv_sec > 4000000000L ? 4000000000L * SEC : Time(ts->tv_sec) * SEC + ts->tv_nsec;
	if (inj == EINTR) { d /= 2; sleepUntil(p, start + d, &left); left = Time(ts->tv_sec) * SEC + ts->tv_nsec - d; }
	else sleepUntil(p, start + d, &left);
	if (left > 0)
	{
		if (rem) { rem->tv_sec = left / SEC; rem->tv_nsec = left % SEC; }
		LEAVE(-EINTR);
	}
	LEAVE(0);
}

int sim_clock_nanosleep(clockid_t, int flags, const struct timespec *ts, struct timespec *rem)
{
	if (flags & TIMER_ABSTIME)
	{
		timespec d;
		Time t = Time(ts->tv_sec) * SEC + ts->tv_nsec - (W->now + 1000 * SEC);
		if (t < 0) t = 0;
		d.tv_sec = t / SEC;
		d.tv_nsec = t % SEC;
		return sim_nanosleep(&d, nullptr) ? errno : 0;
	}
	return sim_nanosleep(ts, rem) ? errno : 0;
}

int sim_usleep(useconds_t us)
{
	timespec d;
	d.tv_sec = us / 1000000;
	d.tv_nsec = long(us % 1000000) * 1000;
	return sim_nanosleep(&d, nullptr);
}

unsigned sim_sleep(unsigned s)
{
	timespec d, r;
	d.tv_sec = s;
	d.tv_nsec = 0;
	r.tv_sec = 0;
	r.tv_nsec = 0;
	return sim_nanosleep(&d, &r) ? unsigned(r.tv_sec) : 0;
}

static const Time STEADY_BASE = 1000 * SEC;
static const Time WALL_BASE = 1700000000ll * SEC;

int sim_clock_gettime(clockid_t c, struct timespec *ts)
{
	Time t = c == CLOCK_REALTIME ? WALL_BASE + W->now + W->wallOffset : STEADY_BASE + W->now;
	ts->tv_sec = t / SEC;
	ts->tv_nsec = t % SEC;
	return 0;
}

int sim_gettimeofday(struct timeval *tv, void *)
{
	Time t = WALL_BASE + W->now + W->wallOffset;
	tv->tv_sec = t / SEC;
	tv->tv_usec = t % SEC / 1000;
	return 0;
}

time_t sim_time(time_t *o)
{
	time_t t = (WALL_BASE + W->now + W->wallOffset) / SEC;
	if (o) *o = t;
	return t;
}

int64_t sim__ZNSt6chrono3_V212steady_clock3nowEv() { return STEADY_BASE + W->now; }
int64_t sim__ZNSt6chrono3_V212system_clock3nowEv() { return WALL_BASE + W->now + W->wallOffset; }

// ---------------------------------------------------------------- files
int sim_open(const char *path, int flags, ...)
{
	RET(int);
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = mode_t(va_arg(ap, int)); va_end(ap); }
	ENTER(SYS_open_);
	LEAVE(openCommon(p, path, flags, mode, inj));
}

int sim_open64(const char *path, int flags, ...)
{
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = mode_t(va_arg(ap, int)); va_end(ap); }
	return sim_open(path, flags, mode);
}

int sim_openat(int, const char *path, int flags, ...)
{
	mode_t mode = 0;
	if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = mode_t(va_arg(ap, int)); va_end(ap); }
	return sim_open(path, flags, mode);
}

int sim_creat(const char *path, mode_t mode) { return sim_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

off_t sim_lseek(int fd, off_t off, int whence)
{
	RET(off_t); ENTER(SYS_other_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	if (f->type != File::REG) LEAVE(-ESPIPE);
	off_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? off_t(f->off) : off_t(f->ino->data.size());
	if (b + off < 0) LEAVE(-EINVAL);
	f->off = size_t(b + off);
	LEAVE(f->off);
}
off_t sim_lseek64(int fd, off_t off, int whence) { return sim_lseek(fd, off, whence); }

int sim_ftruncate(int fd, off_t n)
{
	RET(int); ENTER(SYS_other_);
	File *f = getFile(p, fd);
	if (!f || f->type != File::REG || (f->flags & O_ACCMODE) == O_RDONLY) LEAVE(-EINVAL);
	W->obs->onFs(p, FS_TRUNC, "", f->ino, f->ino);
	f->ino->data.resize(size_t(n), '\0');
	LEAVE(0);
}
int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }

int sim_fsync(int fd)
{
	RET(int); ENTER(SYS_other_);
	if (!getFile(p, fd)) LEAVE(-EBADF);
	LEAVE(0);
}
int sim_fdatasync(int fd) { return sim_fsync(fd); }

int sim_fstat(int fd, struct stat *st)
{
	RET(int); ENTER(SYS_stat_);
	File *f = getFile(p, fd);
	if (!f) LEAVE(-EBADF);
	memset(st, 0, sizeof *st);
	st->st_blksize = 4096;
	if (f->ino) fillStat(f->ino, st);
	else { st->st_mode = f->sock ? S_IFSOCK | 0777 : S_IFIFO | 0600; st->st_ino = ino_t(f->pipe ? f->pipe->id : f->sock->id); }
	LEAVE(0);
}
int sim_fstat64(int fd, struct stat *st) { return sim_fstat(fd, st); }

static int statPath(const char *path, struct stat *st, bool follow)
{
	RET(int); ENTER(SYS_stat_);
	int err;
	Inode *n = lookup(p->ct, p->cwd, follow ? procPath(p, path) : path, follow, nullptr, &err);
	if (!n) LEAVE(-err);
	fillStat(n, st);
	LEAVE(0);
}
int sim_stat(const char *path, struct stat *st) { return statPath(path, st, true); }
int sim_stat64(const char *path, struct stat *st) { return statPath(path, st, true); }
int sim_lstat(const char *path, struct stat *st) { return statPath(path, st, false); }
int sim_lstat64(const char *path, struct stat *st) { return statPath(path, st, false); }

int sim_access(const char *path, int mode)
{
	RET(int); ENTER(SYS_stat_);
	int err;
	Inode *n = lookup(p->ct, p->cwd, procPath(p, path), true, nullptr, &err);
	if (!n) LEAVE(-err);
	if ((mode & X_OK) && n->type == Inode::REG && !(n->mode & 0111)) LEAVE(-EACCES);
	LEAVE(0);
}

int sim_chmod(const char *path, mode_t m)
{
	RET(int); ENTER(SYS_other_);
	int err;
	std::string c;
	Inode *n = lookup(p->ct, p->cwd, path, true, &c, &err);
	if (!n) LEAVE(-err);
	n->mode = int(m & 07777);
	W->obs->onFs(p, FS_CHMOD, c, n, n);
	LEAVE(0);
}

int sim_fchmod(int fd, mode_t m)
{
	RET(int); ENTER(SYS_other_);
	File *f = getFile(p, fd);
	if (!f || !f->ino) LEAVE(-EBADF);
	f->ino->mode = int(m & 07777);
	LEAVE(0);
}

int sim_unlink(const char *path)
{
	RET(int); ENTER(SYS_unlink_);
	if (inj > 0) LEAVE(-inj);
	std::string name, canon;
	int err = 0;
	Inode *d = parentDir(p, path, name, canon, err);
	if (!d) LEAVE(-err);
	auto it = d->ents.find(name);
	if (it == d->ents.end()) LEAVE(-ENOENT);
	Inode *n = it->second;
	if (n->type == Inode::DIR) LEAVE(-EISDIR);
	logEvent(p, "unlink %s", canon.c_str());
	d->ents.erase(it);
	n->nlink--;
	W->obs->onFs(p, FS_UNLINK, canon, n, nullptr);
	LEAVE(0);
}
int sim_remove(const char *path) { return sim_unlink(path); }

int sim_symlink(const char *target, const char *path)
{
	RET(int); ENTER(SYS_symlink_);
	if (inj > 0) LEAVE(-inj);
	std::string name, canon;
	int err = 0;
	Inode *d = parentDir(p, path, name, canon, err);
	if (!d) LEAVE(-err);
	if (d->ents.count(name)) LEAVE(-EEXIST);
	if (!*target) LEAVE(-ENOENT);
	Inode *n = mkNode(Inode::LNK, 0777);
	n->data = target;
	n->creatorPid = p->pid;
	d->ents[name] = n;
	logEvent(p, "symlink %s -> %s", canon.c_str(), target);
	W->obs->onFs(p, FS_SYMLINK, canon, nullptr, n);
	LEAVE(0);
}

static int linkPath(const char *from, const char *to, bool follow)
{
	RET(int); ENTER(SYS_link_);
	if (inj > 0) LEAVE(-inj);
	int err = 0;
	std::string name, canon;
	Inode *n = lookup(p->ct, p->cwd, follow ? procPath(p, from) : from, follow, nullptr, &err);
	if (!n) LEAVE(-err);
	if (n->type == Inode::DIR) LEAVE(-EPERM);
	Inode *d = parentDir(p, to, name, canon, err);
	if (!d) LEAVE(-err);
	if (d->ents.count(name)) LEAVE(-EEXIST);
	d->ents[name] = n;
	n->nlink++;
	W->obs->onFs(p, FS_LINK, canon, nullptr, n);
	LEAVE(0);
}

int sim_link(const char *from, const char *to) { return linkPath(from, to, false); }

int sim_rename(const char *from, const char *to)
{
	RET(int); ENTER(SYS_rename_);
	if (inj > 0) LEAVE(-inj);
	std::string fn, fc, tn, tc;
	int err = 0;
	Inode *fd = parentDir(p, from, fn, fc, err);
	if (!fd) LEAVE(-err);
	auto it = fd->ents.find(fn);
	if (it == fd->ents.end()) LEAVE(-ENOENT);
	Inode *td = parentDir(p, to, tn, tc, err);
	if (!td) LEAVE(-err);
	Inode *n = it->second;
	auto jt = td->ents.find(tn);
	Inode *old = jt == td->ents.end() ? nullptr : jt->second;
	if (old == n) LEAVE(0);
	if (old && old->type == Inode::DIR) LEAVE(-EISDIR);
	fd->ents.erase(it);
	td->ents[tn] = n;
	if (old) old->nlink--;
	W->obs->onFs(p, FS_RENAME, tc, old, n);
	W->obs->onFs(p, FS_UNLINK, fc, n, nullptr);
	LEAVE(0);
}

ssize_t sim_readlink(const char *path, char *buf, size_t n)
{
	RET(ssize_t); ENTER(SYS_readlink_);
	if (inj > 0) LEAVE(-inj);
	std::string t;
	if (!strcmp(path, "/proc/self/exe")) t = p->exePath;
	else
	{
		int err;
		Inode *i = lookup(p->ct, p->cwd, path, false, nullptr, &err);
		if (!i) LEAVE(-err);
		if (i->type != Inode::LNK) LEAVE(-EINVAL);
		t = i->data;
	}
	size_t k = std::min(n, t.size());
	memcpy(buf, t.data(), k);
	LEAVE(k);
}

int sim_mkdir(const char *path, mode_t m)
{
	RET(int); ENTER(SYS_other_);
	std::string name, canon;
	int err = 0;
	Inode *d = parentDir(p, path, name, canon, err);
	if (!d) LEAVE(-err);
	if (d->ents.count(name)) LEAVE(-EEXIST);
	d->ents[name] = mkNode(Inode::DIR, int(m) & ~p->umask);
	W->obs->onFs(p, FS_MKDIR, canon, nullptr, d->ents[name]);
	LEAVE(0);
}

int sim_chdir(const char *path)
{
	RET(int); ENTER(SYS_chdir_);
	if (inj > 0) LEAVE(-inj);
	int err;
	std::string c;
	Inode *n = lookup(p->ct, p->cwd, path, true, &c, &err);
	if (!n) LEAVE(-err);
	if (n->type != Inode::DIR) LEAVE(-ENOTDIR);
	p->cwd = c;
	LEAVE(0);
}

char *sim_getcwd(char *buf, size_t n)
{
	ENTER(SYS_getcwd_);
	if (!inj && !lookup(p->ct, "/", p->cwd, true)) inj = ENOENT; // it has been removed
	if (inj > 0) { leave(p, K, -inj); return nullptr; }
	size_t need = p->cwd.size() + 1;
	if (buf && !n) { leave(p, K, -EINVAL); return nullptr; }
	if ((buf || n) && need > n) { leave(p, K, -ERANGE); return nullptr; }
	if (!buf) buf = static_cast<char *>(arenaAlloc(n ? n : need));
	if (!buf) { leave(p, K, -ENOMEM); return nullptr; }
	memcpy(buf, p->cwd.c_str(), need);
	leave(p, K, 0);
	return buf;
}
char *sim_get_current_dir_name() { return sim_getcwd(nullptr, 0); }

char *sim_realpath(const char *path, char *buf)
{
	ENTER(SYS_getcwd_);
	int err;
	std::string c;
	if (!path) { leave(p, K, -EINVAL); return nullptr; }
	Inode *n = lookup(p->ct, p->cwd, procPath(p, path), true, &c, &err);
	if (inj > 0) { n = nullptr; err = inj; }
	if (!n) { std::string().swap(c); leave(p, K, -err); return nullptr; }
	if (!buf) buf = static_cast<char *>(arenaAlloc(c.size() + 1));
	if (!buf) { std::string().swap(c); leave(p, K, -ENOMEM); return nullptr; }
	strcpy(buf, c.c_str());
	std::string().swap(c);
	leave(p, K, 0);
	return buf;
}
char *sim_canonicalize_file_name(const char *path) { return sim_realpath(path, nullptr); }

int sim_gethostname(char *buf, size_t n)
{
	Proc *p = sim_running();
	size_t k = p->ct->hostname.size();
	if (k + 1 > n) { errno = ENAMETOOLONG; return -1; }
	memcpy(buf, p->ct->hostname.c_str(), k + 1);
	return 0;
}

int sim_uname(struct utsname *u)
{
	Proc *p = sim_running();
	memset(u, 0, sizeof *u);
	strcpy(u->sysname, "Linux");
	strcpy(u->machine, "x86_64");
	strncpy(u->nodename, p->ct->hostname.c_str(), sizeof u->nodename - 1);
	return 0;
}

long sim_sysconf(int name) { return name == _SC_OPEN_MAX ? 1024 : name == _SC_PAGESIZE ? 4096 : -1; }
int sim_isatty(int) { errno = ENOTTY; return 0; }

ssize_t sim_sendfile(int out, int in, off_t *off, size_t n)
{
	if (off) { errno = EINVAL; return -1; }
	char buf[4096];
	ssize_t r = sim_read(in, buf, std::min(n, sizeof buf));
	if (r <= 0) return r;
	return sim_write(out, buf, size_t(r));
}
ssize_t sim_sendfile64(int out, int in, off_t *off, size_t n) { return sim_sendfile(out, in, off, n); }

ssize_t sim_copy_file_range(int in, off64_t *inOff, int out, off64_t *outOff, size_t n, unsigned flags)
{
	if (inOff || outOff || flags) { errno = EINVAL; return -1; }
	return sim_sendfile(out, in, nullptr, n);
}

// ---------------------------------------------------------------- memory and environment
void *sim_malloc(size_t n)
{
	bool u = g_uut;
	g_uut = false;
	void *r = arenaAlloc(n);
	g_uut = u;
	if (!r) errno = ENOMEM;
	return r;
}
// Buffers of standard streams are never subject to injected allocation failures (glibc falls back to unbuffered streams).
void *sim_bufalloc(size_t n) { bool u = g_uut; g_uut = false; void *r = arenaAlloc(n, false); g_uut = u; return r; }
void sim_free(void *q) { bool u = g_uut; g_uut = false; arenaFree(q); g_uut = u; }
void *sim_calloc(size_t a, size_t b) { void *r = sim_malloc(a * b); if (r) memset(r, 0, a * b); return r; }
void *sim_realloc(void *q, size_t n)
{
	if (!q) return sim_malloc(n);
	void *r = sim_malloc(n);
	if (r) { memcpy(r, q, std::min(n, arenaSize(q))); sim_free(q); }
	return r;
}
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = static_cast<char *>(sim_malloc(n)); if (r) memcpy(r, s, n); return r; }

char *sim_getenv(const char *name) { return const_cast<char *>(envGet(sim_environ, name)); }
char *sim_secure_getenv(const char *name) { return sim_getenv(name); }

int sim_unsetenv(const char *name)
{
	size_t n = strlen(name);
	char **o = sim_environ;
	for (char **e = sim_environ; e && *e; e++)
		if (!(!strncmp(*e, name, n) && (*e)[n] == '=')) *o++ = *e;
	if (o) *o = nullptr;
	return 0;
}

int sim_setenv(const char *name, const char *value, int overwrite)
{
	if (sim_getenv(name))
	{
		if (!overwrite) return 0;
		sim_unsetenv(name);
	}
	size_t c = 0;
	while (sim_environ && sim_environ[c]) c++;
	char **e = static_cast<char **>(sim_malloc((c + 2) * sizeof(char *)));
	size_t a = strlen(name), b = strlen(value);
	char *s = static_cast<char *>(sim_malloc(a + b + 2));
	if (!e || !s) return -1;
	if (c) memcpy(e, sim_environ, c * sizeof(char *));
	memcpy(s, name, a);
	s[a] = '=';
	memcpy(s + a + 1, value, b + 1);
	e[c] = s;
	e[c + 1] = nullptr;
	sim_environ = e;
	return 0;
}

int sim_clearenv() { sim_environ = nullptr; return 0; }


// ---------------------------------------------------------------- further functions a changed program may use
static int pathOnly(int dir, const char *path) { return dir == AT_FDCWD || path[0] == '/'; }
#define NEEDS_PATH(d, x) do { if (!pathOnly(d, x)) { errno = ENOTDIR; return -1; } } while (0)

int sim_unlinkat(int d, const char *path, int flags) { NEEDS_PATH(d, path); if (flags) { errno = EINVAL; return -1; } return sim_unlink(path); }
int sim_linkat(int d, const char *a, int e, const char *b, int flags)
{
	NEEDS_PATH(d, a); NEEDS_PATH(e, b);
	return linkPath(a, b, (flags & AT_SYMLINK_FOLLOW) != 0);
}
int sim_symlinkat(const char *t, int d, const char *path) { NEEDS_PATH(d, path); return sim_symlink(t, path); }
int sim_renameat(int d, const char *a, int e, const char *b) { NEEDS_PATH(d, a); NEEDS_PATH(e, b); return sim_rename(a, b); }
int sim_mkdirat(int d, const char *a, mode_t m) { NEEDS_PATH(d, a); return sim_mkdir(a, m); }
ssize_t sim_readlinkat(int d, const char *a, char *b, size_t n) { NEEDS_PATH(d, a); return sim_readlink(a, b, n); }
int sim_fstatat(int d, const char *path, struct stat *st, int flags) { NEEDS_PATH(d, path); return statPath(path, st, !(flags & AT_SYMLINK_NOFOLLOW)); }
int sim_fstatat64(int d, const char *path, struct stat *st, int flags) { return sim_fstatat(d, path, st, flags); }
int sim_faccessat(int d, const char *path, int mode, int) { NEEDS_PATH(d, path); return sim_access(path, mode); }
int sim_euidaccess(const char *path, int mode) { return sim_access(path, mode); }
int sim_eaccess(const char *path, int mode) { return sim_access(path, mode); }

int sim_rmdir(const char *path)
{
	RET(int); ENTER(SYS_unlink_);
	if (inj > 0) LEAVE(-inj);
	std::string name, canon;
	int err = 0;
	Inode *d = parentDir(p, path, name, canon, err);
	if (!d) LEAVE(-err);
	auto it = d->ents.find(name);
	if (it == d->ents.end()) LEAVE(-ENOENT);
	if (it->second->type != Inode::DIR) LEAVE(-ENOTDIR);
	if (!it->second->ents.empty()) LEAVE(-ENOTEMPTY);
	Inode *n = it->second;
	d->ents.erase(it);
	W->obs->onFs(p, FS_UNLINK, canon, n, nullptr);
	LEAVE(0);
}

int sim_truncate(const char *path, off_t n)
{
	int fd = sim_open(path, O_WRONLY);
	if (fd < 0) return -1;
	int r = sim_ftruncate(fd, n);
	sim_close(fd);
	return r;
}

ssize_t sim_pread(int fd, void *b, size_t n, off_t o)
{
	off_t was = sim_lseek(fd, 0, SEEK_CUR);
	if (was < 0 || sim_lseek(fd, o, SEEK_SET) < 0) return -1;
	ssize_t r = sim_read(fd, b, n);
	sim_lseek(fd, was, SEEK_SET);
	return r;
}
ssize_t sim_pread64(int fd, void *b, size_t n, off_t o) { return sim_pread(fd, b, n, o); }
ssize_t sim_pwrite(int fd, const void *b, size_t n, off_t o)
{
	off_t was = sim_lseek(fd, 0, SEEK_CUR);
	if (was < 0 || sim_lseek(fd, o, SEEK_SET) < 0) return -1;
	ssize_t r = sim_write(fd, b, n);
	sim_lseek(fd, was, SEEK_SET);
	return r;
}
ssize_t sim_pwrite64(int fd, const void *b, size_t n, off_t o) { return sim_pwrite(fd, b, n, o); }

ssize_t sim_recvmsg(int fd, struct msghdr *m, int flags)
{
	m->msg_controllen = 0;
	m->msg_flags = 0;
	for (size_t i = 0; i < size_t(m->msg_iovlen); i++)
		if (m->msg_iov[i].iov_len) return sim_recv(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, flags);
	return sim_recv(fd, nullptr, 0, flags);
}
ssize_t sim_sendmsg(int fd, const struct msghdr *m, int flags)
{
	ssize_t t = 0;
	for (size_t i = 0; i < size_t(m->msg_iovlen); i++)
	{
		if (!m->msg_iov[i].iov_len) continue;
		ssize_t r = sim_send(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, flags);
		if (r < 0) return t ? t : r;
		t += r;
		if (size_t(r) < m->msg_iov[i].iov_len) break;
	}
	return t;
}

int sim_pselect(int nfds, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const sigset_t *)
{
	struct timeval tv;
	if (ts) { tv.tv_sec = ts->tv_sec; tv.tv_usec = (ts->tv_nsec + 999) / 1000; }
	return sim_select(nfds, r, w, e, ts ? &tv : nullptr);
}

pid_t sim_wait3(int *status, int options, struct rusage *) { return sim_waitpid(-1, status, options); }
int sim_killpg(pid_t g, int sig) { return sim_kill(g ? -g : 0, sig); }
int sim_sigqueue(pid_t pid, int sig, const union sigval) { return sim_kill(pid, sig); }
int sim_siginterrupt(int sig, int on)
{
	Proc *p = sim_running();
	if (on) p->sig[sig].flags &= ~SA_RESTART; else p->sig[sig].flags |= SA_RESTART;
	return 0;
}

int sim_sigsuspend(const sigset_t *set)
{
	RET(int); ENTER(SYS_sleep_);
	uint64_t was = p->sigMask, m;
	memcpy(&m, set, 8);
	p->sigMask = (m << 1) & ~(1ull << SIGKILL | 1ull << SIGSTOP);
	deliverSignals(p);
	p->wait.kind = Wait::SLEEP;
	p->wait.deadline = NEVER;
	p->wait.interruptible = true;
	W->obs->onBlockedPoll(p);
	(void)blockWait(p);
	p->sigMask = was;
	LEAVE(-EINTR);
}
int sim_pause()
{
	RET(int); ENTER(SYS_sleep_);
	p->wait.kind = Wait::SLEEP;
	p->wait.deadline = NEVER;
	p->wait.interruptible = true;
	W->obs->onBlockedPoll(p);
	(void)blockWait(p);
	LEAVE(-EINTR);
}
int sim_sched_yield() { RET(int); ENTER(SYS_other_); idleWake(p); throttle(p); LEAVE(0); }

int sim_close_range(unsigned a, unsigned b, int)
{
	RET(int); ENTER(SYS_close_);
	for (unsigned i = a; i <= b && i < p->fds.size(); i++) if (getFile(p, int(i))) closeFd(p, int(i));
	LEAVE(0);
}
void sim_closefrom(int a) { (void)sim_close_range(unsigned(a), ~0u, 0); }

#define COLLECT_ARGS(first) \
	char *argv[256]; \
	int c = 0; \
	argv[c++] = const_cast<char *>(first); \
	va_list ap; \
	va_start(ap, first); \
	while (c < 255 && argv[c - 1]) argv[c++] = va_arg(ap, char *); \
	argv[255] = nullptr
int sim_execl(const char *path, const char *a0, ...) { COLLECT_ARGS(a0); va_end(ap); return sim_execv(path, argv); }
int sim_execlp(const char *file, const char *a0, ...) { COLLECT_ARGS(a0); va_end(ap); return sim_execvp(file, argv); }
int sim_execle(const char *path, const char *a0, ...) { COLLECT_ARGS(a0); char **e = va_arg(ap, char **); va_end(ap); return sim_execve(path, argv, e); }

int sim_flock(int, int) { return 0; }
int sim_lockf(int, int, off_t) { return 0; }
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
void sim_sync() { }
int sim_getpagesize() { return 4096; }
pid_t sim_getpgid(pid_t pid) { Proc *t = pid ? findPid(pid) : sim_running(); if (!t) { errno = ESRCH; return -1; } return t->pgid; }
int sim_getrlimit(int, struct rlimit *r) { reinterpret_cast<uint64_t *>(r)[0] = 1024; reinterpret_cast<uint64_t *>(r)[1] = 1024; return 0; }
int sim_getrlimit64(int a, struct rlimit *r) { return sim_getrlimit(a, r); }
int sim_setrlimit(int, const struct rlimit *) { return 0; }
int sim_setrlimit64(int, const struct rlimit *) { return 0; }
int sim_nice(int) { return 0; }
int sim_prctl(int op, ...) { if (op == 1) { errno = EINVAL; return -1; } return 0; } // PR_SET_PDEATHSIG is not modelled
char *sim_ttyname(int) { errno = ENOTTY; return nullptr; }
void sim_openlog(const char *, int, int) { }
void sim_closelog() { }
void sim_syslog(int, const char *, ...) { }
void sim_vsyslog(int, const char *, va_list) { }
clock_t sim_clock() { return clock_t(W->now / US); }
clock_t sim_times(struct tms *t) { memset(t, 0, 4 * sizeof(clock_t)); return clock_t(W->now / (10 * MS)); }
int sim_getrusage(int, struct rusage *r) { memset(r, 0, sizeof(long) * 18); return 0; }
// The conversion of times takes a lock that the thread which holds it waits for, too: a signal may arrive in the middle of it.
static bool tz_locked UUT = false;
static void tzLock()
{
	int inj;
	Proc *p = enter(SYS_gmtime_, inj);
	if (tz_locked)
	{
		probe("gmtime-deadlock");
		logEvent(p, "waits for the lock of the time zone data, which it holds itself");
		for (;;)
		{
			p->wait.kind = Wait::SLEEP;
			p->wait.deadline = NEVER;
			p->wait.interruptible = true;
			(void)blockWait(p);
		}
	}
	tz_locked = true;
	ctxYield();
	deliverSignals(p);
	tz_locked = false;
	g_uut = true;
}
struct tm *sim_gmtime_r(const time_t *t, struct tm *r) { int e = errno; tzLock(); errno = e; return gmtime_r(t, r); }
struct tm *sim_gmtime(const time_t *t) { static struct tm r; return sim_gmtime_r(t, &r); }
struct tm *sim_localtime_r(const time_t *t, struct tm *r) { return sim_gmtime_r(t, r); }
struct tm *sim_localtime(const time_t *t) { return sim_gmtime(t); }
time_t sim_mktime(struct tm *t) { return timegm(t); }
void sim_tzset() { }
double sim_difftime(time_t a, time_t b) { return double(a - b); }

static uint64_t rand_state UUT = 1;
static unsigned nextRand() { rand_state = rand_state * 6364136223846793005ull + 1442695040888963407ull; return unsigned(rand_state >> 33); }
int sim_rand() { return int(nextRand() & 0x7fffffff); }
long sim_random() { return long(nextRand() & 0x7fffffff); }
double sim_drand48() { return nextRand() / 4294967296.0; }
void sim_srand(unsigned s) { rand_state = s; }
void sim_srandom(unsigned s) { rand_state = s; }
void sim_srand48(long s) { rand_state = uint64_t(s); }
int sim_rand_r(unsigned *s) { *s = *s * 1103515245u + 12345u; return int(*s >> 1); }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) static_cast<char *>(b)[i] = char(nextRand()); return ssize_t(n); }
int sim_getentropy(void *b, size_t n) { (void)sim_getrandom(b, n, 0); return 0; }
uint32_t sim_arc4random() { return nextRand(); }
uint32_t sim_arc4random_uniform(uint32_t n) { return n ? nextRand() % n : 0; }
void sim__ZNSt13random_device7_M_finiEv(void *) { }
void sim__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void *, const void *) { }
unsigned sim__ZNSt13random_device9_M_getvalEv(void *) { return nextRand(); }
unsigned sim__ZNSt13random_device16_M_getval_pretr1Ev(void *) { return nextRand(); }

// there is one thread per process
int sim_pthread_mutex_lock(pthread_mutex_t *) { return 0; }
int sim_pthread_once(pthread_once_t *o, void (*f)()) { if (*o == PTHREAD_ONCE_INIT) { f(); *o = 2; } return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t *) { return 0; }
int sim_pthread_mutex_unlock(pthread_mutex_t *) { return 0; }
int sim_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *) { return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int sim_pthread_atfork(void (*)(), void (*)(), void (*)()) { return 0; }
pid_t sim_gettid() { return sim_getpid(); }

void *sim_reallocarray(void *q, size_t a, size_t b) { return sim_realloc(q, a * b); }
int sim_posix_memalign(void **r, size_t, size_t n) { *r = sim_malloc(n); return *r ? 0 : ENOMEM; }
void *sim_aligned_alloc(size_t, size_t n) { return sim_malloc(n); }
size_t sim_malloc_usable_size(void *q) { return q ? arenaSize(q) : 0; }
char *sim_strndup(const char *s, size_t n)
{
	size_t k = strnlen(s, n);
	char *r = static_cast<char *>(sim_malloc(k + 1));
	if (r) { memcpy(r, s, k); r[k] = 0; }
	return r;
}
static char *strtok_state UUT = nullptr;
char *sim_strtok(char *s, const char *d) { return strtok_r(s, d, &strtok_state); }
int sim_vasprintf(char **out, const char *fmt, va_list ap)
{
	va_list c;
	va_copy(c, ap);
	int n = vsnprintf(nullptr, 0, fmt, c);
	va_end(c);
	*out = n < 0 ? nullptr : static_cast<char *>(sim_malloc(size_t(n) + 1));
	return *out ? vsnprintf(*out, size_t(n) + 1, fmt, ap) : -1;
}
int sim_asprintf(char **out, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vasprintf(out, fmt, ap);
	va_end(ap);
	return r;
}
int sim_vdprintf(int fd, const char *fmt, va_list ap)
{
	char *s;
	int n = sim_vasprintf(&s, fmt, ap);
	if (n < 0) return n;
	ssize_t r = sim_write(fd, s, size_t(n));
	sim_free(s);
	return int(r);
}
int sim_dprintf(int fd, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	int r = sim_vdprintf(fd, fmt, ap);
	va_end(ap);
	return r;
}
int sim_putenv(char *s)
{
	char *e = strchr(s, '=');
	if (!e) return sim_unsetenv(s);
	char *n = sim_strndup(s, size_t(e - s));
	int r = n ? sim_setenv(n, e + 1, 1) : -1;
	sim_free(n);
	return r;
}

int sim_daemon(int nochdir, int noclose)
{
	pid_t c = sim_fork();
	if (c < 0) return -1;
	if (c > 0) sim__exit(0);
	if (sim_setsid() < 0) return -1;
	if (!nochdir) (void)sim_chdir("/");
	if (!noclose)
	{
		int fd = sim_open("/dev/null", O_RDWR);
		for (int i = 0; i < 3; i++) (void)sim_dup2(fd, i);
		if (fd > 2) sim_close(fd);
	}
	return 0;
}

// directories
struct SimDir { char **names; size_t n, pos; struct dirent ent; };
DIR *sim_opendir(const char *path)
{
	ENTER(SYS_open_);
	int err = inj;
	Inode *n = inj > 0 ? nullptr : lookup(p->ct, p->cwd, path, true, nullptr, &err);
	if (n && n->type != Inode::DIR) { n = nullptr; err = ENOTDIR; }
	if (!n) { leave(p, K, -err); return nullptr; }
	SimDir *d = static_cast<SimDir *>(sim_malloc(sizeof(SimDir)));
	d->n = n->ents.size() + 2;
	d->pos = 0;
	d->names = static_cast<char **>(sim_malloc(d->n * sizeof(char *)));
	size_t i = 0;
	d->names[i++] = sim_strdup(".");
	d->names[i++] = sim_strdup("..");
	for (auto &e : n->ents) d->names[i++] = sim_strdup(e.first.c_str());
	leave(p, K, 0);
	return reinterpret_cast<DIR *>(d);
}
struct dirent *sim_readdir(DIR *x)
{
	SimDir *d = reinterpret_cast<SimDir *>(x);
	if (d->pos >= d->n) return nullptr;
	memset(&d->ent, 0, sizeof d->ent);
	strncpy(d->ent.d_name, d->names[d->pos++], sizeof d->ent.d_name - 1);
	d->ent.d_type = DT_UNKNOWN;
	return &d->ent;
}
struct dirent *sim_readdir64(DIR *x) { return sim_readdir(x); }
int sim_closedir(DIR *x)
{
	SimDir *d = reinterpret_cast<SimDir *>(x);
	for (size_t i = 0; i < d->n; i++) sim_free(d->names[i]);
	sim_free(d->names);
	sim_free(d);
	return 0;
}

static int mkUnique(char *t, size_t suffix)
{
	size_t n = strlen(t);
	if (n < 6 + suffix) { errno = EINVAL; return -1; }
	for (int i = 0; i < 100; i++)
	{
		for (size_t k = 0; k < 6; k++) t[n - suffix - 6 + k] = char('a' + nextRand() % 26);
		int fd = sim_open(t, O_RDWR | O_CREAT | O_EXCL, 0600);
		if (fd >= 0 || errno != EEXIST) return fd;
	}
	return -1;
}
int sim_mkstemp(char *t) { return mkUnique(t, 0); }
int sim_mkstemp64(char *t) { return mkUnique(t, 0); }
int sim_mkostemp(char *t, int) { return mkUnique(t, 0); }
int sim_mkstemps(char *t, int s) { return mkUnique(t, size_t(s)); }

} // extern "C"
