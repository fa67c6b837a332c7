// The simulated kernel: objects, file system, processes, signals, sockets and the scheduler.
#include "kernel.h"

#include <algorithm>
#include <cstdarg>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

namespace sim {

World *W = nullptr;
Choices chScn, chSched, chFault;

// ---------------------------------------------------------------- choices
static uint64_t splitmix(uint64_t &s)
{
	uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

void Choices::seed(uint64_t seed_)
{
	replay = false;
	s = seed_;
	(void)splitmix(s);
	pos = 0;
	in.clear();
	out.clear();
}

uint32_t Choices::draw(uint32_t n)
{
	if (n <= 1) return 0;
	uint32_t v;
	if (replay)
		v = pos < in.size() ? in[pos] % n : 0;
	else
		v = uint32_t((splitmix(s) >> 32) * uint64_t(n) >> 32);
	pos++;
	out.push_back(v);
	return v;
}

uint32_t Choices::weighted(std::initializer_list<uint32_t> w)
{
	uint32_t total = 0;
	for (uint32_t x : w) total += x;
	uint32_t v = draw(total), i = 0;
	for (uint32_t x : w)
	{
		if (v < x) return i;
		v -= x;
		i++;
	}
	return 0;
}

// ---------------------------------------------------------------- names, trace, statistics
const char *roleName(Role r)
{
	static const char *n[] = { "other", "client", "server", "handler", "prechild", "command", "raw", "install", "peer" };
	return n[r];
}

const char *sysName(int s)
{
	static const char *n[] = { "any", "poll", "read", "write", "recv", "send", "close", "open", "fork", "exec", "waitpid", "kill", "pipe", "socket", "bind", "listen", "accept",
		"connect", "shutdown", "sleep", "signal", "dup", "fcntl", "unlink", "symlink", "link", "rename", "readlink", "chdir", "getcwd", "stat", "setsid", "exit", "gmtime", "other" };
	return n[s];
}

std::string hex64(uint64_t v)
{
	char b[20];
	snprintf(b, sizeof b, "%016llx", static_cast<unsigned long long>(v));
	return b;
}

void hashMix(uint64_t v)
{
	W->hash = (W->hash ^ v) * 0x100000001b3ULL;
	W->hash ^= W->hash >> 29;
}

void logEvent(Proc *p, const char *fmt, ...)
{
	if (!W->traceOn || W->trace.size() > W->traceLimit) return;
	char body[600], head[128];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(body, sizeof body, fmt, ap);
	va_end(ap);
	if (p) snprintf(head, sizeof head, "%12.6f %s[%d]%s ", double(W->now) / 1e9, roleName(p->role), p->pid, p->name.empty() ? "" : (":" + p->name).c_str());
	else snprintf(head, sizeof head, "%12.6f * ", double(W->now) / 1e9);
	W->trace.push_back(std::string(head) + body);
	if (W->verbose) fprintf(stderr, "%s\n", W->trace.back().c_str());
}

void fault(const char *kind) { W->st.faults[kind]++; }
void probe(const char *name) { W->st.probes[name]++; }

// ---------------------------------------------------------------- files and descriptors
Inode *mkNode(Inode::Type t, int mode)
{
	W->inodes.emplace_back(new Inode);
	Inode *n = W->inodes.back().get();
	n->type = t;
	n->mode = mode;
	n->id = W->nextId++;
	n->nlink = 1;
	return n;
}

Container *addContainer(const std::string &hostname)
{
	W->containers.emplace_back(new Container);
	Container *c = W->containers.back().get();
	c->id = int(W->containers.size()) - 1;
	c->hostname = hostname;
	c->root = mkNode(Inode::DIR, 0755);
	mkdirp(c, "/dev");
	Inode *dev = mkdirp(c, "/dev");
	if (!W->devNull) { W->devNull = mkNode(Inode::NUL, 0666); W->devFull = mkNode(Inode::FULL, 0666); }
	dev->ents["null"] = W->devNull;
	dev->ents["full"] = W->devFull;
	mkdirp(c, "/run");
	mkdirp(c, "/tmp");
	mkdirp(c, "/bin");
	mkdirp(c, "/usr/bin");
	return c;
}

static std::vector<std::string> splitPath(const std::string &p)
{
	std::vector<std::string> r;
	size_t i = 0;
	while (i < p.size())
	{
		while (i < p.size() && p[i] == '/') i++;
		size_t j = i;
		while (j < p.size() && p[j] != '/') j++;
		if (j > i) r.push_back(p.substr(i, j - i));
		i = j;
	}
	return r;
}

Inode *mkdirp(Container *ct, const std::string &path)
{
	Inode *d = ct->root;
	for (auto &c : splitPath(path))
	{
		Inode *&e = d->ents[c];
		if (!e) e = mkNode(Inode::DIR, 0755);
		d = e;
	}
	return d;
}

Inode *putFile(Container *ct, const std::string &path, const std::string &data, int mode)
{
	size_t s = path.rfind('/');
	Inode *d = mkdirp(ct, path.substr(0, s));
	Inode *f = mkNode(Inode::REG, mode);
	f->data = data;
	d->ents[path.substr(s + 1)] = f;
	return f;
}

void mountDir(Container *ct, const std::string &path, Inode *dir)
{
	size_t s = path.rfind('/');
	mkdirp(ct, path.substr(0, s))->ents[path.substr(s + 1)] = dir;
}

// Resolves a path. When the last component does not exist, returns null with *err == ENOENT.
Inode *lookup(Container *ct, const std::string &cwd, const std::string &path, bool follow, std::string *canon, int *err)
{
	int dummy;
	if (!err) err = &dummy;
	*err = 0;
	if (path.empty()) { *err = ENOENT; return nullptr; }
	if (path.size() >= 4096) { *err = ENAMETOOLONG; return nullptr; }
	std::vector<std::pair<std::string, Inode *>> st; // path walked so far
	std::deque<std::string> todo;
	auto push = [&](const std::string &p, bool front) {
		auto parts = splitPath(p);
		if (front) todo.insert(todo.begin(), parts.begin(), parts.end());
		else todo.insert(todo.end(), parts.begin(), parts.end());
	};
	if (path[0] != '/') push(cwd, false);
	push(path, false);
	bool mustDir = path.back() == '/';
	int links = 0;
	Inode *cur = ct->root;
	while (!todo.empty())
	{
		std::string c = todo.front();
		todo.pop_front();
		if (c == ".") { if (cur->type != Inode::DIR) { *err = ENOTDIR; return nullptr; } continue; }
		if (c == "..")
		{
			if (cur->type != Inode::DIR) { *err = ENOTDIR; return nullptr; }
			if (!st.empty()) st.pop_back();
			cur = st.empty() ? ct->root : st.back().second;
			continue;
		}
		if (cur->type != Inode::DIR) { *err = ENOTDIR; return nullptr; }
		if (c.size() > 255) { *err = ENAMETOOLONG; return nullptr; }
		auto it = cur->ents.find(c);
		if (it == cur->ents.end())
		{
			*err = ENOENT;
			if (canon && todo.empty())
			{
				canon->clear();
				for (auto &x : st) *canon += "/" + x.first;
				*canon += "/" + c;
			}
			else if (canon) canon->clear();
			return nullptr;
		}
		Inode *n = it->second;
		if (n->type == Inode::LNK && (follow || !todo.empty() || mustDir))
		{
			if (++links > 40) { *err = ELOOP; return nullptr; }
			if (n->data[0] == '/') { st.clear(); cur = ct->root; }
			push(n->data, true);
			continue;
		}
		st.emplace_back(c, n);
		cur = n;
	}
	if (mustDir && cur->type != Inode::DIR) { *err = ENOTDIR; return nullptr; }
	if (canon)
	{
		canon->clear();
		for (auto &x : st) *canon += "/" + x.first;
		if (canon->empty()) *canon = "/";
	}
	return cur;
}

Pipe *newPipe(size_t cap)
{
	W->pipes.emplace_back(new Pipe);
	Pipe *p = W->pipes.back().get();
	p->id = W->nextId++;
	p->cap = cap;
	return p;
}

File *newFile(File::Type t)
{
	W->files.emplace_back(new File);
	File *f = W->files.back().get();
	f->type = t;
	f->id = W->nextId++;
	return f;
}

void fileRef(File *f) { f->refs++; }

static void sockClose(Sock *s);

void fileUnref(File *f)
{
	if (--f->refs > 0) return;
	switch (f->type)
	{
	case File::PIPE_R: f->pipe->readers = false; break;
	case File::PIPE_W: f->pipe->writers = false; break;
	case File::SOCK: sockClose(f->sock); break;
	default: if (f->ino) f->ino->openCount--; break;
	}
}

void setFd(Proc *p, int fd, File *f, bool cloexec)
{
	if (size_t(fd) >= p->fds.size()) p->fds.resize(size_t(fd) + 1);
	fileRef(f);
	if (p->fds[size_t(fd)].f) fileUnref(p->fds[size_t(fd)].f);
	p->fds[size_t(fd)].f = f;
	p->fds[size_t(fd)].cloexec = cloexec;
}

void closeFd(Proc *p, int fd)
{
	File *f = p->fds[size_t(fd)].f;
	p->fds[size_t(fd)].f = nullptr;
	if (f) fileUnref(f);
}

int allocFd(Proc *p, File *f, bool cloexec, int from)
{
	size_t i = size_t(from);
	while (i < p->fds.size() && p->fds[i].f) i++;
	setFd(p, int(i), f, cloexec);
	return int(i);
}

// ---------------------------------------------------------------- sockets
Sock *newSock(Proc *)
{
	W->socks.emplace_back(new Sock);
	Sock *s = W->socks.back().get();
	s->id = W->nextId++;
	s->rcvCap = W->k.rcvCap;
	s->sndCap = W->k.sndCap;
	return s;
}

static bool usesPort(const Sock *s)
{
	if (s->self) return s->selfLingers && W->now - s->closedAt < 60 * SEC;
	if (s->connected && s->isServerSide)
		return s->open || !s->dead || (s->closedAt >= 0 && W->now - s->closedAt < 60 * SEC);
	return false;
}

bool portListening(int port)
{
	for (auto &s : W->socks)
		if (s->listening && s->open && s->port == port) return true;
	return false;
}

int kBind(Sock *s, int port)
{
	for (auto &o : W->socks)
	{
		if (o.get() == s || o->port != port) continue;
		if (o->bound && o->open && !o->connected && (o->listening || !(s->reuse && o->reuse))) return -EADDRINUSE; // (a listener that was shut down shares its port)
		if (usesPort(o.get()) && !(s->reuse && o->reuse)) { probe("bind-conflict-lingering"); return -EADDRINUSE; }
		if (usesPort(o.get())) probe("rebind-over-lingering-connection");
	}
	s->bound = true;
	s->port = port;
	return 0;
}

static Sock *findListener(int port)
{
	for (auto &s : W->socks)
		if (s->listening && s->open && s->port == port) return s.get();
	return nullptr;
}

static Time drawLatency()
{
	switch (W->k.latencyMode)
	{
	case 0: return 0;
	case 1: return Time(chSched.draw(50)) * 10 * US;
	default: return Time(chSched.draw(8)) * Time(chSched.draw(8)) * MS;
	}
}

static void enqueueSeg(Sock *to, Segment &&seg)
{
	Time at = W->now + drawLatency();
	if (!to->inflight.empty() && to->inflight.back().at > at) at = to->inflight.back().at;
	seg.at = at;
	to->inflightBytes += seg.data.size();
	to->inflight.push_back(std::move(seg));
	if (std::find(W->activeSocks.begin(), W->activeSocks.end(), to) == W->activeSocks.end()) W->activeSocks.push_back(to);
}

// Moves data from s's send queue onto the wire as far as the peer's window allows.
void sockTransmit(Sock *s)
{
	Sock *d = s->peer;
	if (!d || s->dead) return;
	while (!s->sndq.empty())
	{
		size_t used = d->rcvq.size() + d->inflightBytes;
		if (used >= d->rcvCap && !(d->dead || !d->open)) break;
		size_t n = std::min(s->sndq.size(), d->open && !d->dead ? d->rcvCap - used : s->sndq.size());
		size_t piece = n;
		switch (W->k.segMode)
		{
		case 1: piece = std::min(n, size_t(1460)); break;
		case 2: piece = std::min(n, size_t(1 + chSched.draw(64))); break;
		case 3: piece = std::min(n, size_t(1 + (chSched.draw(3) == 0 ? chSched.draw(8) : chSched.draw(9000)))); break;
		default: break;
		}
		Segment seg;
		seg.data.assign(s->sndq.data(), s->sndq.data() + piece);
		s->sndq.pop(piece);
		s->bytesOut += piece;
		W->st.bytes += piece;
		enqueueSeg(d, std::move(seg));
		// bound the number of segments a huge queue is cut into
		if (d->inflight.size() > 64) { W->st.probes["long-inflight-queue"]++; }
	}
	if (s->sndq.empty() && s->shutW && !s->finSent)
	{
		s->finSent = true;
		Segment seg;
		seg.fin = true;
		enqueueSeg(d, std::move(seg));
	}
}

static void sendRst(Sock *from)
{
	if (!from->peer) return;
	Segment seg;
	seg.rst = true;
	enqueueSeg(from->peer, std::move(seg));
	probe("tcp-rst");
}

void sockReset(Sock *s)
{
	if (s->dead) return;
	s->dead = true;
	s->closedAt = W->now;
	s->sndq = ByteQ();
	sendRst(s);
}

static void deliver(Sock *s, Segment &seg)
{
	s->inflightBytes -= seg.data.size();
	if (s->dead)
	{
		// a closed or reset endpoint answers data with RST
		if (!seg.rst && (!seg.data.empty()) && s->peer && !s->peer->dead) sendRst(s);
		return;
	}
	if (seg.rst)
	{
		s->dead = true;
		s->gotRst = true;
		s->closedAt = W->now;
		s->soErr = s->finRcvd ? EPIPE : ECONNRESET;
		s->sndq = ByteQ();
		return;
	}
	if (!seg.data.empty())
	{
		if (!s->open || (s->shutR && s->shutW))
		{
			sockReset(s);
			return;
		}
		s->rcvq.push(seg.data.data(), seg.data.size());
		s->bytesIn += seg.data.size();
	}
	if (seg.fin)
	{
		s->finRcvd = true;
		if (!s->open && s->finSent && s->sndq.empty()) { s->dead = true; s->closedAt = W->now; }
	}
}

static void deliverDue()
{
	for (size_t i = 0; i < W->activeSocks.size();)
	{
		Sock *s = W->activeSocks[i];
		while (!s->inflight.empty() && s->inflight.front().at <= W->now)
		{
			Segment seg = std::move(s->inflight.front());
			s->inflight.pop_front();
			deliver(s, seg);
		}
		if (s->peer) sockTransmit(s->peer);
		if (s->inflight.empty())
		{
			W->activeSocks[i] = W->activeSocks.back();
			W->activeSocks.pop_back();
		}
		else i++;
	}
}

int kConnectStart(Proc *p, Sock *s, uint32_t addr, int port)
{
	Sock *l = findListener(port);
	if (l && addr && l->bindAddr && l->bindAddr != addr) return -ECONNREFUSED;
	if (!l)
	{
		if (!W->k.selfConnect || port < 32768 || port > 60999 || port % 2 || s->bound || !p->uut || chSched.draw(uint32_t(W->k.selfConnect))) return -ECONNREFUSED;
		probe("connected-to-itself");
		s->self = s->connected = s->bound = true;
		s->port = port;
		s->peer = s;
		return 0;
	}
	if (l->backlog.size() > l->backlogMax) { probe("backlog-full"); return -EAGAIN; }
	Sock *a = newSock(p);
	a->port = port;
	a->bound = true;
	a->reuse = l->reuse;
	a->connected = s->connected = true;
	a->isServerSide = true;
	a->queued = true;
	a->peer = s;
	s->peer = a;
	s->port = 0;
	s->sourcePort = 32768 + W->nextId * 2 % 28000; // not the port of a listener
	while (s->sourcePort == port || s->sourcePort == port + 2) s->sourcePort += 2;
	s->clientPid = a->clientPid = p->pid;
	a->session = p->session;
	s->session = p->session;
	a->listener = l;
	l->backlog.push_back(a);
	W->st.conns++;
	return 0;
}

void kShutdown(Sock *s, int how)
{
	if (how == 0 || how == 2) s->shutR = true;
	if (how == 1 || how == 2)
	{
		if (!s->shutW)
		{
			s->selfLingers = s->self;
			s->shutW = true;
			if (s->connected && !s->dead) sockTransmit(s);
		}
	}
}

void kUnlisten(Sock *s)
{
	for (Sock *q : s->backlog)
	{
		q->open = false;
		sockReset(q);
	}
	s->backlog.clear();
	s->listening = false;
	W->unlistened[s->port] = W->now;
}

static void sockClose(Sock *s)
{
	s->open = false;
	s->closedAt = W->now;
	if (s->listening) { kUnlisten(s); return; }
	if (!s->connected || s->dead) { s->dead = true; return; }
	if (!s->rcvq.empty() || s->abortOnClose)
	{
		probe("close-with-unread-data");
		sockReset(s);
		return;
	}
	s->shutR = s->shutW = true;
	sockTransmit(s);
	if (s->finSent && s->finRcvd && s->sndq.empty()) s->dead = true;
}

// ---------------------------------------------------------------- readiness and primitive I/O
int kPollFile(File *f)
{
	switch (f->type)
	{
	case File::PIPE_R:
		return (f->pipe->q.empty() ? 0 : POLLIN) | (f->pipe->writers ? 0 : POLLHUP);
	case File::PIPE_W:
		return (f->pipe->cap - f->pipe->q.size() >= std::min(f->pipe->cap, size_t(4096)) ? POLLOUT : 0) | (f->pipe->readers ? 0 : POLLERR);
	case File::SOCK:
		{
			Sock *s = f->sock;
			if (s->listening) return s->backlog.empty() ? 0 : POLLIN;
			if (!s->connected) return POLLOUT | POLLHUP;
			int r = 0;
			if (!s->rcvq.empty() || s->finRcvd || s->shutR || s->dead) r |= POLLIN;
			if (s->finRcvd || s->shutR || s->dead) r |= POLLRDHUP;
			if (s->dead || ((s->finRcvd || s->shutR) && s->shutW)) r |= POLLHUP;
			if (s->soErr) r |= POLLERR;
			if (s->dead || s->shutW || s->sndq.size() < s->sndCap - s->sndCap / 3) r |= POLLOUT;
			return r;
		}
	default: return POLLIN | POLLOUT;
	}
}

ssize_t kRead(Proc *p, File *f, void *buf, size_t n)
{
	(void)p;
	switch (f->type)
	{
	case File::PIPE_R:
		{
			Pipe *q = f->pipe;
			if (n == 0) return 0;
			if (q->q.empty()) return q->writers ? -EAGAIN : 0;
			size_t k = std::min(n, q->q.size());
			memcpy(buf, q->q.data(), k);
			q->q.pop(k);
			q->totalOut += k;
			W->st.bytes += k;
			return ssize_t(k);
		}
	case File::SOCK:
		{
			Sock *s = f->sock;
			if (s->listening) return -ENOTCONN;
			if (!s->connected) return -ENOTCONN;
			if (n == 0) return 0;
			if (!s->rcvq.empty())
			{
				size_t k = std::min(n, s->rcvq.size());
				memcpy(buf, s->rcvq.data(), k);
				s->rcvq.pop(k);
				if (s->peer) sockTransmit(s->peer);
				return ssize_t(k);
			}
			if (s->soErr) { int e = s->soErr; s->soErr = 0; return -e; }
			if (s->finRcvd || s->shutR || s->dead) return 0;
			return -EAGAIN;
		}
	case File::REG:
		{
			if ((f->flags & O_ACCMODE) == O_WRONLY) return -EBADF;
			if (f->off >= f->ino->data.size()) return 0;
			size_t k = std::min(n, f->ino->data.size() - f->off);
			memcpy(buf, f->ino->data.data() + f->off, k);
			f->off += k;
			return ssize_t(k);
		}
	case File::NUL: return (f->flags & O_ACCMODE) == O_WRONLY ? -EBADF : 0;
	case File::FULL: memset(buf, 0, n); return ssize_t(n);
	case File::DIR: return -EISDIR;
	default: return -EBADF;
	}
}

ssize_t kWrite(Proc *p, File *f, const void *buf, size_t n, bool nosignal)
{
	switch (f->type)
	{
	case File::PIPE_W:
		{
			Pipe *q = f->pipe;
			if (!q->readers)
			{
				if (p && !nosignal) sendSignal(p, SIGPIPE, p);
				return -EPIPE;
			}
			if (n == 0) return 0;
			size_t space = q->cap > q->q.size() ? q->cap - q->q.size() : 0;
			if (n <= 4096 && n <= q->cap && space < n) return -EAGAIN;
			if (space == 0) return -EAGAIN;
			size_t k = std::min(space, n);
			q->q.push(buf, k);
			q->totalIn += k;
			return ssize_t(k);
		}
	case File::SOCK:
		{
			Sock *s = f->sock;
			if (!s->connected) { if (p && !nosignal) sendSignal(p, SIGPIPE, p); return s->listening ? -ENOTCONN : -EPIPE; }
			if (s->soErr) { int e = s->soErr; s->soErr = 0; if (e == EPIPE && p && !nosignal) sendSignal(p, SIGPIPE, p); return -e; }
			if (s->shutW || s->dead)
			{
				if (p && !nosignal) sendSignal(p, SIGPIPE, p);
				return -EPIPE;
			}
			if (n == 0) return 0;
			size_t space = s->sndCap > s->sndq.size() ? s->sndCap - s->sndq.size() : 0;
			if (!space) return -EAGAIN;
			size_t k = std::min(space, n);
			s->sndq.push(buf, k);
			sockTransmit(s);
			return ssize_t(k);
		}
	case File::REG:
		{
			if ((f->flags & O_ACCMODE) == O_RDONLY) return -EBADF;
			Inode *i = f->ino;
			size_t k = n;
			if (i->spaceLeft >= 0)
			{
				if (i->spaceLeft == 0 && n) { fault("disk-full"); return -i->spaceErrno; }
				if (int64_t(k) > i->spaceLeft) { k = size_t(i->spaceLeft); fault("short-write-disk"); }
				i->spaceLeft -= int64_t(k);
			}
			if (f->flags & O_APPEND) f->off = i->data.size();
			if (i->data.size() < f->off) i->data.resize(f->off, '\0');
			i->data.replace(f->off, std::min(k, i->data.size() - f->off), static_cast<const char *>(buf), k);
			f->off += k;
			if (p && W->obs) W->obs->onFs(p, FS_WRITE, "", i, i);
			return ssize_t(k);
		}
	case File::NUL: return (f->flags & O_ACCMODE) == O_RDONLY ? -EBADF : ssize_t(n);
	case File::FULL: fault("write-to-full-device"); return -ENOSPC;
	case File::DIR: return -EISDIR;
	default: return -EBADF;
	}
}

// ---------------------------------------------------------------- processes
bool alive(const Proc *p) { return p->state == RUNNABLE || p->state == BLOCKED; }

Proc *findPid(int pid)
{
	auto it = W->byPid.find(pid);
	return it == W->byPid.end() ? nullptr : it->second;
}

static int allocPid()
{
	for (;;)
	{
		int pid = W->nextPid++;
		if (W->nextPid >= W->k.pidMax) W->nextPid = 2;
		if (!W->byPid.count(pid)) return pid;
	}
}

Proc *newProc(Container *ct, Role role, const std::string &name, int ppid)
{
	W->procs.emplace_back(new Proc);
	Proc *p = W->procs.back().get();
	p->serial = int(W->procs.size());
	p->pid = allocPid();
	p->ppid = ppid;
	p->sid = p->pgid = p->pid;
	p->role = role;
	p->name = name;
	p->ct = ct;
	p->startAt = W->now;
	W->byPid[p->pid] = p;
	W->live.push_back(p);
	if (W->obs) W->obs->onSpawn(p);
	return p;
}

static bool isDefaultFatal(int sig)
{
	switch (sig)
	{
	case SIGCHLD: case SIGURG: case SIGWINCH: case SIGCONT: case SIGSTOP: case SIGTSTP: case SIGTTIN: case SIGTTOU: return false;
	default: return true;
	}
}

void sendSignal(Proc *t, int sig, Proc *sender)
{
	if (!alive(t)) return;
	if (W->obs && sender != t) W->obs->onSignalSent(t, sig, sender);
	if (sig == SIGTERM) { t->gotTerm = true; if (t->gotTermAt < 0) t->gotTermAt = W->now; }
	if (W->traceOn && sig != SIGCHLD) logEvent(t, "<- signal %d from %s[%d]", sig, sender ? roleName(sender->role) : "harness", sender ? sender->pid : 0);
	if (sig == SIGKILL)
	{
		if (t == W->current && t->uut) { t->sigPending |= 1ull << sig; return; }
		procExit(t, SIGKILL);
		return;
	}
	SigAct &a = t->sig[sig];
	if (a.h == SIG_IGN && !(t->sigMask >> sig & 1)) return;
	if (a.h == SIG_DFL && t->ct->initPid == t->pid && sender != nullptr && !(t->sigMask >> sig & 1)) return;
	if (a.h == SIG_DFL && t->ct->initPid == t->pid && !(t->sigMask >> sig & 1)) return;
	if (t->actor)
	{
		if (t->actor->onSignal(sig)) return;
		if (isDefaultFatal(sig)) procExit(t, sig);
		return;
	}
	if (a.h == SIG_DFL && !isDefaultFatal(sig)) return;
	if (a.h == SIG_DFL && !(t->sigMask >> sig & 1) && t != W->current) { procExit(t, sig); return; }
	t->sigPending |= 1ull << sig;
}

static bool noZombies(Proc *parent) { return parent->sig[SIGCHLD].h == SIG_IGN || (parent->sig[SIGCHLD].flags & SA_NOCLDWAIT); }

void procExit(Proc *p, int status)
{
	if (!alive(p)) return;
	p->status = status;
	p->exitAt = W->now;
	logEvent(p, WIFSIGNALED(status) ? "killed by signal %d" : "exits with status %d", WIFSIGNALED(status) ? WTERMSIG(status) : WEXITSTATUS(status));
	hashMix(uint64_t(p->serial) * 1000003 + uint64_t(status));
	p->state = ZOMBIE;
	if (p->exe) { p->exe->running--; p->exe = nullptr; }
	for (size_t i = 0; i < p->fds.size(); i++) closeFd(p, int(i));
	ctxRelease(p);
	p->actor.reset();
	// orphans go to the container's init process
	int init = p->ct->initPid && p->ct->initPid != p->pid ? p->ct->initPid : 1;
	for (Proc *c : W->live)
		if (c->ppid == p->pid && c != p)
		{
			c->ppid = init;
			Proc *ip = findPid(init);
			if (c->state == ZOMBIE && (!ip || !alive(ip) || noZombies(ip))) { c->state = GONE; W->byPid.erase(c->pid); }
		}
	Proc *parent = findPid(p->ppid);
	if (!parent || !alive(parent) || (!parent->uut && !parent->actor) || noZombies(parent) || parent->actor)
	{
		p->state = GONE;
		W->byPid.erase(p->pid);
	}
	if (parent && alive(parent)) sendSignal(parent, SIGCHLD, p);
	W->live.erase(std::remove_if(W->live.begin(), W->live.end(), [](Proc *q) { return q->state == GONE; }), W->live.end());
	if (W->obs) W->obs->onExit(p);
}

int spawnExec(Proc *p, const std::string &path, const std::vector<std::string> &argv, const std::vector<std::string> &env)
{
	int err = 0;
	std::string canon;
	Inode *n = lookup(p->ct, p->cwd, path, true, &canon, &err);
	if (!n) return err;
	if (n->type != Inode::REG || !(n->mode & 0111)) return EACCES;
	bool uutBinary = n->data.compare(0, 9, "#!k8psh!\n") == 0;
	bool model = n->data.compare(0, 8, "#!model:") == 0;
	if (!uutBinary && !model) return ENOEXEC;

	ExecRec rec;
	rec.p = p;
	rec.pid = p->pid;
	rec.path = path;
	rec.argv = argv;
	rec.env = env;
	rec.cwd = p->cwd;
	rec.ct = p->ct;
	rec.at = W->now;
	rec.session = p->session;
	rec.conn = p->lastAccepted;
	rec.parentPid = p->ppid;
	rec.sid = p->sid;
	rec.sigMask = p->sigMask;
	for (size_t i = 0; i < p->fds.size(); i++)
		if (p->fds[i].f && p->fds[i].cloexec) closeFd(p, int(i));
	for (size_t i = 0; i < p->fds.size(); i++)
	{
		File *f = p->fds[i].f;
		if (!f) { if (i < 3) rec.stdFds.push_back("closed"); continue; }
		std::string d;
		switch (f->type)
		{
		case File::PIPE_R: d = "pipe-read"; break;
		case File::PIPE_W: d = "pipe-write"; break;
		case File::SOCK: d = f->sock->listening ? "listening socket" : "connection socket"; break;
		case File::REG: d = "file"; break;
		case File::NUL: d = "null"; break;
		default: d = "other"; break;
		}
		if (i < 3) rec.stdFds.push_back(d);
		else if (!f->inherited) rec.leakedFds.push_back(std::to_string(i) + " (" + d + ")");
	}
	for (int s = 1; s < 65; s++)
	{
		rec.sigIgn[s] = p->sig[s].h == SIG_IGN;
		if (p->sig[s].h != SIG_IGN) p->sig[s] = SigAct();
	}
	if (p->exe) p->exe->running--;
	p->exe = n;
	n->running++;
	p->exePath = canon;
	p->execed = true;
	W->st.execs++;
	hashMix(uint64_t(p->serial) * 31 + 7);
	if (W->traceOn)
	{
		std::string a;
		for (auto &s : argv) a += " " + s;
		logEvent(p, "exec %s:%s", path.c_str(), a.substr(0, 200).c_str());
	}
	if (W->obs) W->obs->onExec(rec);
	if (p->uut) ctxRelease(p);
	p->state = RUNNABLE;
	p->wait = Wait();
	if (uutBinary)
	{
		p->sigPending &= 0; // only the model programs care about inherited pending signals
		ctxStart(p, argv, env);
	}
	else
	{
		std::string prog = n->data.substr(8);
		size_t nl = prog.find('\n');
		if (nl != std::string::npos) prog.resize(nl);
		uint64_t pend = p->sigPending & ~p->sigMask;
		p->sigPending = 0;
		p->actor.reset(W->obs->makeProgram(p, prog, rec));
		p->actor->p = p;
		for (int s = 1; s < 64; s++)
			if ((pend >> s & 1) && alive(p)) sendSignal(p, s, nullptr);
	}
	return 0;
}

// ---------------------------------------------------------------- scheduler
void progress(Proc *p)
{
	p->pollsInRow = 0;
	p->pollWindowStart = W->now;
	W->lastProgress = W->now;
}

static bool pollReady(Proc *p)
{
	for (auto &f : p->wait.pfds)
	{
		if (f.fd < 0) continue;
		if (size_t(f.fd) >= p->fds.size() || !p->fds[size_t(f.fd)].f) return true;
		if (kPollFile(p->fds[size_t(f.fd)].f) & (f.events | POLLERR | POLLHUP)) return true;
	}
	return false;
}

bool childReady(Proc *p, pid_t pid)
{
	bool any = false;
	for (Proc *c : W->live)
		if (c->ppid == p->pid && (pid <= 0 || c->pid == pid))
		{
			if (c->state == ZOMBIE) return true;
			any = true;
		}
	return !any;
}

bool procReady(Proc *p)
{
	if (p->stalledUntil > W->now) return false;
	if (p->actor) return p->actor->ready();
	if (!p->uut) return false;
	if (p->state == RUNNABLE) return true;
	if (p->state != BLOCKED) return false;
	if (p->wait.interruptible && (p->sigPending & ~p->sigMask)) return true;
	if (p->wait.deadline <= W->now) return true;
	switch (p->wait.kind)
	{
	case Wait::POLL: return pollReady(p);
	case Wait::READ: return (kPollFile(p->wait.file) & (POLLIN | POLLHUP | POLLERR)) != 0;
	case Wait::WRITE:
		{
			File *f = p->wait.file;
			if (f->type == File::PIPE_W)
			{
				size_t space = f->pipe->cap > f->pipe->q.size() ? f->pipe->cap - f->pipe->q.size() : 0;
				return !f->pipe->readers || space >= p->wait.need;
			}
			if (f->type == File::SOCK)
			{
				Sock *s = f->sock;
				return s->dead || s->shutW || s->soErr || s->sndq.size() < s->sndCap - s->sndCap / 3;
			}
			return true;
		}
	case Wait::ACCEPT: return !p->wait.file->sock->backlog.empty() || !p->wait.file->sock->listening;
	case Wait::CONNECT: { Sock *l = findListener(p->wait.pid); return !l || l->backlog.size() <= l->backlogMax; }
	case Wait::CHILD: return childReady(p, p->wait.pid);
	case Wait::PRED: return p->wait.pred && p->wait.pred();
	default: return false;
	}
}

static Time procWake(Proc *p)
{
	if (p->stalledUntil > W->now) return p->stalledUntil;
	if (p->actor) return p->actor->wakeAt();
	if (p->uut && p->state == BLOCKED) return p->wait.deadline;
	return NEVER;
}

static void finishRequest(Proc *p)
{
	switch (p->request)
	{
	case REQ_FORK:
		{
			Proc *c = newProc(p->ct, p->role == R_SERVER ? R_HANDLER : p->role == R_HANDLER ? R_CHILD : p->role, "", p->pid);
			c->name = p->name;
			c->sid = p->sid;
			c->pgid = p->pgid;
			c->fds = p->fds;
			for (auto &e : c->fds) if (e.f) fileRef(e.f);
			c->cwd = p->cwd;
			c->umask = p->umask;
			for (int i = 0; i < 65; i++) c->sig[i] = p->sig[i];
			c->sigMask = p->sigMask;
			c->startIgn = p->startIgn;
			c->exePath = p->exePath;
			c->exe = p->exe;
			if (c->exe) c->exe->running++;
			c->session = p->session;
			c->lastAccepted = p->lastAccepted;
			c->generation = p->generation;
			c->kindCount.clear();
			W->st.forks++;
			ctxFork(p, c);
			c->state = RUNNABLE;
			c->forkResult = 0;
			p->forkResult = c->pid;
			logEvent(p, "fork -> %d", c->pid);
			hashMix(uint64_t(c->pid));
			if (W->obs) W->obs->onFork(p, c);
			progress(p);
			break;
		}
	case REQ_EXEC:
		p->forkResult = spawnExec(p, p->execPath, p->startArgv, p->startEnv);
		if (p->forkResult == 0) progress(p);
		break;
	case REQ_EXIT:
		procExit(p, p->status);
		break;
	case REQ_CRASH:
		logEvent(p, "crash: %s", g_crashText);
		probe("crash");
		if (W->obs) W->obs->onCrash(p, g_crashText);
		procExit(p, p->status);
		break;
	default: break;
	}
	p->request = REQ_YIELD;
}

void runWorld()
{
	std::vector<Proc *> ready;
	for (;;)
	{
		if (W->obs->done()) { W->endReason = "done"; break; }
		if (int(W->step) >= W->k.maxSteps) { W->endReason = "step limit"; break; }
		deliverDue();
		ready.clear();
		for (Proc *p : W->live)
		{
			if (p->state == ZOMBIE || !procReady(p)) { p->readySince = -1; continue; }
			ready.push_back(p);
			if (p->readySince < 0) p->readySince = W->now;
		}
		if (ready.empty())
		{
			Time t = W->obs->nextEvent();
			for (Proc *p : W->live)
				if (p->state != ZOMBIE) t = std::min(t, procWake(p));
			for (Sock *s : W->activeSocks)
				if (!s->inflight.empty()) t = std::min(t, s->inflight.front().at);
			if (t == NEVER) { W->endReason = "quiescent"; break; }
			if (t > W->now) W->now = t;
			W->obs->tick();
			continue;
		}
		// choose: 0 continues the process that ran last, otherwise a weighted choice among the ready ones
		Proc *pick = nullptr;
		bool lastReady = W->last && std::find(ready.begin(), ready.end(), W->last) != ready.end();
		static const uint32_t sticky[] = { 1, 2, 4, 8, 16, 48 };
		// No process is kept from running for long, however the choices fall.
		for (Proc *p : ready)
			if (W->now - p->readySince > (p->lag ? 10 : 100) * MS && (!pick || p->readySince < pick->readySince)) pick = p;
		if (pick) probe("overdue-process-run");
		else if (ready.size() == 1) pick = ready[0];
		else if (lastReady && !chSched.chance(1, sticky[W->k.stickiness])) pick = W->last;
		else
		{
			uint32_t total = 0;
			for (Proc *p : ready) total += p->weight;
			uint32_t v = chSched.draw(total);
			for (Proc *p : ready)
			{
				if (v < p->weight) { pick = p; break; }
				v -= p->weight;
			}
		}
		if (pick != W->last) W->st.switches++;
		W->last = pick;
		W->step++;
		W->now += W->k.stepCost;
		W->current = pick;
		pick->readySince = -1;
		if (pick->actor) pick->actor->step();
		else
		{
			pick->state = RUNNABLE;
			ctxRun(pick);
			finishRequest(pick);
			if (pick->lag && alive(pick)) pick->stalledUntil = std::max(pick->stalledUntil, W->now + pick->lag);
		}
		W->current = nullptr;
		W->obs->tick();
	}
}

} // namespace sim
