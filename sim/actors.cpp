// Model programs: the commands a server runs, the users in front of the clients, and raw TCP peers.
#include "director.h"

#include <algorithm>
#include <fcntl.h>
#include <sys/wait.h>

namespace sim {

static uint64_t mix64(uint64_t z)
{
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
	return z ^ (z >> 31);
}

uint8_t patternByte(int session, int stream, uint64_t off)
{
	uint64_t h = mix64((uint64_t(session) << 48) ^ (uint64_t(stream) << 40) ^ (off >> 3) ^ 0x5bd1e995ULL);
	return uint8_t(h >> ((off & 7) * 8));
}

void appendPattern(std::string &to, int session, int stream, uint64_t off, size_t n)
{
	for (size_t i = 0; i < n; i++) to += char(patternByte(session, stream, off + i));
}

static bool canWrite(Proc *p, int fd, size_t n)
{
	if (size_t(fd) >= p->fds.size() || !p->fds[size_t(fd)].f) return true; // fails at once
	File *f = p->fds[size_t(fd)].f;
	if (f->type == File::PIPE_W)
	{
		if (!f->pipe->readers) return true;
		size_t space = f->pipe->cap > f->pipe->q.size() ? f->pipe->cap - f->pipe->q.size() : 0;
		return n <= 4096 ? space >= std::min(n, f->pipe->cap) : space > 0;
	}
	return true;
}

static bool canRead(Proc *p, int fd)
{
	if (size_t(fd) >= p->fds.size() || !p->fds[size_t(fd)].f) return true;
	return (kPollFile(p->fds[size_t(fd)].f) & (POLLIN | POLLHUP | POLLERR)) != 0;
}

static File *fdFile(Proc *p, int fd) { return size_t(fd) < p->fds.size() ? p->fds[size_t(fd)].f : nullptr; }

// ---------------------------------------------------------------- the remote command
struct HoldActor : Actor
{
	Director *d;
	Session *s;
	Time wake;
	int64_t left;
	HoldActor(Director *d_, Session *s_, Time w, int64_t n) : d(d_), s(s_), wake(w), left(n) { }
	bool ready() override { return W->now >= wake && (!left || canWrite(p, 1, size_t(std::min<int64_t>(left, 4096)))); }
	Time wakeAt() override { return W->now >= wake ? NEVER : wake; }
	void step() override
	{
		Proc *q = p;
		W->lastProgress = W->now;
		if (!left) { procExit(q, 0); return; }
		File *f = fdFile(q, 1);
		std::string b;
		size_t n = size_t(std::min<int64_t>(left, 4096));
		appendPattern(b, s->id, 1, s->out.written.size(), n);
		Session *ss = s;
		ssize_t r = f ? kWrite(q, f, b.data(), n) : -EBADF;
		if (!alive(q)) return;
		if (r > 0)
		{
			ss->out.written.append(b, 0, size_t(r));
			ss->out.pending.emplace_back(ss->out.written.size(), W->now);
			left -= r;
			logEvent(q, "background process writes %zd", r);
		}
		else left = 0;
	}
};

struct CommandActor : Actor
{
	Director *d;
	Session *s;
	std::vector<Op> ops;
	size_t pc = 0;
	int64_t done = 0, flooded = 0;
	Time wake = -1;
	std::string buf; // CAT: data read and not written yet
	bool terminating = false;

	CommandActor(Director *d_, Session *s_) : d(d_), s(s_), ops(s_->script.ops) { }

	Op cur() const { return pc < ops.size() ? ops[pc] : Op { Op::EXIT, 0, 0, 0 }; }
	void next() { pc++; done = 0; wake = -1; }

	bool waitsForInput() const
	{
		Op o = cur();
		return o.k == Op::IN || o.k == Op::INEOF || o.k == Op::FLOOD || (o.k == Op::CAT && buf.empty());
	}

	bool ready() override
	{
		Op o = cur();
		switch (o.k)
		{
		case Op::OUT: return canWrite(p, 1, size_t(std::min<int64_t>(o.n - done, o.chunk)));
		case Op::ERR: return canWrite(p, 2, size_t(std::min<int64_t>(o.n - done, o.chunk)));
		case Op::IN: case Op::INEOF: return canRead(p, 0);
		case Op::FLOOD: return canRead(p, 0) || (flooded < o.m && canWrite(p, 1, size_t(o.chunk)));
		case Op::CAT: return buf.empty() ? canRead(p, 0) : canWrite(p, 1, std::min<size_t>(buf.size(), 4096));
		case Op::SLEEP: return wake < 0 || W->now >= wake;
		case Op::WAITSEEN: return (!s->out.pipe && !s->out.file) || s->out.accepted() >= s->out.written.size();
		default: return true;
		}
	}

	Time wakeAt() override { return cur().k == Op::SLEEP && wake >= 0 && W->now < wake ? wake : NEVER; }

	bool onSignal(int sig) override
	{
		if (sig == SIGCHLD || sig == SIGCONT || sig == SIGURG || sig == SIGWINCH) return true;
		if (sig == SIGTERM)
		{
			if (!s->termDelivered) { s->termDelivered = true; s->termDeliveredAt = W->now; }
			W->lastProgress = W->now;
			if (s->script.onTerm == 0) return false;
			if (terminating) return true;
			terminating = true;
			ops.clear();
			if (s->script.onTerm == 2) { Op o; o.k = Op::OUT; o.n = 20; o.chunk = 20; ops.push_back(o); }
			if (s->script.termDelay) { Op o; o.k = Op::SLEEP; o.n = s->script.termDelay; ops.push_back(o); }
			Op o; o.k = Op::EXIT; o.n = s->script.termCode; ops.push_back(o);
			pc = 0; done = 0; wake = -1; buf.clear();
			return true;
		}
		return false;
	}

	// returns false when the process is gone
	bool put(int fd, const std::string &b)
	{
		Proc *q = p;
		Session *ss = s;
		File *f = fdFile(q, fd);
		ssize_t r = f ? kWrite(q, f, b.data(), b.size()) : -EBADF;
		if (!alive(q)) return false;
		OutStream &o = fd == 1 ? ss->out : ss->err;
		if (r > 0)
		{
			o.written.append(b, 0, size_t(r));
			o.pending.emplace_back(o.written.size(), W->now);
			done += r;
			logEvent(q, "writes %zd to fd %d", r, fd);
		}
		else if (r != -EAGAIN) done = INT64_MAX;
		return true;
	}

	void step() override
	{
		Op o = cur();
		W->lastProgress = W->now;
		Proc *q = p;
		Session *ss = s;
		switch (o.k)
		{
		case Op::OUT: case Op::ERR:
			{
				int fd = o.k == Op::OUT ? 1 : 2;
				OutStream &st = fd == 1 ? s->out : s->err;
				std::string b;
				appendPattern(b, s->id, fd, st.written.size(), size_t(std::min<int64_t>(o.n - done, o.chunk)));
				if (!b.empty() && !put(fd, b)) return;
				if (done >= o.n) next();
				break;
			}
		case Op::FLOOD:
			if (!canRead(q, 0))
			{
				std::string b;
				appendPattern(b, s->id, 1, s->out.written.size(), size_t(o.chunk));
				int64_t before = done;
				if (!put(1, b)) return;
				flooded = done == INT64_MAX ? o.m : flooded + done - before;
				done = before;
				break;
			}
			// fall through
		case Op::IN: case Op::INEOF: case Op::CAT:
			{
				if (o.k == Op::CAT && !buf.empty())
				{
					std::string b = buf.substr(0, 4096);
					int64_t before = done;
					if (!put(1, b)) return;
					if (done == INT64_MAX) { next(); break; }
					buf.erase(0, size_t(done - before));
					break;
				}
				char tmp[65536];
				size_t want = sizeof tmp;
				if (o.chunk && size_t(o.chunk) < want) want = size_t(o.chunk);
				if ((o.k == Op::IN || o.k == Op::FLOOD) && size_t(o.n - done) < want) want = size_t(o.n - done);
				File *f = fdFile(q, 0);
				if (!want || !f) { next(); break; }
				ssize_t r = kRead(q, f, tmp, want);
				if (r > 0)
				{
					size_t off = s->readIn.size();
					s->readIn.append(tmp, size_t(r));
					logEvent(q, "reads %zd from stdin", r);
					if (s->readIn.size() > s->produced.size() || s->readIn.compare(off, std::string::npos, s->produced, off, size_t(r)) != 0)
						if (!s->raw)
							d->report(d->extraProps(s, "C03 C06").c_str(), "stdin-content", "%s: the command read %zd bytes at offset %zu of its stdin that are not what the client's stdin supplied there (%zu bytes supplied so far)", d->sname(s).c_str(), r, off, s->produced.size());
					if (o.k == Op::CAT) buf.assign(tmp, size_t(r));
					done += o.k == Op::CAT ? 0 : r;
					if ((o.k == Op::IN || o.k == Op::FLOOD) && done >= o.n) next();
				}
				else if (r == 0)
				{
					if (!s->cmdSawEof)
					{
						s->cmdSawEof = true;
						logEvent(q, "sees end of input");
						bool lost = s->lossAt >= 0 || (s->taint & (T_BREAK & ~(T_OUT | T_INPUT))) || s->raw || s->termSentAt >= 0 || s->clientEnded || s->handlerEnded;
						if (!lost && (!s->inputEnded || s->readIn.size() != s->produced.size()))
							d->report(d->extraProps(s, "C03").c_str(), "early-eof", "%s: the command saw end-of-file after %zu bytes although the client's stdin %s", d->sname(s).c_str(), s->readIn.size(), s->inputEnded ? "holds more data" : s->taint & T_INPUT ? "could not be read any further" : "is still open");
					}
					next();
				}
				else if (r != -EAGAIN) next();
				break;
			}
		case Op::CLOSE:
			logEvent(q, "closes fd %d", int(o.n));
			if (fdFile(q, int(o.n))) closeFd(q, int(o.n));
			if (o.n == 0) s->cmdClosedIn = true;
			next();
			break;
		case Op::SLEEP:
			if (wake < 0) wake = W->now + o.n;
			if (W->now >= wake) next();
			break;
		case Op::FORKHOLD:
			{
				Proc *c = newProc(q->ct, R_CMD, "background", q->pid);
				c->session = s;
				c->generation = q->generation;
				c->cwd = q->cwd;
				c->sid = q->sid;
				c->pgid = q->pgid;
				for (int fd = 1; fd < 3; fd++)
					if (File *f = fdFile(q, fd)) setFd(c, fd, f);
				for (size_t fd = 3; fd < q->fds.size(); fd++)
					if (q->fds[fd].f) setFd(c, int(fd), q->fds[fd].f);
				c->actor.reset(new HoldActor(d, s, W->now + o.n, o.m));
				c->actor->p = c;
				s->holders.push_back(c);
				next();
				break;
			}
		case Op::DAEMON: // belongs to no session: it keeps none of the command's descriptors
			{
				Proc *c = newProc(q->ct, R_OTHER, "daemon", q->pid);
				c->cwd = q->cwd;
				c->sid = c->pgid = c->pid;
				c->actor.reset(new HoldActor(d, s, W->now + o.n, 0));
				c->actor->p = c;
				probe("command-starts-daemon");
				next();
				break;
			}
		case Op::EXIT: procExit(q, int(o.n & 0xff) << 8); return;
		case Op::DIE: procExit(q, int(o.n)); return;
		default: next(); break;
		}
		(void)ss;
	}
};

bool commandStarved(Session *s)
{
	if (!s->command || !s->command->actor) return false;
	CommandActor *a = static_cast<CommandActor *>(s->command->actor.get());
	if (!a->waitsForInput()) return false;
	File *f = fdFile(s->command, 0);
	return f && f->type == File::PIPE_R && f->pipe->q.empty();
}

// What the command is doing, for reports.
std::string commandState(Session *s)
{
	if (!s->command || !alive(s->command) || !s->command->actor) return "";
	CommandActor *a = static_cast<CommandActor *>(s->command->actor.get());
	static const char *names[] = { "writes to stdout", "writes to stderr", "reads stdin", "reads stdin to its end", "copies stdin", "closes a descriptor", "sleeps", "starts a background process", "exits", "dies", "waits for its output to be seen", "does nothing", "writes until it gets input", "starts a daemon" };
	Op o = a->cur();
	return std::string(" (") + (size_t(o.k) < sizeof names / sizeof names[0] ? names[size_t(o.k)] : "?") + ", step " + std::to_string(a->pc) + ", " + std::to_string(a->done) + " of " + std::to_string(o.n) + ", stdout " + std::to_string(s->out.written.size()) + " written " + std::to_string(s->out.accepted()) + " accepted)";
}

Actor *Director::makeProgram(Proc *p, const std::string &prog, ExecRec &rec)
{
	(void)rec;
	(void)prog;
	Session *s = p->session;
	static Session orphan;
	if (!s) { orphan = Session(); s = &orphan; }
	return new CommandActor(this, s);
}

// ---------------------------------------------------------------- the user in front of a client
struct PeerActor : Actor
{
	Director *d;
	Session *s;
	size_t item = 0;
	int64_t put = 0;
	Time itemAt;     // time at which the current item may start
	bool prodDone = false;
	Time slowAt[2] = { 0, 0 };
	File *in = nullptr, *outs[2] = { nullptr, nullptr };

	PeerActor(Director *d_, Session *s_) : d(d_), s(s_)
	{
		itemAt = W->now + (s->prod.empty() ? s->prodEofDelay : s->prod[0].delay);
	}

	OutStream &str(int i) { return i ? s->err : s->out; }

	bool prodReady()
	{
		if (prodDone || !in) return false;
		if (item >= s->prod.size()) return s->prodEof && W->now >= itemAt;
		if (s->inPipe && !s->inPipe->readers) return true;
		ProdItem &it = s->prod[item];
		if (W->now < itemAt) return false;
		if (int64_t(s->out.seen.size()) < it.waitSeen) return false;
		return canWrite(p, fdNum(in), size_t(std::min<int64_t>(it.n - put, it.chunk)));
	}

	int fdNum(File *f)
	{
		for (size_t i = 0; i < p->fds.size(); i++) if (p->fds[i].f == f) return int(i);
		return 99;
	}

	bool consReady(int i)
	{
		OutStream &o = str(i);
		if (!outs[i]) return false;
		bool data = (kPollFile(outs[i]) & (POLLIN | POLLHUP)) != 0;
		switch (o.c.m)
		{
		case Consumer::SLOW: return W->now >= slowAt[i] && data;
		case Consumer::PAUSED: return W->now >= o.c.until && data;
		case Consumer::CLOSE_AFTER: return data || int64_t(o.seen.size()) >= o.c.after;
		default: return data;
		}
	}

	bool ready() override { return prodReady() || consReady(0) || consReady(1); }

	Time wakeAt() override
	{
		Time t = NEVER;
		if (!prodDone && in && W->now < itemAt) t = itemAt;
		for (int i = 0; i < 2; i++)
		{
			OutStream &o = str(i);
			if (!outs[i]) continue;
			if (o.c.m == Consumer::SLOW && W->now < slowAt[i] && (kPollFile(outs[i]) & (POLLIN | POLLHUP))) t = std::min(t, slowAt[i]);
			if (o.c.m == Consumer::PAUSED && W->now < o.c.until) t = std::min(t, o.c.until);
		}
		return t;
	}

	void produce()
	{
		if (item >= s->prod.size())
		{
			logEvent(p, "ends the client's stdin after %zu bytes", s->produced.size());
			closeFd(p, fdNum(in));
			in = nullptr;
			prodDone = true;
			s->inputEnded = true;
			return;
		}
		ProdItem &it = s->prod[item];
		std::string b;
		appendPattern(b, s->id, 0, s->produced.size(), size_t(std::min<int64_t>(it.n - put, it.chunk)));
		ssize_t r = b.empty() ? 0 : kWrite(p, in, b.data(), b.size(), true);
		if (r < 0 && r != -EAGAIN) { closeFd(p, fdNum(in)); in = nullptr; prodDone = true; s->inputEnded = true; return; }
		if (r > 0) { s->produced.append(b, 0, size_t(r)); put += r; logEvent(p, "supplies %zd bytes on the client's stdin", r); }
		if (put >= it.n)
		{
			item++;
			put = 0;
			itemAt = W->now + (item < s->prod.size() ? s->prod[item].delay : s->prodEofDelay);
		}
	}

	void consume(int i)
	{
		OutStream &o = str(i);
		char tmp[65536];
		size_t want = sizeof tmp;
		if (o.c.m == Consumer::SLOW) { want = size_t(std::max<int64_t>(1, o.c.chunk)); slowAt[i] = W->now + o.c.period; }
		if (o.c.m == Consumer::CLOSE_AFTER)
		{
			if (int64_t(o.seen.size()) >= o.c.after)
			{
				logEvent(p, "closes the client's %s", i ? "stderr" : "stdout");
				o.consumerClosed = true;
				s->taint |= T_OUT;
				closeFd(p, fdNum(outs[i]));
				outs[i] = nullptr;
				fault("consumer-closed-output");
				return;
			}
			want = std::min(want, size_t(o.c.after - int64_t(o.seen.size())));
		}
		ssize_t r = kRead(p, outs[i], tmp, std::min(want, sizeof tmp));
		if (r > 0) { o.seen.append(tmp, size_t(r)); logEvent(p, "sees %zd bytes on %s", r, i ? "stderr" : "stdout"); }
		else if (r == 0)
		{
			o.eofSeen = true;
			if (!s->clientEnded && !s->cmdEnded) probe("output-end-seen-while-command-runs");
			closeFd(p, fdNum(outs[i]));
			outs[i] = nullptr;
		}
	}

	void step() override
	{
		W->lastProgress = W->now;
		int opt[3], n = 0;
		if (prodReady()) opt[n++] = 0;
		if (consReady(0)) opt[n++] = 1;
		if (consReady(1)) opt[n++] = 2;
		if (!n) return;
		switch (opt[chSched.draw(uint32_t(n))])
		{
		case 0: produce(); break;
		case 1: consume(0); break;
		default: consume(1); break;
		}
	}

	bool onSignal(int) override { return true; }
};

// Creates the user process together with the client's three standard streams, which are installed in s->client.
Actor *newPeer(Director *d, Session *s)
{
	Proc *p = newProc(s->ct, R_PEER, "user" + std::to_string(s->id), 1);
	s->peer = p;
	PeerActor *a = new PeerActor(d, s);
	p->actor.reset(a);
	a->p = p;
	int fd = 3;
	auto tagged = [](File *f, const char *t) { f->tag = t; f->inherited = true; return f; };
	if (s->inMode == 0)
	{
		s->inPipe = newPipe(W->k.pipeCap);
		File *r = tagged(newFile(File::PIPE_R), "client-stdin"), *w = tagged(newFile(File::PIPE_W), "user-stdin");
		r->pipe = w->pipe = s->inPipe;
		r->flags = O_RDONLY;
		w->flags = O_WRONLY;
		setFd(s->client, 0, r);
		setFd(p, fd++, w);
		a->in = w;
	}
	else if (s->inMode == 1)
	{
		File *f = tagged(newFile(File::NUL), "null");
		f->ino = W->devNull;
		W->devNull->openCount++;
		setFd(s->client, 0, f);
		s->inputEnded = true;
		a->prodDone = true;
	}
	else if (s->inMode >= 3)
	{
		Inode *n = mkNode(Inode::REG, 0644);
		for (auto &it : s->prod) appendPattern(n->data, s->id, 0, n->data.size(), size_t(it.n));
		s->produced = n->data;
		s->inputEnded = s->inMode == 3;
		if (s->inMode == 4)
		{
			n->readErrAt = int64_t(chScn.draw(uint32_t(n->data.size() + 1)));
			s->produced.resize(size_t(n->readErrAt));
		}
		a->prodDone = true;
		File *f = tagged(newFile(File::REG), "client-stdin-file");
		f->ino = n;
		f->flags = O_RDONLY;
		n->openCount++;
		setFd(s->client, 0, f);
	}
	else
	{
		s->inputEnded = true;
		a->prodDone = true;
	}
	for (int i = 0; i < 2; i++)
	{
		OutStream &o = i ? s->err : s->out;
		switch (o.c.m)
		{
		case Consumer::FILE_: case Consumer::BROKENFILE:
			{
				o.file = mkNode(Inode::REG, 0644);
				if (o.c.m == Consumer::BROKENFILE)
				{
					o.file->spaceLeft = o.c.after;
					o.file->spaceErrno = chScn.draw(2) ? EIO : ENOSPC;
				}
				File *f = tagged(newFile(File::REG), "client-output-file");
				f->ino = o.file;
				f->flags = O_WRONLY;
				o.file->openCount++;
				setFd(s->client, 1 + i, f);
				break;
			}
		case Consumer::FULL:
			{
				File *f = tagged(newFile(File::FULL), "full");
				f->ino = W->devFull;
				f->flags = O_WRONLY;
				W->devFull->openCount++;
				setFd(s->client, 1 + i, f);
				break;
			}
		case Consumer::NULL_:
			{
				File *f = tagged(newFile(File::NUL), "null");
				f->ino = W->devNull;
				f->flags = O_WRONLY;
				W->devNull->openCount++;
				setFd(s->client, 1 + i, f);
				break;
			}
		case Consumer::CLOSED: break;
		default:
			{
				o.pipe = newPipe(W->k.pipeCap);
				File *r = tagged(newFile(File::PIPE_R), "user-output"), *w = tagged(newFile(File::PIPE_W), "client-output");
				r->pipe = w->pipe = o.pipe;
				w->flags = O_WRONLY;
				setFd(s->client, 1 + i, w);
				setFd(p, fd++, r);
				a->outs[i] = r;
				break;
			}
		}
	}
	return a;
}

// ---------------------------------------------------------------- a raw TCP peer
struct RawActor : Actor
{
	Director *d;
	Session *s;
	Sock *sock = nullptr;
	File *file = nullptr;
	size_t sent = 0, pause = 0;
	Time wake = 0, holdUntil = -1;
	bool shut = false;
	int tries = 0;

	RawActor(Director *d_, Session *s_) : d(d_), s(s_) { }

	RawPlan &r() { return s->rawPlan; }

	bool sendable()
	{
		if (sent >= r().bytes.size() || !sock || shut) return false;
		if (pause < r().pauses.size() && r().pauses[pause].first <= sent) return true; // begins the pause
		return (kPollFile(file) & (POLLOUT | POLLERR)) != 0;
	}

	bool wantsRead() { return sock && holdUntil < 0 && (r().readLimit < 0 || int64_t(r().received.size()) < r().readLimit); }

	bool atEnd() { return sent >= r().bytes.size(); }

	bool ready() override
	{
		if (s->peerDone) return false;
		if (W->now < wake) return false;
		if (!sock) return true;
		if (holdUntil >= 0) return W->now >= holdUntil;
		if (sendable()) return true;
		if (atEnd() && r().endMode != 0 && r().endMode != 5) return r().endMode == 2 ? !shut || (kPollFile(file) & (POLLIN | POLLHUP | POLLERR)) : true;
		return wantsRead() ? (kPollFile(file) & (POLLIN | POLLHUP | POLLERR)) != 0 : true;
	}

	Time wakeAt() override
	{
		if (s->peerDone) return NEVER;
		if (W->now < wake) return wake;
		if (holdUntil >= 0) return holdUntil;
		return NEVER;
	}

	void finishUp(bool reset)
	{
		if (sock)
		{
			sock->abortOnClose = reset;
			if (!s->cmdEnded) d->markLoss(s, reset ? "raw peer resets" : "raw peer closes");
			for (size_t i = 0; i < p->fds.size(); i++) if (p->fds[i].f == file) closeFd(p, int(i));
		}
		logEvent(p, reset ? "resets its connection" : "closes its connection");
		sock = nullptr;
		s->peerDone = true;
		s->clientEnded = true;
		s->clientEndAt = W->now;
	}

	void step() override
	{
		W->lastProgress = W->now;
		if (!sock)
		{
			Sock *n = newSock(p);
			int e = kConnectStart(p, n, 0, d->cfg.hosts[size_t(s->host)].port);
			if (e)
			{
				wake = W->now + 50 * MS;
				if (++tries > 40) finishUp(false);
				return;
			}
			sock = n;
			file = newFile(File::SOCK);
			file->sock = n;
			file->flags = O_RDWR;
			allocFd(p, file, false, 3);
			s->conn = n;
			s->connected = true;
			s->connectedAt = W->now;
			logEvent(p, "connects");
			return;
		}
		if (holdUntil >= 0) { finishUp(false); return; }
		bool canRd = wantsRead() && (kPollFile(file) & (POLLIN | POLLHUP | POLLERR));
		bool canSn = sendable();
		if (canRd && canSn ? chSched.draw(2) : canRd)
		{
			char tmp[65536];
			ssize_t n = kRead(p, file, tmp, sizeof tmp);
			if (n > 0)
			{
				r().received.append(tmp, size_t(n));
				if (r().readLimit >= 0 && int64_t(r().received.size()) >= r().readLimit && r().endMode == 5) { finishUp(false); return; }
			}
			else if (n == 0 || n != -EAGAIN)
			{
				if (n < 0) logEvent(p, "connection error %d", int(-n));
				finishUp(false);
			}
			return;
		}
		if (canSn)
		{
			if (pause < r().pauses.size() && r().pauses[pause].first <= sent)
			{
				wake = W->now + r().pauses[pause].second;
				pause++;
				return;
			}
			size_t n = std::min(r().bytes.size() - sent, size_t(r().chunk));
			if (pause < r().pauses.size()) n = std::min(n, r().pauses[pause].first - sent);
			ssize_t k = kWrite(p, file, r().bytes.data() + sent, n, true);
			if (k > 0) { sent += size_t(k); logEvent(p, "sends %zd raw bytes", k); }
			else if (k != -EAGAIN) sent = r().bytes.size();
			return;
		}
		if (atEnd())
		{
			switch (r().endMode)
			{
			case 1: finishUp(false); break;
			case 2:
				if (!shut) { shut = true; kShutdown(sock, 1); d->markLoss(s, "half-close"); logEvent(p, "shuts down its sending side"); }
				break;
			case 3: finishUp(true); break;
			case 4: holdUntil = W->now + r().hold; break;
			default: break;
			}
		}
		if (r().readLimit >= 0 && !wantsRead() && r().endMode == 0) holdUntil = W->now + r().hold;
	}

	bool onSignal(int) override { return true; }
};

void newNeighbour(Director *d, Server *v, Proc *parent)
{
	Proc *c = newProc(v->ct, R_OTHER, "neighbour", parent->pid);
	c->sid = parent->sid;
	c->pgid = c->pid;
	c->actor.reset(new HoldActor(d, nullptr, W->now + v->neighbour, 0));
	c->actor->p = c;
	probe("server-with-neighbour");
}

Actor *newRaw(Director *d, Session *s)
{
	Proc *p = newProc(s->ct, R_RAW, "raw" + std::to_string(s->id), 1);
	p->session = s;
	s->client = p;
	RawActor *a = new RawActor(d, s);
	p->actor.reset(a);
	a->p = p;
	return a;
}

// ---------------------------------------------------------------- connections without end
struct StormActor : Actor
{
	Director *d;
	Server *v;
	Time wake = 0, end = 0;
	std::vector<std::pair<Sock *, File *>> held;

	bool ready() override { return W->now >= wake && (W->now < end || !held.empty()); }
	Time wakeAt() override { return W->now < wake && (wake < end || !held.empty()) ? wake : NEVER; }

	void drop(size_t i, bool reset)
	{
		held[i].first->abortOnClose = reset;
		for (size_t k = 0; k < p->fds.size(); k++) if (p->fds[k].f == held[i].second) closeFd(p, int(k));
		held.erase(held.begin() + ptrdiff_t(i));
	}

	void step() override
	{
		wake = W->now + v->stormPeriod;
		if (W->now >= end)
		{
			while (!held.empty()) drop(0, false);
			return;
		}
		Sock *n = newSock(p);
		if (kConnectStart(p, n, 0, d->cfg.hosts[size_t(v->host)].port))
		{
			if (!held.empty()) drop(0, false);
			return;
		}
		File *f = newFile(File::SOCK);
		f->sock = n;
		f->flags = O_RDWR;
		allocFd(p, f, false, 3);
		held.emplace_back(n, f);
		if (held.size() > (v->stormMode == 2 ? 12u : 0u)) drop(0, v->stormMode == 1);
	}

	bool onSignal(int) override { return true; }
};

void Director::startStorm(Server *v)
{
	Proc *p = newProc(v->ct, R_RAW, "storm" + std::to_string(v->index), 1);
	StormActor *a = new StormActor;
	a->d = this;
	a->v = v;
	a->end = W->now + v->stormFor;
	p->actor.reset(a);
	a->p = p;
	logEvent(p, "connects every %.0f ms for %.1f s", double(v->stormPeriod) / MS, double(v->stormFor) / 1e9);
	fault("connection-storm");
}

// ---------------------------------------------------------------- reference models
Env envMap(const std::vector<std::string> &env)
{
	Env e;
	for (auto &s : env)
	{
		size_t q = s.find('=');
		if (q != std::string::npos && !e.count(s.substr(0, q))) e[s.substr(0, q)] = s.substr(q + 1);
	}
	return e;
}

std::vector<std::string> envVec(const Env &e)
{
	std::vector<std::string> v;
	for (auto &x : e) v.push_back(x.first + "=" + x.second);
	return v;
}

std::string expand(const Template &t, bool loadOnly, const Env &loader, const std::map<std::string, std::string> &vars, const Env &server)
{
	(void)loadOnly;
	std::string r;
	for (auto &p : t)
	{
		if (p.k == Piece::LIT) { r += p.s; continue; }
		if (p.k == Piece::LATEREF && vars.count(p.s)) { r += vars.at(p.s); continue; }
		const Env &e = p.k == Piece::LOADREF ? loader : server;
		auto it = e.find(p.s);
		if (it != e.end()) r += it->second;
		else if (p.hasDef) r += p.def;
	}
	return r;
}

// The environment a command must get, from the documented rules.
Env referenceEnv(const Cfg &cfg, const CfgCmd &c, const Env &client, const Env &server)
{
	std::map<std::string, std::string> vars;
	std::vector<EnvRule> rules = cfg.hosts[size_t(c.host)].env;
	rules.insert(rules.end(), c.env.begin(), c.env.end());
	// the client sends the variables that are not inherited ones
	std::set<std::string> sent;
	for (auto &r : rules)
		if (r.kind != '=') sent.insert(r.name);
	std::set<std::string> unset;
	for (auto &r : rules)
	{
		auto set = [&](const std::string &v) { vars[r.name] = v; };
		bool empty = r.value.empty() || expand(r.value, false, server, vars, server).empty();
		// an empty template means "inherit"; a template that merely expands to nothing while loading is empty as well
		bool literalEmpty = true;
		for (auto &p : r.value)
			if (p.k == Piece::LATEREF || !expand({ p }, false, server, vars, server).empty()) literalEmpty = false;
		(void)empty;
		if (r.kind == '=')
		{
			if (!literalEmpty) set(expand(r.value, false, server, vars, server));
			else if (server.count(r.name)) set(server.at(r.name));
			else vars.erase(r.name);
		}
		else if (sent.count(r.name) && client.count(r.name)) set(client.at(r.name));
		else if (literalEmpty && r.kind == '?')
		{
			if (vars.count(r.name)) { }
			else if (server.count(r.name)) set(server.at(r.name));
		}
		else set(expand(r.value, false, server, vars, server));
	}
	return vars;
}

// Decodes what a raw peer sends, independently of the code under test.
void decodeRaw(RawPlan &r)
{
	size_t i = 0;
	r.complete = false;
	r.args.clear();
	r.env.clear();
	r.wd.clear();
	r.wdSet = false;
	const std::string &b = r.bytes;
	while (i + 5 <= b.size())
	{
		int type = uint8_t(b[i]);
		uint32_t len = uint32_t(uint8_t(b[i + 1])) | uint32_t(uint8_t(b[i + 2])) << 8 | uint32_t(uint8_t(b[i + 3])) << 16 | uint32_t(uint8_t(b[i + 4])) << 24;
		if (type > 3) return;
		i += 5;
		if (len > b.size() - i) return;
		std::string v = b.substr(i, len);
		i += len;
		if (type == 0) { r.wd = v; r.wdSet = true; }
		else if (type == 1)
		{
			size_t q = v.find('=');
			if (q != std::string::npos) r.env[v.substr(0, q)] = v.substr(q + 1);
		}
		else if (type == 2) r.args.push_back(v);
		else
		{
			r.name = v;
			r.complete = true;
			return;
		}
	}
}

std::string frame(int type, const std::string &s)
{
	std::string r;
	r += char(type);
	for (int i = 0; i < 4; i++) r += char(uint8_t(s.size() >> (8 * i)));
	return r + s;
}

} // namespace sim
