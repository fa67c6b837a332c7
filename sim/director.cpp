// The director: observes the simulated system, injects faults and decides the properties.
#include "director.h"

#include <algorithm>
#include <cstdarg>
#include <fcntl.h>
#include <sys/wait.h>

namespace sim {

bool commandStarved(Session *s);
std::string commandState(Session *s);

static const Time PROMPT = 8 * SEC;     // bound for "within a bounded time" of visible data
static const Time TERM_BOUND = 6 * SEC; // bound for SIGTERM after a loss
static const Time STUCK = 25 * SEC;
static const Time GRAIN = 2 * MS;       // limits are given in whole milliseconds

// ---------------------------------------------------------------- helpers
static std::string quoteShort(const std::string &s)
{
	std::string r = "\"";
	for (size_t i = 0; i < s.size() && i < 60; i++)
	{
		unsigned char c = static_cast<unsigned char>(s[i]);
		char b[8];
		if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += char(c);
	}
	return r + (s.size() > 60 ? "...\"" : "\"");
}

static std::string statusText(int st)
{
	return WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st));
}

static bool succeeded(int st) { return WIFEXITED(st) && WEXITSTATUS(st) == 0; }

void Director::report(const char *props, const std::string &sig, const char *fmt, ...)
{
	char body[1200];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(body, sizeof body, fmt, ap);
	va_end(ap);
	std::string p = props;
	// what the configuration calls for is not what happens
	static const std::set<std::string> config = { "argv", "env", "cwd", "wrong-program", "exec-unconfigured", "start-failed", "stub-missing", "unexpected-file", "stub-only-failed", "not-started", "gave-up", "gave-up-early", "gives-up-late", "unserved", "not-connecting", "launcher-failed", "start-hangs", "server-ended", "stub-left", "kept-stub-gone", "stub-not-disabled" };
	static const std::set<std::string> paths = { "cwd", "wrong-program", "start-failed", "stub-missing", "unexpected-file", "stub-only-failed", "not-started", "not-connecting", "launcher-failed", "stub-left", "kept-stub-gone", "stub-not-disabled", "bystander-gone", "pid-file", "pid-file-left", "stub-vanished", "pid-vanished", "gave-up", "gave-up-early" };
	if (prop == "C17" && !hostile && config.count(sig)) p += " C17";
	if (prop == "C18" && !hostile && paths.count(sig)) p += " C18";
	std::set<std::string> seen;
	for (size_t i = 0; i < p.size();)
	{
		size_t j = p.find(' ', i);
		if (j == std::string::npos) j = p.size();
		std::string id = p.substr(i, j - i);
		i = j + 1;
		if (id.empty() || !seen.insert(id).second) continue;
		bool dup = false;
		for (auto &v : violations) dup |= v.prop == id && v.sig == sig;
		if (dup) continue;
		violations.push_back(Violation { id, sig, body, W->now, W->step });
		if (id == prop) finished = true;
	}
	logEvent(nullptr, "VIOLATION [%s] %s: %s", props, sig.c_str(), body);
}

void Director::at(Time t, std::function<void()> f)
{
	auto it = timeline.begin() + ptrdiff_t(timelinePos);
	while (it != timeline.end() && it->first <= t) ++it;
	timeline.insert(it, std::make_pair(t, std::move(f)));
}

std::string Director::sname(Session *s)
{
	std::string r = std::string(s->probe ? "probe " : "session ") + std::to_string(s->id);
	if (s->raw) return r + " (raw peer)";
	if (s->cmd >= 0) r += " (" + std::string(s->kind) + " " + cfg.cmds[size_t(s->cmd)].name + ")";
	return r;
}

Server *Director::serverOf(Proc *p)
{
	return p->generation > 0 && p->generation <= int(servers.size()) ? servers[size_t(p->generation) - 1].get() : nullptr;
}

Server *Director::currentServer(int host)
{
	Server *r = nullptr;
	for (auto &s : servers)
		if (s->host == host && s->started && !s->ended && !s->mustFail) r = s.get();
	return r;
}

bool Director::faultedElsewhere(Session *s)
{
	for (auto &o : sessions)
		if (o.get() != s && o->started && (o->taint || o->raw || !o->probe))
			if (o->startAt <= (s->clientEndAt >= 0 ? s->clientEndAt : W->now) && (o->clientEndAt < 0 || o->clientEndAt >= s->startAt)) return true;
	return false;
}

// The properties whose statement is broken when session s goes wrong, given what was going on around it.
std::string Director::extraProps(Session *s, const char *base)
{
	std::string r = base;
	if (s->probe) r += " C08";
	if (hostile) r += " C08";
	if (faultedElsewhere(s)) r += " C06";
	Server *v = s->server;
	if (v && (v->stopAt >= 0 || v->maxConn >= 0 || v->timeoutMs >= 0)) r += " C10";
	if (v && v->daemon) r += " C15";
	if (s->command && s->readIn.size() < s->produced.size()) r += " C03";
	return r;
}

// ---------------------------------------------------------------- starting things
static void ignoreSignals(Proc *p, const std::vector<int> &signals)
{
	for (int sig : signals)
	{
		p->sig[sig].h = SIG_IGN;
		p->startIgn |= uint64_t(1) << sig;
		probe("started-with-signal-ignored");
	}
}

void Director::startServer(Server *s)
{
	Proc *p = newProc(s->ct, R_SERVER, "server" + std::to_string(s->index), 1);
	p->generation = s->index + 1;
	p->launcher = s->daemon;
	p->cwd = s->cwd;
	p->sid = p->pgid = s->daemon ? p->pid + 100000 : p->pid; // a launcher belongs to some shell's session
	if (s->init) { s->ct->initPid = p->pid; p->sid = p->pgid = p->pid; }
	s->launcher = s->proc = p;
	s->started = true;
	s->startAt = W->now;
	auto std_ = [&](int fd, Pipe *&pipe, File *&file, const char *tag) {
		pipe = newPipe(1 << 20);
		file = newFile(File::PIPE_W);
		file->pipe = pipe;
		file->flags = O_WRONLY;
		file->tag = tag;
		file->inherited = true;
		setFd(p, fd, file);
	};
	std_(1, s->launchOut, s->launchOutFile, "server-stdout");
	std_(2, s->launchErr, s->launchErrFile, "server-stderr");
	File *in = newFile(File::NUL);
	in->ino = W->devNull;
	W->devNull->openCount++;
	in->inherited = true;
	setFd(p, 0, in);
	// descriptors the server was started without
	for (int fd = 0; fd < 3; fd++)
		if (s->generation & (1 << (8 + fd))) closeFd(p, fd);
	W->lastProgress = W->now;
	if (s->neighbour) newNeighbour(this, s, p);
	ignoreSignals(p, s->ignored);
	logEvent(p, "started");
	int e = spawnExec(p, s->argv[0][0] == '/' ? s->argv[0] : "/bin/" + s->argv[0], s->argv, envVec(s->env));
	if (e) spawnError = "server: errno " + std::to_string(e);
}

// A signal reaches a server that does not serve yet: it may end without serving, but never with the files it created left behind.
void Director::signalStarting(Server *v, Proc *t, int sig)
{
	static const std::map<int, const char *> names = { { SIGTERM, "SIGTERM" }, { SIGINT, "SIGINT" }, { SIGHUP, "SIGHUP" } };
	std::string n = std::string("signal-starting-server-") + names.at(sig);
	fault(n.c_str());
	W->lastProgress = W->now;
	if (sig == SIGHUP && v->daemon)
	{
		// the terminal hangs up: whether the daemon has left it already is up to the moment
		v->mayFail = v->mayStop = true;
		int sid = t->sid;
		for (Proc *q : { v->launcher, v->proc })
			if (q && alive(q) && (q->sid == sid || q == t)) { sendSignal(q, sig, nullptr); if (v->launcher == v->proc) break; }
		return;
	}
	if (t->sig[sig].h == SIG_IGN) { } // it was started with the signal ignored and does not handle it yet
	else if (t != v->proc) v->mayFail = v->mayStop = true; // the launcher: the daemon may or may not go on
	else
	{
		if (v->stopAt < 0) { v->stopAt = W->now; v->stopWhy = names.at(sig); }
		v->termSent = true;
	}
	sendSignal(t, sig, nullptr);
}

void Director::startSession(Session *s)
{
	s->startAt = W->now;
	s->started = true;
	W->lastProgress = W->now;
	if (s->raw) { newRaw(this, s); return; }
	Proc *p = newProc(s->ct, s->install ? R_INSTALL : R_CLIENT, "client" + std::to_string(s->id), 1);
	p->session = s;
	p->cwd = s->cwd;
	s->client = p;
	ignoreSignals(p, s->ignored);
	newPeer(this, s);
	int e = spawnExec(p, s->exePath, s->argv, envVec(s->env));
	if (e)
	{
		logEvent(p, "cannot be started: errno %d", e);
		s->taint |= T_UNSERVED | T_CLIENT;
		procExit(p, 127 << 8);
	}
}

void Director::stopServer(Server *s, int sig)
{
	if (!s->started || s->ended || !s->proc || !alive(s->proc)) return;
	if (sig == SIGKILL)
	{
		s->killed = true;
		s->stopAt = s->stopAt < 0 ? W->now : s->stopAt;
		s->stopWhy = "SIGKILL";
		fault("kill-server");
		if (s->proc->lastAccepted && s->proc->lastAccepted->session) s->proc->lastAccepted->session->taint |= T_SRV;
		sendSignal(s->proc, SIGKILL, nullptr);
		return;
	}
	if (s->servingAt < 0) { at(W->now + 20 * MS, [this, s, sig] { stopServer(s, sig); }); return; }
	W->lastProgress = W->now;
	if (!(sig == SIGHUP && s->daemon))
	{
		if (s->stopAt < 0) { s->stopAt = W->now; s->stopWhy = sig == SIGTERM ? "SIGTERM" : sig == SIGINT ? "SIGINT" : "SIGHUP"; }
		s->termSent = true;
		bool active = false;
		for (Session *x : s->sessions) active |= x->handler && alive(x->handler);
		probe(active ? "stop-with-active-sessions" : "stop-when-idle");
	}
	else { probe("hup-to-daemon"); sendSignal(s->proc, sig, nullptr); return; }
	if (!s->groupSignal) { sendSignal(s->proc, sig, nullptr); return; }
	// a terminal or a service manager signals everything that the server has started, too
	fault("signal-process-group");
	std::vector<Proc *> group;
	for (Proc *q : W->live)
		if (alive(q) && q->pgid == s->proc->pgid && q->ct == s->ct) group.push_back(q);
	for (Proc *q : group)
	{
		if (q->role == R_CHILD && q->session) q->session->taint |= T_HANDLER;
		if (q->role == R_HANDLER) probe("signal-to-handler");
		sendSignal(q, sig, nullptr);
	}
}

void Director::markLoss(Session *s, const char *why)
{
	if (s->lossAt >= 0) return;
	s->lossAt = W->now;
	s->lossWhy = why;
	logEvent(nullptr, "%s loses its client: %s", sname(s).c_str(), why);
	if (s->command && alive(s->command)) probe("loss-while-command-runs");
}

// ---------------------------------------------------------------- events
void Director::onFork(Proc *parent, Proc *child)
{
	Server *v = serverOf(parent);
	if (parent->role == R_SERVER)
	{
		if (parent->lastAccepted)
		{
			child->role = R_HANDLER;
			Session *s = parent->lastAccepted->session;
			child->session = s;
			child->name = s ? "h" + std::to_string(s->id) : "h?";
			parent->lastAccepted = nullptr;
			if (s) { s->handler = child; s->startedHandlers++; }
			if (v) v->handled++;
		}
		else
		{
			child->role = R_SERVER;
			child->daemonChild = true;
			child->launcher = false;
			if (v && v->servingAt < 0) v->proc = child;
		}
	}
	else if (parent->role == R_HANDLER)
	{
		child->role = R_CHILD;
		child->session = parent->session;
		child->name = parent->session ? "c" + std::to_string(parent->session->id) : "c?";
	}
	else if (parent->role == R_CLIENT || parent->role == R_INSTALL) child->role = R_OTHER;
}

void Director::onExec(ExecRec &r)
{
	Proc *p = r.p;
	if (p->role == R_SERVER || p->role == R_CLIENT || p->role == R_INSTALL)
	{
		if (p->launcher || p->syscallCount == 0) { if (!p->uut) return; }
		report("C09", "exec-role", "a %s process executed %s", roleName(p->role), r.path.c_str());
		return;
	}
	if (p->role != R_CHILD && p->role != R_HANDLER) return;
	p->role = R_CMD;
	p->name = "cmd";
	Session *s = p->session;
	if (!s) { report("C09", "exec-without-session", "a command was started without any connection: %s", r.path.c_str()); return; }
	p->name = "cmd" + std::to_string(s->id);
	r.session = s;
	s->execs.push_back(r);
	if (s->execs.size() > 1)
		report("C09", "exec-twice", "%s: a second program (%s) was started for one connection", sname(s).c_str(), r.path.c_str());
	s->command = p;
	if (s->execAt < 0) s->execAt = W->now;
	for (int i = 0; i < 2; i++)
		if (File *f = size_t(1 + i) < p->fds.size() ? p->fds[size_t(1 + i)].f : nullptr) (i ? s->err : s->out).cmdPipe = f->type == File::PIPE_W ? f->pipe : nullptr;
	W->lastProgress = W->now;
	compareExec(s, r);
}

void Director::compareExec(Session *s, ExecRec &r)
{
	Server *v = serverOf(r.p);
	std::string want = s->raw ? s->rawPlan.name : cfg.cmds[size_t(s->cmd)].name;
	if (s->raw)
	{
		RawPlan got;
		got.bytes = s->rawPlan.bytes.substr(0, size_t(std::min<uint64_t>(s->rawPlan.bytes.size(), s->conn && s->conn->peer ? s->conn->peer->bytesIn : 0)));
		decodeRaw(got);
		if (!got.complete)
		{
			report(extraProps(s, "C09").c_str(), "exec-incomplete", "%s: %s was started although no complete start request was received (%zu bytes)", sname(s).c_str(), r.path.c_str(), got.bytes.size());
			return;
		}
	}
	const CfgCmd *c = nullptr;
	for (auto &x : cfg.cmds)
		if (x.name == want && v && x.host == v->host) c = &x;
	if (!c)
	{
		report("C09 C05", "exec-unconfigured", "%s: server for host %s started %s for \"%s\", which is not configured for it", sname(s).c_str(), v ? v->nameGiven.c_str() : "?", r.path.c_str(), want.c_str());
		return;
	}
	auto mark = [&](const std::string &text) { // does the text belong to another session?
		for (auto &o : sessions)
			if (o.get() != s && text.find("S" + std::to_string(o->id) + ":") != std::string::npos) return true;
		return false;
	};
	const char *base = s->raw ? "C05 C09" : "C05";
	// program
	std::string prog = r.p->exe ? r.p->exe->data : "";
	if (prog.compare(0, 8, "#!model:") == 0) prog = prog.substr(8);
	while (!prog.empty() && prog.back() == '\n') prog.pop_back();
	if (prog != c->program && !(s->taint & T_RES)) // (after a failing execv() the search path is used)
		report(base, "wrong-program", "%s: %s was started (%s), expected program %s", sname(s).c_str(), r.p->exePath.c_str(), quoteShort(prog).c_str(), c->program.c_str());
	// arguments
	std::vector<std::string> argv;
	for (auto &t : c->exec) argv.push_back(expand(t, true, v->env, {}, v->env));
	if (c->exec.empty()) argv.push_back(c->name);
	const std::vector<std::string> &extra = s->raw ? s->rawPlan.args : s->args;
	// C strings end at a NUL byte
	for (auto a : extra) { size_t z = a.find('\0'); argv.push_back(z == std::string::npos ? a : a.substr(0, z)); }
	if (argv != r.argv)
	{
		std::string e, g;
		bool foreign = false;
		for (auto &a : argv) e += " " + quoteShort(a);
		for (auto &a : r.argv) { g += " " + quoteShort(a); foreign |= mark(a); }
		report((std::string(base) + (foreign ? " C06" : "")).c_str(), "argv", "%s: arguments are%s but should be%s", sname(s).c_str(), g.substr(0, 500).c_str(), e.substr(0, 500).c_str());
	}
	// directory
	std::string rel = s->raw ? s->rawPlan.wd : s->relDir;
	if (!s->raw || s->rawPlan.wellFormed)
	{
		std::string dir = s->raw && cfg.baseRoot ? "" : mounts[size_t(v->host)];
		if (!cfg.baseSub.empty()) dir += "/" + cfg.baseSub;
		if (!rel.empty()) dir += "/" + rel;
		if (r.cwd != dir)
			report(base, "cwd", "%s: started in %s instead of %s", sname(s).c_str(), r.cwd.c_str(), dir.c_str());
	}
	// environment
	Env ref = referenceEnv(cfg, *c, s->raw ? s->rawPlan.env : s->env, v->env);
	for (auto &x : ref) { size_t z = x.second.find('\0'); if (z != std::string::npos) x.second.resize(z); }
	std::vector<std::string> we = envVec(ref), ge = r.env;
	std::sort(we.begin(), we.end());
	std::sort(ge.begin(), ge.end());
	if (we != ge)
	{
		std::string d;
		bool foreign = false;
		for (auto &x : ge) if (!std::binary_search(we.begin(), we.end(), x)) { d += " +" + quoteShort(x); foreign |= mark(x); }
		for (auto &x : we) if (!std::binary_search(ge.begin(), ge.end(), x)) d += " -" + quoteShort(x);
		if (d.empty()) d = " (a variable is listed twice)";
		report((std::string(base) + (foreign ? " C06" : "")).c_str(), "env", "%s: environment differs:%s", sname(s).c_str(), d.substr(0, 700).c_str());
	}
	// descriptors
	if (!r.leakedFds.empty())
	{
		std::string l;
		bool listening = false;
		for (auto &x : r.leakedFds) { l += " " + x; listening |= x.find("listening") != std::string::npos; }
		report(listening ? "C06 C08" : "C06", "leaked-fd", "%s: the command was started with descriptors of the server:%s", sname(s).c_str(), l.c_str());
	}
	for (int i = 0; i < 3; i++)
		if (r.stdFds[size_t(i)].find("socket") != std::string::npos)
			report("C06", "std-fd-socket", "%s: descriptor %d of the command is a %s", sname(s).c_str(), i, r.stdFds[size_t(i)].c_str());
	File *f[3];
	for (int i = 0; i < 3; i++) f[i] = size_t(i) < r.p->fds.size() ? r.p->fds[size_t(i)].f : nullptr;
	for (auto &o : W->live)
	{
		if (o->role != R_CMD || o->session == s || !o->execed) continue;
		for (int i = 0; i < 3; i++)
			for (size_t j = 0; j < o->fds.size() && j < 3; j++)
				if (f[i] && f[i]->pipe && o->fds[j].f && o->fds[j].f->pipe == f[i]->pipe)
					report("C06", "shared-pipe", "%s: descriptor %d is a pipe of another session", sname(s).c_str(), i);
	}
	Server *by = serverOf(r.p);
	for (int i = 1; i < 32; i++)
		if (((r.sigMask >> i & 1) || r.sigIgn[i]) && i != SIGTERM && !(i == SIGHUP && by && by->daemon) && !(by && by->proc && (by->proc->startIgn >> i & 1)))
			report("C06 C05", "signal-disposition", "%s: the command was started with signal %d %s", sname(s).c_str(), i, r.sigIgn[i] ? "ignored" : "blocked");
	if ((r.sigMask >> SIGTERM & 1) || r.sigIgn[SIGTERM])
		report("C07", "term-blocked", "%s: the command was started with SIGTERM %s", sname(s).c_str(), r.sigIgn[SIGTERM] ? "ignored" : "blocked");
}

void Director::onExit(Proc *p)
{
	Session *s = p->session;
	W->lastProgress = W->now;
	switch (p->role)
	{
	case R_CLIENT:
	case R_INSTALL:
		if (s && s->client == p)
		{
			s->clientEnded = true;
			s->clientEndAt = W->now;
			s->clientStatus = p->status;
			if (s->accepted && !s->cmdEnded) markLoss(s, "the client process ended");
		}
		break;
	case R_CMD:
		if (s && s->command == p)
		{
			s->cmdEnded = true;
			s->cmdEndAt = W->now;
			s->cmdStatus = p->status;
			s->outAtEnd[0] = s->out.written.size();
			s->outAtEnd[1] = s->err.written.size();
		}
		if (s) s->doneAt = W->now;
		break;
	case R_HANDLER:
		if (s && s->handler == p)
		{
			s->handlerEnded = true;
			s->handlerEndAt = W->now;
		}
		if (Server *v = serverOf(p)) v->lastSessionEnd = W->now;
		break;
	case R_SERVER:
		if (Server *v = serverOf(p))
		{
			if (p == v->launcher && v->proc != p)
			{
				v->launcherEndAt = W->now;
				if (v->hupAtReturn >= 0 && succeeded(p->status))
				{
					int sid = p->sid;
					at(W->now + v->hupAtReturn, [this, v, sid] {
						if (v->ended || !v->proc || !alive(v->proc)) return;
						fault("hangup-after-launch");
						if (v->proc->sid == sid) sendSignal(v->proc, SIGHUP, nullptr);
					});
				}
				bool up = v->proc && alive(v->proc);
				bool excused = v->mustFail || (v->mayFail && !v->startErr) || v->killed || v->stopAt >= 0 || p->killedByHarness || p->bindRace || (v->proc && v->proc->bindRace);
				if (v->maxConn == 0 || v->mayStop || (v->timeoutMs >= 0 && W->now + GRAIN >= v->startAt + v->timeoutMs * MS)) excused = true;
				if (succeeded(p->status) && !excused && (!up || !portListening(v->host >= 0 ? cfg.hosts[size_t(v->host)].port : 0)))
					report("C15", "launcher-not-ready", "the launcher of server %s returned 0 but port %d does not accept connections%s", v->nameGiven.c_str(), v->host >= 0 ? cfg.hosts[size_t(v->host)].port : 0, up ? "" : " (the daemon has ended)");
				if (succeeded(p->status) && !excused && up)
				{
					Inode *n = v->pidPath.empty() ? nullptr : lookup(v->ct, "/", v->pidPath, true);
					if (v->proc->sid == p->sid) report("C15", "daemon-session", "the launcher of server %s returned 0 but the daemon is still in its session", v->nameGiven.c_str());
					if (!v->pidPath.empty() && (!n || atoi(n->data.c_str()) != v->proc->pid)) report("C15 C11", "pid-file", "the launcher of server %s returned 0 but the PID file %s %s", v->nameGiven.c_str(), v->pidPath.c_str(), n ? ("contains " + quoteShort(n->data)).c_str() : "does not exist");
				}
				if (succeeded(p->status) && v->mustFail && v->host >= 0)
					report("C15", "launcher-success-on-failure", "the launcher of server %s returned 0 although the start must fail (%s)", v->nameGiven.c_str(), v->failWhy);
				if (!succeeded(p->status) && !excused && !v->startErr)
					report("C15", "launcher-failed", "the launcher of server %s ended with %s", v->nameGiven.c_str(), statusText(p->status).c_str());
			}
			if (p == v->proc)
			{
				v->ended = true;
				v->endAt = W->now;
				v->endStatus = p->status;
				if (v->init && v->ct->initPid == p->pid) v->ct->initPid = 0;
				checkServerEnd(v);
			}
		}
		break;
	default: break;
	}
}

void Director::onKill(const KillRec &k)
{
	Proc *p = k.sender;
	if (k.target == p || !p->uut) return;
	Session *s = p->session;
	if (!k.target)
	{
		report("C07", "kill-gone", "%s[%d] sent signal %d to process id %d, which %s", roleName(p->role), p->pid, k.sig, k.targetPid, k.targetReaped ? "it had already reaped (the id may belong to any other process by now)" : "does not exist");
		return;
	}
	bool own = k.target->session && k.target->session == s && (k.target->role == R_CMD || k.target->role == R_CHILD);
	if (!own)
	{
		report("C07 C06", "kill-foreign", "%s[%d] of %s sent signal %d to unrelated process %s[%d]%s", roleName(p->role), p->pid, s ? sname(s).c_str() : "the server", k.sig, roleName(k.target->role), k.target->pid, k.targetReaped ? " whose id it had used for a command it already reaped" : "");
		return;
	}
	if (k.sig != SIGTERM && alive(k.target) && !k.target->gotTerm && k.sig != SIGCONT)
		report("C07", "kill-signal", "%s: the command was sent signal %d without SIGTERM first", sname(s).c_str(), k.sig);
	if (!s->raw && s->lossAt < 0 && alive(k.target) && !s->cmdEnded && !(s->taint & (T_BREAK & ~T_OUT)) && !(s->client && !alive(s->client)))
		report(extraProps(s, "C07 C01").c_str(), "kill-without-loss", "%s: the command was sent signal %d although its client is connected and alive", sname(s).c_str(), k.sig);
	if (s->termSentAt < 0) s->termSentAt = W->now;
}

void Director::onSignalSent(Proc *, int, Proc *) { }

static bool inDir(Inode *root, Inode *n)
{
	for (auto &e : root->ents)
	{
		if (e.second == n) return true;
		if (e.second->type == Inode::DIR && e.first != "." && inDir(e.second, n)) return true;
	}
	return false;
}

void Director::onFs(Proc *p, FsOp op, const std::string &path, Inode *before, Inode *after)
{
	Server *v = serverOf(p);
	bool mutate = op == FS_TRUNC || op == FS_WRITE || op == FS_CHMOD;
	if (mutate && before && watched.count(before))
	{
		const char *props = before == binary ? (p->role == R_INSTALL ? "C13" : "C11 C13") : p->role == R_INSTALL ? "C13" : "C11";
		report(props, "modifies-" + watched[before], "%s[%d] modifies %s", roleName(p->role), p->pid, watched[before].c_str());
	}
	if (!v || !(p->role == R_SERVER || p->role == R_HANDLER || p->role == R_CHILD)) return;
	if (op == FS_CREATE || op == FS_SYMLINK || op == FS_LINK || op == FS_MKDIR) v->created[after] = path;
	if (op == FS_RENAME)
	{
		if (before && !v->created.count(before) && !(v->ownNames.count(path) && (v->overwrite || v->disable)))
			report("C11", "replaces-file", "server %s replaced %s, which it did not create", v->nameGiven.c_str(), path.c_str());
		if (v->created.count(after)) v->created[after] = path;
	}
	if (op == FS_UNLINK)
	{
		if (v->created.count(before))
		{
			// (a rename reports the old name as unlinked)
			if (v->created[before] != path) return;
			if (p->role != R_SERVER)
				report("C11 C08", "cleanup-by-child", "a %s process of server %s removed %s while the server is running", roleName(p->role), v->nameGiven.c_str(), path.c_str());
			else if (v->servingAt >= 0 && v->stopAt < 0 && !v->mayStop && !(v->timeoutMs >= 0 && W->now + GRAIN >= v->startAt + v->timeoutMs * MS))
				report("C11", "cleanup-early", "server %s removed %s while it is serving", v->nameGiven.c_str(), path.c_str());
			v->created.erase(before);
		}
		else if (!(v->ownNames.count(path) && (v->overwrite || v->disable)))
			report("C11", "removes-file", "server %s removed %s, which it did not create", v->nameGiven.c_str(), path.c_str());
	}
}

void Director::onAccept(Proc *p, Sock *sock)
{
	Server *v = serverOf(p);
	Session *s = sock->session;
	if (s)
	{
		s->accepted = true;
		s->acceptedAt = W->now;
		s->server = v;
		if (s->clientEnded) markLoss(s, "the client ended before it was accepted");
	}
	if (!v) return;
	if (s) v->sessions.push_back(s);
	v->accepts++;
	int64_t ok = v->accepts - v->forkFailures;
	if (v->maxConn >= 0 && ok > v->maxConn)
		report("C10", "too-many-connections", "server %s accepted connection number %lld although its limit is %lld", v->nameGiven.c_str(), static_cast<long long>(ok), v->maxConn);
	if (v->stopAt >= 0 && W->now > std::max(v->stopAt, stallEnd) + SEC)
		report("C10", "accept-after-stop", "server %s accepted a connection %.1f s after it had to stop (%s)", v->nameGiven.c_str(), double(W->now - v->stopAt) / 1e9, v->stopWhy);
	if (v->maxConn >= 0 && v->accepts >= v->maxConn && v->stopAt < 0)
	{
		if (ok >= v->maxConn) { v->stopAt = W->now; v->stopWhy = "max-connections"; probe("max-connections-reached"); }
		else v->mayStop = true;
	}
}

void Director::onListen(Proc *p, Sock *s)
{
	if (p->uut && s->bindAddr >> 24 != 127)
		report("C09", "exposed", "the %s process [%d] listens on address %u.%u.%u.%u, where other machines can reach it", roleName(p->role), p->pid, s->bindAddr >> 24, (s->bindAddr >> 16) & 255, (s->bindAddr >> 8) & 255, s->bindAddr & 255);
}

void Director::onConnect(Proc *p, Sock *sock, bool ok)
{
	Session *s = p->session;
	if (!s || s->raw) return;
	if (s->firstConnectAt < 0) s->firstConnectAt = W->now;
	if (ok)
	{
		s->connected = true;
		s->connectedAt = W->now;
		s->conn = sock;
		if (p->connectAttempts > 1) probe("connected-after-retry");
		// a server that has stopped accepting connections will never serve this one
		for (auto &vp : servers)
		{
			Server *v = vp.get();
			if (!v->proc || v->ended || v->stopAt < 0 || v->killed || v->proc->stalledUntil > 0 || W->now <= std::max(v->stopAt, stallEnd) + SEC) continue;
			for (FdEnt &e : v->proc->fds)
				if (e.f && e.f->sock && sock->peer && e.f->sock == sock->peer->listener)
				{
					report("C10 C12", "connect-after-stop", "%s: the client could still connect to server %s, %.1f s after it stopped accepting connections (%s)", sname(s).c_str(), v->nameGiven.c_str(), double(W->now - v->stopAt) / 1e9, v->stopWhy);
					break;
				}
		}
	}
}

void Director::onSpin(Proc *p, int count)
{
	if (p->spinExempt) return;
	Session *s = p->session;
	std::string why = s ? sname(s) : std::string("server");
	report("C14", std::string("spin-") + roleName(p->role), "the %s process of %s woke up %d times within a second without anything to do", roleName(p->role), why.c_str(), count);
}

void Director::onCrash(Proc *p, const char *what)
{
	const char *props = p->role == R_SERVER ? "C08 C10 C11" : p->role == R_CLIENT ? "C01 C02" : p->role == R_INSTALL ? "C13" : "C08 C01 C06 C09";
	std::string pr = props;
	if (strstr(what, "endless")) pr += " C14 C04";
	report(pr.c_str(), std::string("crash-") + roleName(p->role), "the %s process [%d] crashed: %s", roleName(p->role), p->pid, what);
}

static bool listensIn(Proc *p)
{
	for (auto &f : p->wait.pfds)
		if (f.fd >= 0 && size_t(f.fd) < p->fds.size() && p->fds[size_t(f.fd)].f && p->fds[size_t(f.fd)].f->sock && p->fds[size_t(f.fd)].f->sock->listening) return true;
	return false;
}

void Director::onBlockedPoll(Proc *p)
{
	if (p->role != R_SERVER) return;
	Server *v = serverOf(p);
	if (v && p == v->proc && !v->servingChecked && p->wait.kind == Wait::POLL && listensIn(p)) checkServing(v);
}

int Director::onSyscall(Proc *p, Sys kind)
{
	p->syscallCount++;
	Server *v = serverOf(p);
	if (v && p->role == R_SERVER && p == v->proc && kind == SYS_accept_ && !v->servingChecked) checkServing(v);
	if (p->session && !p->lag)
	{
		if (p->role == R_CLIENT && p->session->lagClient) { p->lag = p->session->lagClient; fault("slow-client"); }
		else if (p->role == R_HANDLER && p->session->lagHandler) { p->lag = p->session->lagHandler; fault("slow-handler"); }
	}
	int inj = 0;
	if (v && p->role == R_SERVER && p == v->proc && kind == SYS_accept_ && W->now < v->exhaustUntil)
	{
		fault("exhausted-accept");
		logEvent(p, "fault: accept fails with errno %d", v->exhaustErr);
		return v->exhaustErr;
	}
	for (auto &fp : faults)
	{
		FaultItem *f = fp.get();
		if (f->fired || f->byTime || f->role != p->role) continue;
		if (f->kind != SYS_ANY && f->kind != kind) continue;
		if (f->a == FaultItem::SIGNAL && f->kind == SYS_ANY && kind == SYS_fork_) continue; // fork() handles pending signals first
		if (f->s && p->session != f->s) continue;
		if (f->srv && v != f->srv) continue;
		if (f->start && (v->servingAt >= 0 || v->stopAt >= 0)) continue;
		if (f->s == nullptr && f->srv == nullptr) continue;
		if (++f->seen < f->nth) continue;
		if (f->a != FaultItem::ERRNO || f->seen - f->nth + 1 >= f->repeat) f->fired = true;
		anyFault = true;
		if (f->start) { v->startErr = v->mayFail = true; probe("start-error"); }
		if (f->a == FaultItem::ERRNO)
		{
			inj = f->arg;
			std::string n = std::string("errno-") + sysName(kind) + "-" + std::to_string(f->arg);
			fault(n.c_str());
			logEvent(p, "fault: %s fails with errno %d", sysName(kind), f->arg);
			if (f->arg != EINTR)
			{
				if (p->session && p->role != R_SERVER && kind != SYS_connect_) p->session->taint |= T_RES; // (connecting is attempted again)
				if (p->role == R_SERVER)
				{
					hostile = true;
					if (kind == SYS_fork_ && p->lastAccepted)
					{
						if (v) v->forkFailures++;
						if (p->lastAccepted->session) p->lastAccepted->session->taint |= T_SRV;
						p->lastAccepted = nullptr;
					}
					if (kind == SYS_accept_ && f->arg == ECONNABORTED)
						for (auto &e : p->fds)
							if (e.f && e.f->sock && e.f->sock->listening && !e.f->sock->backlog.empty() && e.f->sock->backlog.front()->session)
								e.f->sock->backlog.front()->session->taint |= T_SRV;
				}
				if (p->role == R_HANDLER || p->role == R_CHILD) hostile = true;
			}
		}
		else if (f->a == FaultItem::SHORT) { inj = -1; logEvent(p, "fault: short %s", sysName(kind)); }
		else fire(f, p);
	}
	return inj;
}

void Director::fire(FaultItem *f, Proc *p)
{
	f->fired = true;
	anyFault = true;
	Session *s = f->s;
	Proc *t = p;
	if (f->target != R_OTHER || !t)
	{
		t = nullptr;
		if (f->target == R_SERVER) t = f->srv ? f->srv->proc : s && s->server ? s->server->proc : nullptr;
		else if (s) t = f->target == R_CLIENT ? s->client : f->target == R_HANDLER ? s->handler : f->target == R_CMD ? s->command : nullptr;
	}
	switch (f->a)
	{
	case FaultItem::KILL:
	case FaultItem::SIGNAL:
		{
			int sig = f->a == FaultItem::KILL ? SIGKILL : f->arg;
			if (!t || !alive(t)) return;
			if (t->role == R_SERVER)
			{
				if (Server *v = serverOf(t)) { if (v->servingAt < 0 && sig != SIGKILL) signalStarting(v, t, sig); else stopServer(v, sig); }
				return;
			}
			if (t->role == R_RAW || t->role == R_PEER) return;
			if (t->sig[sig].h == SIG_IGN) sig = SIGKILL;
			if (s)
			{
				if (t == s->client) { s->taint |= T_CLIENT; if (s->accepted && !s->cmdEnded) markLoss(s, "the client is killed"); }
				else if (t == s->handler || t->role == R_CHILD) s->taint |= T_HANDLER;
				else if (t == s->command) { s->taint |= T_CMD; }
			}
			if (t->role == R_HANDLER || t->role == R_CLIENT || t->role == R_CHILD) t->killedByHarness = true;
			fault((std::string("kill-") + roleName(t->role)).c_str());
			sendSignal(t, sig, nullptr);
			break;
		}
	case FaultItem::STALL:
		if (!t || !alive(t)) return;
		fault((std::string("stall-") + roleName(t->role)).c_str());
		logEvent(t, "fault: stalls for %.3f s", double(f->dur) / 1e9);
		t->stalledUntil = W->now + f->dur;
		stallEnd = std::max(stallEnd, W->now + f->dur + SEC);
		break;
	case FaultItem::ALLOC:
		if (!t || !alive(t) || !t->uut) return;
		t->allocFailAt = f->arg;
		if (s) { s->taint |= T_RES; if (t == s->client) s->clientAlloc = true; }
		hostile = true;
		logEvent(t, "fault: allocation %d from now fails", f->arg);
		break;
	case FaultItem::RESET:
		if (!s || !s->conn || s->conn->dead || !s->conn->connected) return;
		fault("connection-reset");
		logEvent(nullptr, "fault: the connection of %s is reset", sname(s).c_str());
		s->taint |= T_NET;
		sockReset(s->conn);
		s->conn->soErr = ECONNRESET;
		s->conn->gotRst = true;
		if (!s->cmdEnded) markLoss(s, "connection reset");
		break;
	case FaultItem::EXHAUST:
		f->srv->exhaustUntil = W->now + f->dur;
		f->srv->exhaustErr = f->arg;
		hostile = true;
		logEvent(f->srv->proc, "fault: cannot accept connections for %.1f s", double(f->dur) / 1e9);
		stallEnd = std::max(stallEnd, W->now + f->dur + SEC);
		break;
	case FaultItem::JUMP:
		fault("clock-jump");
		W->wallOffset += f->dur;
		break;
	default: break;
	}
}

// ---------------------------------------------------------------- oracles: servers
static Inode *find(Container *ct, const std::string &path, bool follow) { return lookup(ct, "/", path, follow); }

static bool removeFile(Container *ct, const std::string &path)
{
	size_t slash = path.rfind('/');
	Inode *dir = slash == std::string::npos ? nullptr : find(ct, slash ? path.substr(0, slash) : "/", true);
	return dir && dir->type == Inode::DIR && dir->ents.erase(path.substr(slash + 1));
}

static int openFds(Proc *p)
{
	int n = 0;
	for (auto &e : p->fds) n += e.f != nullptr;
	return n;
}

void Director::checkServing(Server *v)
{
	v->servingChecked = true;
	v->servingAt = W->now;
	v->proc->allocFailAt = -1;
	v->baseFds = openFds(v->proc);
	logEvent(v->proc, "is serving");
	if (v->stormPeriod && phase == 0)
	{
		// around the time-out if there is one
		Time t = v->timeoutMs >= 0 && (v->timeoutMs < 100000 || deep) ? std::max<Time>(W->now, v->startAt + v->timeoutMs * MS - v->stormFor / 3) : W->now + v->stormFor / 4;
		v->proc->lag = v->lag;
		if (v->lag) fault("slow-server");
		at(t, [this, v] { if (!v->ended) startStorm(v); });
		at(t + v->stormFor + v->stormFor / v->stormPeriod * 8 * v->lag, [] { }); // by then it has caught up
	}
	if (v->mustFail)
	{
		report(cfg.invalid.empty() ? "C11" : "C11 C17", "serves-despite-error", "server %s serves although its start must fail: %s", v->nameGiven.c_str(), v->failWhy);
		return;
	}
	if (v->host >= 0)
		for (auto &e : v->proc->fds)
			if (e.f && e.f->sock && e.f->sock->listening && e.f->sock->port != cfg.hosts[size_t(v->host)].port)
				report("C17", "wrong-port", "server %s listens on port %d, the configuration assigns it port %d", v->nameGiven.c_str(), e.f->sock->port, cfg.hosts[size_t(v->host)].port);
	std::set<std::string> ok = v->expectStubs;
	if (!v->pidPath.empty()) ok.insert(v->pidPath);
	for (auto &c : v->created)
		if (!ok.count(c.second)) report("C11", "unexpected-file", "server %s created %s, which neither its options nor its configuration call for", v->nameGiven.c_str(), c.second.c_str());
	for (auto &f : v->expectStubs)
	{
		Inode *n = find(v->ct, f, true);
		if (!n || n->type != Inode::REG || n->data != binary->data || !(n->mode & 0111))
			report("C11", "stub-missing", "server %s serves but client executable %s %s", v->nameGiven.c_str(), f.c_str(), n ? "is not the k8psh program" : "does not exist");
	}
	if (v->disable)
		for (auto &f : v->ownNames)
			if (find(v->ct, f, false)) report("C11", "stub-not-disabled", "server %s serves with disabled client executables but %s exists", v->nameGiven.c_str(), f.c_str());
	if (v->daemon)
	{
		Proc *p = v->proc;
		if (!v->pidPath.empty())
		{
			Inode *n = find(v->ct, v->pidPath, true);
			if (!n || atoi(n->data.c_str()) != p->pid)
				report("C11 C15", "pid-file", "daemon %s serves as process %d but its PID file %s %s", v->nameGiven.c_str(), p->pid, v->pidPath.c_str(), n ? ("contains " + quoteShort(n->data)).c_str() : "does not exist");
		}
		if (p == v->launcher) report("C15", "not-daemon", "server %s serves in the foreground although it was started with --background", v->nameGiven.c_str());
		for (int fd = 0; fd < 3; fd++)
			if (size_t(fd) >= p->fds.size() || !p->fds[size_t(fd)].f || p->fds[size_t(fd)].f->type != File::NUL)
				report("C15", "daemon-std-fd", "daemon %s serves with descriptor %d not on the null device", v->nameGiven.c_str(), fd);
		for (auto &e : p->fds)
			if (e.f && (e.f == v->launchOutFile || e.f == v->launchErrFile))
				report("C15", "daemon-holds-stream", "daemon %s serves with a reference to the launcher's %s", v->nameGiven.c_str(), e.f == v->launchOutFile ? "stdout" : "stderr");
		if (p->sid == v->launcher->sid) report("C15", "daemon-session", "daemon %s serves in the launcher's session", v->nameGiven.c_str());
		if (p->cwd != "/") report("C15", "daemon-cwd", "daemon %s serves with working directory %s", v->nameGiven.c_str(), p->cwd.c_str());
	}
}

void Director::checkServerEnd(Server *v)
{
	Proc *p = v->proc;
	for (auto &b : bystanders)
	{
		auto it = b.first->ents.find(b.second);
		if (it == b.first->ents.end()) report("C11", "bystander-gone", "after server %s ended, file %s (not its own) is gone", v->nameGiven.c_str(), b.second.c_str());
	}
	if (v->killed) return;
	bool served = v->servingAt >= 0;
	if (v->mustFail && !served && succeeded(p->status) && !p->killedByHarness && v->stopAt < 0)
		report(cfg.invalid.empty() ? "C11" : "C17", "accepted-bad-start", "server %s ended with status 0 although its start must fail: %s", v->nameGiven.c_str(), v->failWhy);
	if (!cfg.invalid.empty() && !v->created.empty())
		report("C17", "bad-config-effects", "server %s created %s although its configuration is invalid (%s)", v->nameGiven.c_str(), v->created.begin()->second.c_str(), cfg.invalid.c_str());
	bool timeUp = v->timeoutMs >= 0 && W->now + GRAIN >= v->startAt + v->timeoutMs * MS;
	if (served && v->stopAt < 0 && timeUp) { v->stopAt = v->servingAt + v->timeoutMs * MS; v->stopWhy = "timeout"; probe("timeout-reached"); }
	if (served && v->stopAt < 0 && !v->mayStop)
	{
		std::string pr = "C08 C10";
		if (v->daemon) pr += " C15";
		report(pr.c_str(), "server-ended", "server %s ended with %s without any reason to stop (accepted %d connections, limit %lld, timeout %lld ms, ran %.3f s)", v->nameGiven.c_str(), statusText(p->status).c_str(), v->accepts, v->maxConn, v->timeoutMs, double(W->now - v->startAt) / 1e9);
		if (!v->keep) checkRemoved(v);
		return;
	}
	if (!served && v->host >= 0 && !v->mustFail && !v->mayFail)
	{
		std::string pr = v->timeoutMs == 0 || v->maxConn == 0 ? "" : "C08";
		if (timeUp || v->mayStop || v->stopAt >= 0 || v->maxConn == 0 || p->bindRace) { } // nothing to serve, or excused
		else
		{
			if (v->daemon) pr += " C15";
			for (auto &s : W->socks) if (s->self && s->selfLingers && s->port == cfg.hosts[size_t(v->host)].port) { pr += " C12"; break; } // a waiting client took the port
			report((pr + " C11").c_str(), "start-failed", "server %s could not start: %s", v->nameGiven.c_str(), statusText(p->status).c_str());
		}
	}
	if (served)
	{
		if (!succeeded(p->status))
			report("C10", "exit-status", "server %s ended with %s after it had to stop (%s)", v->nameGiven.c_str(), statusText(p->status).c_str(), v->stopWhy);
		if (!v->noWait)
			for (Session *s : v->sessions)
				if (s->handler && alive(s->handler))
				{
					report("C10", "exit-before-sessions", "server %s ended although %s, which it had accepted, is still running", v->nameGiven.c_str(), sname(s).c_str());
					break;
				}
	}
	if (!served && v->host < 0)
	{
		// a name without commands: creates the client executables and exits
		if (!v->mustFail && (!v->mayFail || (v->startErr && succeeded(p->status))))
		{
			if (!succeeded(p->status)) report("C11", "stub-only-failed", "creating the client executables ended with %s", statusText(p->status).c_str());
			for (auto &f : v->expectStubs)
			{
				Inode *n = find(v->ct, f, true);
				if (!n || n->data != binary->data) report("C11", "stub-missing", "client executable %s was not created", f.c_str());
			}
			for (auto &c : v->created)
				if (!v->expectStubs.count(c.second)) report("C11", "unexpected-file", "%s was created, which neither options nor configuration call for", c.second.c_str());
			return;
		}
	}
	checkRemoved(v);
}

// After an orderly exit or a failed start exactly the files the server created are gone.
void Director::checkRemoved(Server *v)
{
	for (auto &c : v->created)
	{
		Inode *n = find(v->ct, c.second, false);
		if (n != c.first) continue;
		bool isPid = c.second == v->pidPath;
		if ((v->keep || v->host < 0) && !isPid) continue;
		report("C11", isPid ? "pid-file-left" : "stub-left", "server %s ended%s but left %s behind", v->nameGiven.c_str(), v->servingAt < 0 ? " (failed start)" : "", c.second.c_str());
	}
	if (v->keep && v->servingAt >= 0 && v->stopAt >= 0)
		for (auto &f : v->expectStubs)
			if (!find(v->ct, f, false)) report("C11", "kept-stub-gone", "server %s was told to keep the client executables but %s is gone", v->nameGiven.c_str(), f.c_str());
}

void Director::checkLeaks(const char *when)
{
	for (auto &vp : servers)
	{
		Server *v = vp.get();
		if (!v->started || v->servingAt < 0) continue;
		for (Proc *p : W->live)
			if (p->generation == v->index + 1 && (p->role == R_HANDLER || p->role == R_CHILD) && alive(p) && p->uut)
				report("C16", "handler-left", "%s: %s process [%d] of %s is still there although the session is over", when, roleName(p->role), p->pid, p->session ? sname(p->session).c_str() : "?");
		if (v->ended) continue;
		for (Proc *p : W->live)
			if (p->ppid == v->proc->pid && p->state == ZOMBIE && p->exitAt > v->servingAt) // (children it did not start may have ended before it could do anything about it)
				report("C16", "zombie", "%s: server %s has an unreaped child [%d] (%s)", when, v->nameGiven.c_str(), p->pid, roleName(p->role));
		if (v->stopAt >= 0 || (v->timeoutMs >= 0 && W->now + GRAIN >= v->startAt + v->timeoutMs * MS)) continue;
		int n = openFds(v->proc);
		if (n != v->baseFds)
			report("C16", "fd-leak", "%s: server %s holds %d open descriptors, %d when it started to serve", when, v->nameGiven.c_str(), n, v->baseFds);
	}
}

// Called regularly: everything servers must do within bounded time.
void Director::checkServers()
{
	for (auto &vp : servers)
	{
		Server *v = vp.get();
		if (!v->started || v->ended) continue;
		if (v->listeningAt < 0 && v->host >= 0 && portListening(cfg.hosts[size_t(v->host)].port)) v->listeningAt = W->now;
		if (v->servingAt < 0)
		{
			if (W->now > std::max(v->startAt, stallEnd) + 5 * SEC + Time(cfg.cmds.size()) * 20 * v->lag && v->proc->uut && !(v->timeoutMs == 0 || v->maxConn == 0))
				report(v->daemon ? "C15 C08" : "C08", "start-hangs", "server %s is neither serving nor has it ended after 5 s", v->nameGiven.c_str());
			continue;
		}
		if (v->stopAt < 0)
		{
			if (v->timeoutMs >= 0 && W->now >= v->servingAt + v->timeoutMs * MS) { v->stopAt = v->servingAt + v->timeoutMs * MS; v->stopWhy = "timeout"; probe("timeout-reached"); }
			if (v->mayStop || (v->timeoutMs >= 0 && W->now + GRAIN >= v->startAt + v->timeoutMs * MS)) continue;
			for (auto &f : v->expectStubs)
				if (!find(v->ct, f, false)) { report("C11", "stub-vanished", "client executable %s vanished while server %s is serving", f.c_str(), v->nameGiven.c_str()); break; }
			if (v->daemon && !v->pidPath.empty() && !find(v->ct, v->pidPath, false))
				report("C11", "pid-vanished", "PID file %s vanished while daemon %s is serving", v->pidPath.c_str(), v->nameGiven.c_str());
			continue;
		}
		Time base = std::max(v->stopAt, stallEnd);
		bool active = false;
		if (!v->noWait)
			for (Session *s : v->sessions)
			{
				if (s->handler && alive(s->handler)) active = true;
				base = std::max(base, s->handlerEndAt);
			}
		if (v->proc->stalledUntil > W->now + v->lag) continue;
		if (!active && W->now > base + SEC + Time(100 + 2 * v->expectStubs.size()) * v->lag)
			report("C10", "stop-late", "server %s still runs %.1f s after it had to end (%s)", v->nameGiven.c_str(), double(W->now - base) / 1e9, v->stopWhy);
	}
}

// ---------------------------------------------------------------- oracles: sessions
static bool steadyConsumer(const OutStream &o)
{
	return o.c.m == Consumer::FAST || o.c.m == Consumer::FILE_ || o.c.m == Consumer::NULL_;
}

void Director::checkVisibility(Session *s)
{
	if (s->raw || s->install || !s->started || s->clientEnded) return;
	Time now = W->now;
	bool undisturbed = !(s->taint & T_BREAK) && s->lossAt < 0 && now > stallEnd + PROMPT;
	bool sound = undisturbed && steadyConsumer(s->out) && steadyConsumer(s->err);
	for (int i = 0; i < 2; i++)
	{
		OutStream &o = i ? s->err : s->out;
		size_t vis = o.c.m == Consumer::FAST ? o.seen.size() : o.c.m == Consumer::FILE_ && o.file ? o.file->data.size() : o.written.size();
		while (!o.pending.empty() && vis >= o.pending.front().first) { o.pending.pop_front(); s->lastMoveAt = o.movedAt = now; }
		if (sound && !o.pending.empty() && now - std::max(o.pending.front().second, s->flood == 3 ? o.movedAt : s->lastMoveAt) > PROMPT)
			report(extraProps(s, "C04 C02").c_str(), i ? "stderr-late" : "stdout-late", "%s: data written to %s %.1f s ago is still not visible at the client (%zu of %zu bytes)", sname(s).c_str(), i ? "stderr" : "stdout", double(now - o.pending.front().second) / 1e9, vis, o.written.size());
	}
	for (int i = 0; i < 2 && sound; i++)
	{
		OutStream &o = i ? s->err : s->out;
		if (o.c.m != Consumer::FAST || !o.cmdPipe || o.eofSeen || !o.pending.empty()) continue;
		if (o.endedAt < 0)
		{
			bool open = false;
			for (auto &q : W->procs)
			{
				if (open) break;
				if (q->session != s || !alive(q.get()) || q->role == R_HANDLER || q->role == R_CLIENT) continue;
				for (FdEnt &e : q->fds) open |= e.f && e.f->type == File::PIPE_W && e.f->pipe == o.cmdPipe;
			}
			if (!open) o.endedAt = now;
		}
		else if (now - std::max(o.endedAt, s->lastMoveAt) > PROMPT)
			report(extraProps(s, "C04").c_str(), i ? "stderr-end-late" : "stdout-end-late", "%s: the command closed its %s %.1f s ago but the reader of the client's does not see its end", sname(s).c_str(), i ? "stderr" : "stdout", double(now - o.endedAt) / 1e9);
	}
	// input
	bool avail = s->produced.size() > s->readIn.size() || (s->inputEnded && !s->cmdSawEof);
	if (s->command && alive(s->command) && commandStarved(s) && avail)
	{
		size_t key = s->readIn.size() * 2 + s->inputEnded;
		if (s->starveSince < 0 || s->starveKey != key) { s->starveSince = now; s->starveKey = key; }
		if ((sound || (undisturbed && s->flood)) && now - s->starveSince > PROMPT && !s->starveSaid && (s->starveSaid = true))
			report(extraProps(s, "C04 C03").c_str(), "stdin-late", "%s: the command waits for input for %.1f s although the client's stdin %s (%zu of %zu bytes read)", sname(s).c_str(), double(now - s->starveSince) / 1e9, s->produced.size() > s->readIn.size() ? "has data" : "has ended", s->readIn.size(), s->produced.size());
	}
	else s->starveSince = -1;
	// end
	if (s->cmdEnded && sound && s->connected)
	{
		bool held = false;
		for (Proc *h : s->holders) held |= alive(h);
		if (!held && now - std::max(s->doneAt, s->lastMoveAt) > 10 * SEC && s->out.pending.empty() && s->err.pending.empty())
			report(extraProps(s, "C04 C01").c_str(), "end-late", "%s: the command ended %.1f s ago (%s) but the client still runs", sname(s).c_str(), double(now - s->doneAt) / 1e9, statusText(s->cmdStatus).c_str());
	}
	// connection
	if (!s->connected && s->client && alive(s->client) && s->listenSince >= 0 && now - std::max(s->listenSince, stallEnd) > 4 * SEC && s->firstConnectAt >= 0)
		report("C12", "not-connecting", "%s: the server has been listening for %.1f s but the client has not connected", sname(s).c_str(), double(now - s->listenSince) / 1e9);
	Time t = cfg.connectTimeoutMs;
	if (!s->connected && t >= 0 && s->client && alive(s->client) && s->firstConnectAt >= 0 && now > std::max(s->firstConnectAt + t * MS, stallEnd) + 800 * MS)
		report("C12", "gives-up-late", "%s: the client still tries to connect %.1f s after its timeout of %lld ms", sname(s).c_str(), double(now - s->firstConnectAt - t * MS) / 1e9, static_cast<long long>(t));
}

void Director::checkTerm(Session *s)
{
	if (s->lossAt < 0 || !s->command || s->cmdEnded || s->termDelivered || !alive(s->command)) return;
	if (s->taint & (T_HANDLER | T_RES | T_SRV)) return;
	if (s->raw && !s->peerDone && s->rawPlan.endMode == 2) return; // merely half-closed
	Time base = std::max({ s->lossAt, s->execAt, stallEnd });
	if (s->handler && s->handler->stalledUntil > W->now) return;
	if (W->now > base + TERM_BOUND)
		report(extraProps(s, "C07").c_str(), "no-term", "%s: the client was lost %.1f s ago (%s) but its command has not been sent SIGTERM", sname(s).c_str(), double(W->now - s->lossAt) / 1e9, s->lossWhy);
}

// Strips the client's own log lines at the beginning of its stderr.
static std::string stripLog(std::string e)
{
	while (e.size() > 1 && e[0] == '[' && e.compare(1, 2, "20") == 0)
	{
		size_t nl = e.find('\n');
		if (nl == std::string::npos) return "";
		e.erase(0, nl + 1);
	}
	return e;
}

static std::string delivered(const OutStream &o)
{
	return o.c.m == Consumer::FILE_ || o.c.m == Consumer::BROKENFILE ? (o.file ? o.file->data : std::string()) : o.seen;
}

// An exit status that is neither success nor one of the general failure statuses claims to be the command's.
static bool inventedStatus(int st) { return WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 1 && WEXITSTATUS(st) != 255; }

void Director::checkSession(Session *s)
{
	if (s->checked) return;
	s->checked = true;
	if (s->install) { checkInstall(); return; }
	if (s->raw)
	{
		if (s->rawPlan.wellFormed && !(s->taint & T_BREAK) && s->execs.empty() && s->accepted)
			report(extraProps(s, "C08 C09").c_str(), "raw-unserved", "%s: a complete and valid request was not served", sname(s).c_str());
		return;
	}
	if (s->mustFail)
	{
		// nothing may be started
		bool bad = !cfg.invalid.empty();
		std::string who = sname(s), data = delivered(s->out);
		if (!s->execs.empty()) report(s->mustFailProps, "served-despite-error", "%s: the command was started although %s", who.c_str(), s->mustFail);
		if (s->client->killedByHarness || s->client->startArgv.empty()) return;
		if (succeeded(s->clientStatus)) report((std::string(s->mustFailProps) + " C01").c_str(), "success-despite-error", "%s: the client ended with status 0 although %s", who.c_str(), s->mustFail);
		else if (inventedStatus(s->clientStatus)) report(extraProps(s, "C01").c_str(), "invented-status", "%s: the command was never started but the client ended with status %d", who.c_str(), WEXITSTATUS(s->clientStatus));
		if (!data.empty()) report("C02", "no-command-output", "%s: the command was never started but the client printed %zu bytes", who.c_str(), data.size());
		if (bad && s->firstConnectAt >= 0) report(s->mustFailProps, "connects-despite-error", "%s: the client connected although %s", who.c_str(), s->mustFail);
		return;
	}
	Server *v = s->server;
	int st = s->clientStatus;
	bool cmdExists = s->cmd >= 0;
	const CfgCmd *c = cmdExists ? &cfg.cmds[size_t(s->cmd)] : nullptr;
	std::string who = sname(s);
	bool killed = s->client && s->client->killedByHarness;

	// was it excused from being served?
	if (!s->accepted)
	{
		bool excuse = false;
		for (auto &o : servers)
			if (o->host == s->host && (o->killed || o->stopAt >= 0 || o->ended || o->mustFail || o->mayFail || o->mayStop || o->maxConn == 0 || (o->timeoutMs >= 0 && W->now + GRAIN >= o->startAt + o->timeoutMs * MS))) excuse = true;
		if (!currentServer(s->host)) excuse = true;
		if (excuse && s->connected) s->taint |= T_UNSERVED;
	}
	bool brokenPipe = (s->taint & T_OUT) && WIFSIGNALED(st) && WTERMSIG(st) == SIGPIPE; // (a warning could not be printed)
	if (!s->connected && !killed && !brokenPipe && !(s->taint & T_RES) && s->client->role == R_CLIENT && c && !(s->taint & T_CLIENT))
	{
		Time end = s->clientEndAt;
		Time t = cfg.connectTimeoutMs;
		if (succeeded(st)) report("C12 C01", "unconnected-success", "%s: the client never reached its server but ended with status 0", who.c_str());
		if (t < 0) report("C12", "gave-up", "%s: the client gave up after %.1f s although its timeout is negative", who.c_str(), double(end - s->startAt) / 1e9);
		else
		{
			if (end < s->startAt + t * MS) report("C12", "gave-up-early", "%s: the client gave up after %.3f s, its timeout is %lld ms", who.c_str(), double(end - s->startAt) / 1e9, static_cast<long long>(t));
			if (s->firstConnectAt >= 0 && end > std::max(s->firstConnectAt + t * MS, stallEnd) + 500 * MS)
				report("C12", "gives-up-late", "%s: the client gave up %.1f s after its timeout of %lld ms", who.c_str(), double(end - s->firstConnectAt - t * MS) / 1e9, static_cast<long long>(t));
			if (s->listenSince >= 0 && end > std::max(s->listenSince, stallEnd) + 100 * MS + 4 * s->lagClient && !(W->unlistened.count(cfg.hosts[size_t(s->host)].port) && W->unlistened[cfg.hosts[size_t(s->host)].port] >= s->listenSince))
				report("C12", "unserved", "%s: the client gave up although the server had been listening for %.3f s", who.c_str(), double(end - s->listenSince) / 1e9);
			probe("connect-timeout");
		}
		s->taint |= T_UNSERVED;
	}

	bool broken = s->taint & T_BREAK;
	std::string out = delivered(s->out), err = delivered(s->err);

	if (s->execs.empty())
	{
		if (!killed && succeeded(st)) report(extraProps(s, "C01").c_str(), "no-command-success", "%s: the command was never started but the client ended with status 0", who.c_str());
		else if (!killed && !s->client->startArgv.empty() && inventedStatus(st)) report(extraProps(s, "C01").c_str(), "invented-status", "%s: the command was never started but the client ended with status %d", who.c_str(), WEXITSTATUS(st));
		if (!out.empty()) report(extraProps(s, "C02").c_str(), "no-command-output", "%s: the command was never started but the client printed %zu bytes", who.c_str(), out.size());
		if (!broken && c && c->startable && s->lossAt < 0)
			report(extraProps(s, "C01 C05").c_str(), "not-started", "%s: the command was not started (client ended with %s, connection %s)", who.c_str(), statusText(st).c_str(), s->accepted ? "accepted" : s->connected ? "made" : "not made");
		if (!broken && c && c->startable && s->lossAt >= 0 && !killed)
			report(extraProps(s, "C01 C05").c_str(), "not-started", "%s: the client ended with %s before the command was started", who.c_str(), statusText(st).c_str());
		return;
	}

	// exit status
	bool normal = s->cmdEnded && WIFEXITED(s->cmdStatus);
	int code = normal ? WEXITSTATUS(s->cmdStatus) : -1;
	if (!killed)
	{
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !(normal && code == 0))
			report(extraProps(s, "C01").c_str(), "false-success", "%s: the client ended with status 0 although the command %s", who.c_str(), s->cmdEnded ? ("ended with " + statusText(s->cmdStatus)).c_str() : "has not ended");
		else if (!broken && normal && !(WIFEXITED(st) && WEXITSTATUS(st) == code))
			report(extraProps(s, "C01").c_str(), "exit-status", "%s: the command ended with status %d but the client with %s", who.c_str(), code, statusText(st).c_str());
		else if (!broken && s->cmdEnded && !normal && succeeded(st))
			report(extraProps(s, "C01").c_str(), "signal-success", "%s: the command was killed but the client reports success", who.c_str());
		else if (!(normal && WEXITSTATUS(st) == code) && inventedStatus(st))
			report(extraProps(s, "C01").c_str(), "invented-status", "%s: the client ended with status %d although the command %s", who.c_str(), WEXITSTATUS(st), s->cmdEnded ? ("ended with " + statusText(s->cmdStatus)).c_str() : "has not ended");
		else if (!broken && !s->cmdEnded && s->lossAt >= 0)
			report(extraProps(s, "C01 C02").c_str(), "client-ended-early", "%s: the client ended with %s while the command is running", who.c_str(), statusText(st).c_str());
	}

	// output
	bool held = false;
	for (Proc *h : s->holders) held |= alive(h);
	if (!broken && held && steadyConsumer(s->out) && steadyConsumer(s->err))
		report(extraProps(s, "C02").c_str(), "streams-abandoned", "%s: the client ended with %s although a process that the command started still holds its output streams", who.c_str(), statusText(st).c_str());
	for (int i = 0; i < 2; i++)
	{
		OutStream &o = i ? s->err : s->out;
		const char *n = i ? "stderr" : "stdout";
		std::string d = i ? stripLog(err) : out;
		if (o.c.m == Consumer::NULL_ || o.c.m == Consumer::FULL || o.c.m == Consumer::CLOSED)
		{
			if (o.c.m != Consumer::NULL_ && s->outAtEnd[i] > 0 && !killed && succeeded(st) && s->cmdEnded)
				report("C02", std::string("undelivered-success-") + n, "%s: the command's %zu bytes of %s could not be delivered but the client ended with status 0", who.c_str(), s->outAtEnd[i], n);
			continue;
		}
		const std::string &w = o.written;
		if (o.c.m == Consumer::BROKENFILE || o.consumerClosed)
		{
			// what is lost must not be reported as success; a pipe may still accept what nobody reads any more
			size_t acc = o.c.m == Consumer::BROKENFILE ? d.size() : o.accepted();
			if (!killed && succeeded(st) && acc < s->outAtEnd[i])
				report("C02", std::string("undelivered-success-") + n, "%s: only %zu of %zu bytes of %s could be delivered but the client ended with status 0", who.c_str(), acc, s->outAtEnd[i], n);
		}
		size_t common = 0;
		while (common < d.size() && common < w.size() && d[common] == w[common]) common++;
		if (!broken)
		{
			if (common < d.size() || d.size() < w.size())
			{
				std::string kind = common < d.size() ? "differs" : "lost";
				std::string pr = extraProps(s, "C02");
				if (s->cmdEnded && !normal) { }
				report(pr.c_str(), std::string(n) + "-" + kind, "%s: the client's %s (%zu bytes) %s what the command wrote (%zu bytes) from offset %zu on; client ended with %s", who.c_str(), n, d.size(), common < d.size() ? "is not" : "lacks the rest of", w.size(), common, statusText(st).c_str());
			}
		}
		else if (common < d.size())
		{
			// a broken session may add the client's own error message to stderr
			size_t msg = i ? d.rfind('[', common) : std::string::npos; // (what the command wrote may continue with the same first bytes)
			bool own = msg != std::string::npos && std::string("[20").compare(0, std::min<size_t>(3, d.size() - msg), d, msg, 3) == 0;
			if (!own && !(i && s->clientAlloc)) // (its log lines may even be truncated)
				report(extraProps(s, "C02").c_str(), std::string(n) + "-not-prefix", "%s: the client's %s (%zu bytes) is not a prefix of what the command wrote (%zu bytes), first difference at %zu", who.c_str(), n, d.size(), w.size(), common);
		}
	}
	(void)v;
}

void Director::checkInstall()
{
	if (!inst || !inst->s) return;
	Session *s = inst->s;
	Inode *n = lookup(s->ct, s->cwd, inst->target, true);
	std::string what = "install to " + inst->target + " (case " + std::to_string(inst->kind) + ")";
	if (inst->binary->data != inst->binaryData || inst->binary->mode != inst->binaryMode)
		report("C13", "binary-damaged", "%s: the installed k8psh itself was changed", what.c_str());
	Inode *own = lookup(s->ct, "/", "/bin/k8psh", true);
	if (!own || own->type != Inode::REG || own->data != inst->binaryData || (own->mode & 0111) != 0111)
		report("C13", "binary-damaged", "%s: /bin/k8psh, the program that was to be installed, %s", what.c_str(), own ? "is damaged" : "is gone");
	if (s->client->killedByHarness) return;
	if (succeeded(s->clientStatus))
	{
		if (!n) report("C13", "target-missing", "%s: reported success but the target does not exist", what.c_str());
		else if (n->type != Inode::REG) report("C13", "target-type", "%s: reported success but the target is not a file", what.c_str());
		else
		{
			if (n->data != inst->binaryData) report("C13", "target-content", "%s: reported success but the target has %zu bytes that are not the program (%zu bytes)", what.c_str(), n->data.size(), inst->binaryData.size());
			if ((n->mode & 0111) != 0111) report("C13", "target-mode", "%s: reported success but the target's mode is %o", what.c_str(), n->mode);
		}
	}
	else if (inst->mustSucceed && !(s->taint & T_RES))
		report("C13", "install-failed", "%s: failed with %s although nothing prevents it", what.c_str(), statusText(s->clientStatus).c_str());
}

// ---------------------------------------------------------------- the run
bool Director::sessionOver(Session *s)
{
	if (!s->started || !s->clientEnded) return false;
	if (s->peer)
		for (size_t i = 0; i < s->peer->fds.size(); i++)
			if (s->peer->fds[i].f && s->peer->fds[i].f->type == File::PIPE_R) return false;
	if (s->handler && alive(s->handler)) return false;
	if (s->command && alive(s->command)) return false;
	for (Proc *h : s->holders) if (alive(h)) return false;
	return true;
}

bool Director::allOver()
{
	for (auto &s : sessions) if (!sessionOver(s.get())) return false;
	return true;
}

bool Director::probeable(Server *v)
{
	return v->started && !v->ended && v->servingAt >= 0 && v->stopAt < 0 && !v->mayStop && v->maxConn < 0 && (v->timeoutMs < 0 || W->now + 3 * SEC < v->startAt + v->timeoutMs * MS);
}

// Is anything going on, apart from servers waiting for connections?
bool Director::busy()
{
	for (auto &s : sessions) if (s->started && !sessionOver(s.get())) return true;
	for (auto &v : servers) if (v->started && !v->ended && (v->servingAt < 0 || v->stopAt >= 0)) return true;
	return false;
}

void Director::addProbe(int host)
{
	int cmd = -1;
	for (size_t i = 0; i < cfg.cmds.size(); i++)
		if (cfg.cmds[i].host == host && cfg.cmds[i].startable) { cmd = int(i); break; }
	if (cmd < 0) return;
	sessions.emplace_back(new Session);
	Session *s = sessions.back().get();
	s->id = int(sessions.size());
	makeProbe(this, s, cmd);
	probeCount++;
	startSession(s);
}

void Director::stuck(const char *why)
{
	probe("stuck");
	for (auto &sp : sessions)
	{
		Session *s = sp.get();
		if (!s->started || sessionOver(s)) continue;
		bool raw = s->raw;
		std::string state = "client " + std::string(s->clientEnded ? "ended" : "running") + ", handler " + (s->handler ? alive(s->handler) ? "running" : "ended" : "absent") + ", command " + (s->command ? alive(s->command) ? "running" : "ended" : "absent") + commandState(s);
		logEvent(nullptr, "%s is stuck (%s): %s", sname(s).c_str(), why, state.c_str());
		if (!raw && !(s->taint & T_BREAK) && s->lossAt < 0 && s->connected && steadyConsumer(s->out) && steadyConsumer(s->err) && s->accepted && s->handler)
			report(extraProps(s, "C04").c_str(), "deadlock", "%s makes no progress any more: %s", sname(s).c_str(), state.c_str());
		if (s->handler && alive(s->handler) && s->clientEnded && (!s->command || s->cmdEnded) && !(s->taint & T_HANDLER))
			report("C16", "handler-stuck", "%s: the handler process is still there although client and command have ended", sname(s).c_str());
	}
	// clear the scene
	for (auto &sp : sessions)
	{
		Session *s = sp.get();
		if (!s->started || sessionOver(s)) continue;
		s->taint |= T_CLIENT | T_HANDLER;
		for (Proc *p : { s->client, s->peer, s->command, s->handler })
			if (p && alive(p)) { p->killedByHarness = true; procExit(p, SIGKILL); }
		for (Proc *p : s->holders) if (alive(p)) procExit(p, SIGKILL);
	}
	outcome = "stuck";
}

void Director::tick()
{
	if (finished) return;
	while (timelinePos < timeline.size() && timeline[timelinePos].first <= W->now)
	{
		auto f = timeline[timelinePos++].second;
		f();
		if (finished) return;
	}
	Time now = W->now;
	if (now < lastStuckCheck + 20 * MS && !(W->step & 63) == 0) return;
	lastStuckCheck = now;

	for (auto &sp : sessions)
	{
		Session *s = sp.get();
		if (!s->started || s->checked) continue;
		if (!s->raw && !s->install && !s->connected && !s->clientEnded)
		{
			bool l = portListening(cfg.hosts[size_t(s->host)].port);
			if (!l) s->listenSince = -1;
			else if (s->listenSince < 0) s->listenSince = now;
			if ((cfg.connectTimeoutMs < 0 || cfg.connectTimeoutMs > 100000) && s->client && alive(s->client) && now - s->startAt > 45 * SEC && (timelinePos >= timeline.size() || timeline[timelinePos].first > now + 60 * SEC))
			{
				probe("waited-45s-for-server");
				s->taint |= T_CLIENT | T_UNSERVED;
				s->client->killedByHarness = true;
				procExit(s->client, SIGKILL);
			}
		}
		checkTerm(s);
		checkVisibility(s);
		if (finished) return;
		if (sessionOver(s)) checkSession(s);
		if (finished) return;
	}
	checkServers();
	if (finished) return;

	bool tlDone = timelinePos >= timeline.size();
	if (now > timeCap) { outcome = "time cap"; finished = true; return; }
	Time lastFault = timeline.empty() ? 0 : timeline[timelinePos ? timelinePos - 1 : 0].first;
	switch (phase)
	{
	case 0:
	case 2:
		if (phase == 0 ? tlDone && allOver() : allOver())
		{
			phase++;
			phaseAt = now;
		}
		else if (now - std::max({ W->lastProgress, lastFault, stallEnd }) > STUCK && busy() && (tlDone || timeline[timelinePos].first > now + STUCK) && !pendingWake())
		{
			stuck("nothing happens");
			if (finished) return;
			phase = 4;
			phaseAt = now;
			enterStop();
		}
		break;
	case 1:
	case 3:
		if (now < std::max(phaseAt, stallEnd) + 4 * SEC) break;
		checkLeaks(phase == 1 ? "after the sessions" : "after the final probe");
		if (finished) return;
		phaseAt = now;
		if (phase == 1 && allowProbes)
		{
			phase = 2;
			size_t n = servers.size();
			for (size_t i = 0; i < n; i++)
			{
				Server *v = servers[i].get();
				if (probeable(v)) addProbe(v->host);
			}
		}
		else { phase = 4; enterStop(); }
		break;
	case 4:
		{
			bool up = false;
			for (auto &v : servers) up |= v->started && !v->ended;
			if (!up || now > std::max(phaseAt, stallEnd) + 12 * SEC)
			{
				outcome = outcome.empty() ? "complete" : outcome;
				finished = true;
			}
			break;
		}
	default: break;
	}
}

void Director::enterStop()
{
	phaseAt = W->now;
	for (auto &v : servers)
		if (v->started && !v->ended && v->stopAt < 0)
		{
			if (v->servingAt >= 0)
			{
				if (v->loseStub >= 0 && !v->keep && !v->expectStubs.empty())
				{
					// somebody else removes one of the client executables
					auto it = v->expectStubs.begin();
					std::advance(it, v->loseStub % int(v->expectStubs.size()));
					if (removeFile(v->ct, *it)) fault("client-executable-removed");
				}
				stopServer(v.get(), SIGTERM);
			}
			else if (v->proc && alive(v->proc)) { v->killed = true; procExit(v->proc, SIGKILL); }
		}
}

// some model program is going to act by itself at a known time
bool Director::pendingWake()
{
	for (Proc *p : W->live)
		if (p->actor && alive(p) && p->actor->wakeAt() != NEVER && p->actor->wakeAt() < W->now + 400 * SEC) return true;
	for (auto &s : sessions)
		if (s->started && !s->connected && !s->clientEnded && !s->raw) return true; // still waiting for its server
	return false;
}

bool Director::done() { return finished; }

Time Director::nextEvent()
{
	if (finished) return NEVER;
	Time t = timelinePos < timeline.size() ? timeline[timelinePos].first : NEVER;
	if (deep && phase == 0 && t != NEVER && W->now > stallEnd && !busy()) return t;
	return std::min(t, W->now + 250 * MS);
}

} // namespace sim
