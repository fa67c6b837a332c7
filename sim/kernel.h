// Simulated kernel for k8psh: processes, descriptors, pipes, TCP loopback, files, signals, clock and scheduler.
// Everything runs in one OS process and one OS thread; every decision is drawn from seeded choice streams.
#pragma once

#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include <poll.h>
#include <signal.h>
#include <sys/types.h>

namespace sim {

typedef int64_t Time; // nanoseconds of simulated time
constexpr Time US = 1000, MS = 1000 * US, SEC = 1000 * MS, NEVER = INT64_MAX;

// ---------------------------------------------------------------- choices
// A stream of decisions: drawn from a PRNG when exploring, read back from a list when replaying or minimising.
// The value 0 is always the simplest decision, and a replayed stream yields 0 once its list is exhausted.
struct Choices
{
	bool replay = false;
	std::vector<uint32_t> in, out;
	size_t pos = 0;
	uint64_t s = 0;

	void seed(uint64_t seed);
	uint32_t draw(uint32_t n); // uniform in [0, n)
	bool chance(uint32_t num, uint32_t den) { return num && draw(den) >= den - num; }
	template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(uint32_t(l.size()))); }
	// weighted index; index 0 is the simplest
	uint32_t weighted(std::initializer_list<uint32_t> w);
};

extern Choices chScn, chSched, chFault;

// ---------------------------------------------------------------- objects
struct Proc;
struct Actor;
struct Session;
struct Sock;

struct ByteQ
{
	std::vector<uint8_t> v;
	size_t head = 0;

	size_t size() const { return v.size() - head; }
	bool empty() const { return size() == 0; }
	void push(const void *p, size_t n) { v.insert(v.end(), static_cast<const uint8_t *>(p), static_cast<const uint8_t *>(p) + n); }
	const uint8_t *data() const { return v.data() + head; }
	void pop(size_t n)
	{
		head += n;
		if (head == v.size()) { v.clear(); head = 0; }
		else if (head > 65536 && head * 2 > v.size()) { v.erase(v.begin(), v.begin() + ptrdiff_t(head)); head = 0; }
	}
};

struct Pipe
{
	int id;
	ByteQ q;
	size_t cap;
	bool readers = true, writers = true;
	Proc *creator = nullptr;
	int creatorPid = 0;
	bool uut = false; // created by code under test
	uint64_t totalIn = 0, totalOut = 0;
};

struct Inode
{
	enum Type { DIR, REG, LNK, NUL, FULL } type = REG;
	int id = 0;
	int mode = 0644;
	int nlink = 0;
	int running = 0; // processes executing this file
	std::string data;   // REG: content, LNK: target
	std::map<std::string, Inode *> ents;
	Inode *parent = nullptr;
	int creatorPid = 0; // pid of the process that created it (0: the harness)
	int openCount = 0;
	// fault: writes beyond this many total bytes fail
	int64_t spaceLeft = -1;
	int spaceErrno = ENOSPC;
	int64_t readErrAt = -1; // reading at or beyond this offset fails with EIO
	size_t readMax = 0;     // most bytes one read returns (0: no limit)
	bool denyWrite = false; // writing is refused (read-only)
	std::function<void(const uint8_t *, size_t)> sink; // REG used as an output file: sees appended data
};

struct Segment { Time at; std::vector<uint8_t> data; bool fin = false, rst = false; };

struct Sock
{
	int id = 0;
	bool listening = false, bound = false, connected = false, reuse = false;
	int port = 0;
	std::deque<Sock *> backlog;
	size_t backlogMax = 0;
	bool uutListener = false;
	Sock *peer = nullptr;
	ByteQ rcvq, sndq;
	size_t rcvCap = 0, sndCap = 0;
	std::deque<Segment> inflight; // towards this socket
	size_t inflightBytes = 0;
	bool finRcvd = false, shutR = false, shutW = false, finSent = false;
	bool dead = false; // reset, or fully closed
	int soErr = 0;
	bool open = true;  // some descriptor refers to it
	bool queued = false; // in a backlog, not yet accepted
	bool isServerSide = false;
	int clientPid = 0; // pid of the connecting process
	Session *session = nullptr;
	uint64_t bytesIn = 0, bytesOut = 0;
	Time closedAt = -1;
	bool gotRst = false;
	Sock *listener = nullptr; // whose backlog it was put in
	int acceptIndex = -1;
	bool abortOnClose = false;
	int sourcePort = 0;
	bool self = false; // connected to itself: the chosen source port was the destination port
	bool selfLingers = false;
	uint32_t bindAddr = 0;
};

struct File // open file description
{
	enum Type { PIPE_R, PIPE_W, SOCK, REG, NUL, FULL, DIR } type;
	int id = 0;
	int refs = 0;
	int flags = 0; // O_NONBLOCK, O_APPEND, access mode
	Pipe *pipe = nullptr;
	Sock *sock = nullptr;
	Inode *ino = nullptr;
	size_t off = 0;
	bool inherited = false; // provided by the harness
	bool eofSeen = false;
	const char *tag = "";   // harness description, e.g. "launcher-stdout"
};

struct FdEnt { File *f = nullptr; bool cloexec = false; };

struct Wait
{
	enum Kind { NONE, POLL, READ, WRITE, ACCEPT, CONNECT, CHILD, SLEEP, LOCK, PRED } kind = NONE;
	std::vector<pollfd> pfds;
	File *file = nullptr;
	pid_t pid = 0;
	size_t need = 1;
	Time deadline = NEVER;
	bool interruptible = true;
	std::function<bool()> pred;
};

enum Role { R_OTHER, R_CLIENT, R_SERVER, R_HANDLER, R_CHILD, R_CMD, R_RAW, R_INSTALL, R_PEER };
const char *roleName(Role r);

enum ProcState { RUNNABLE, BLOCKED, ZOMBIE, GONE };

struct SigAct { sighandler_t h = SIG_DFL; int flags = 0; uint64_t mask = 0; };

struct Container
{
	int id = 0;
	std::string hostname;
	Inode *root = nullptr;
	int initPid = 0;
};

struct Proc
{
	int pid = 0, ppid = 0, sid = 0, pgid = 0;
	int serial = 0;
	Role role = R_OTHER;
	std::string name;
	Container *ct = nullptr;
	ProcState state = RUNNABLE;
	std::vector<FdEnt> fds;
	std::string cwd = "/";
	int umask = 022;
	SigAct sig[65];
	uint64_t sigMask = 0, sigPending = 0;
	uint64_t startIgn = 0; // signals it was started with ignored
	int status = 0; // wait status
	Time exitAt = -1, startAt = 0;
	std::string exePath;
	Inode *exe = nullptr;
	Wait wait;
	Time stalledUntil = 0;
	Time readySince = -1; // when it became ready to run without having been run since
	Time lag = 0; // time the process waits for the processor after each call
	uint32_t weight = 8;

	// code under test
	bool uut = false;
	int win = -1;               // memory window (see context.cpp)
	void *rsp = nullptr;
	int savedErrno = 0;
	uint64_t ehGlobals[2] = {};
	std::vector<char> memHeap, memStack, memData; // memory image while another process occupies the window / data section
	bool dataSaved = false;
	std::vector<std::string> startArgv, startEnv;
	std::string execPath;
	int forkResult = 0;
	int request = 0;            // what the process asked of the scheduler when it yielded
	int64_t allocFailAt = -1;   // fault: the n-th allocation from now fails
	uint64_t handlersRun = 0;   // number of signal handlers executed
	bool handlerRestart = true; // the handlers executed since the last reset were all installed with SA_RESTART
	bool spinning = false;

	// model programs
	std::unique_ptr<Actor> actor;

	// bookkeeping for oracles
	Session *session = nullptr;
	Sock *lastAccepted = nullptr;
	int generation = 0; // server generation index
	bool launcher = false;
	bool daemonChild = false;
	bool execed = false;
	int cmdIndex = -1;
	bool gotTerm = false;      // SIGTERM was sent to it (delivered, pending, or fatal)
	Time gotTermAt = -1;
	bool killedByHarness = false;
	bool exitRequested = false; // UUT called exit/abort itself
	int64_t bufferedFrames = 0; // most messages that may be left in its receive buffer: it may handle them one by one
	int64_t wireCredit = -1; // bytes it may send without that being idle chatter
	int pollsInRow = 0; // wake-ups without progress since the last one
	Time pollWindowStart = 0;
	int spinReported = 0;
	bool spinExempt = false;
	bool bindRace = false; // could not bind only because a process of the killed predecessor had not got round to closing its copy of the socket
	int syscallCount = 0;
	std::map<int, int> kindCount;
	uint64_t lastEdge = 0;
	int connectAttempts = 0;
	Time lastConnectAt = -1;
	std::vector<Time> connectTimes;
	std::set<int> reapedPids; // pids of children this process has already waited for
};

// A model program: stepped by the scheduler when ready.
struct Actor
{
	Proc *p = nullptr;
	virtual ~Actor() { }
	virtual bool ready() = 0;          // can make a step now
	virtual Time wakeAt() { return NEVER; } // next time at which it may become ready by itself
	virtual void step() = 0;
	virtual bool onSignal(int sig) { (void)sig; return false; } // true: handled, false: default action
};

struct ExecRec
{
	Proc *p = nullptr;
	int pid = 0;
	std::string path;
	std::vector<std::string> argv, env;
	std::string cwd;
	Container *ct = nullptr;
	Time at = 0;
	Session *session = nullptr;
	Sock *conn = nullptr;
	std::vector<std::string> leakedFds;
	std::vector<std::string> stdFds;
	uint64_t sigMask = 0;
	bool sigIgn[65] = {};
	int sid = 0;
	int parentPid = 0;
};

struct KillRec { Proc *sender; int targetPid; Proc *target; int sig; bool targetIsChild; bool targetReaped; Time at; };

enum FsOp { FS_CREATE, FS_TRUNC, FS_WRITE, FS_UNLINK, FS_SYMLINK, FS_LINK, FS_RENAME, FS_MKDIR, FS_RMDIR, FS_CHMOD };

// syscall kinds, for fault triggers and statistics
enum Sys
{
	SYS_ANY, SYS_poll_, SYS_read_, SYS_write_, SYS_recv_, SYS_send_, SYS_close_, SYS_open_, SYS_fork_, SYS_exec_, SYS_waitpid_, SYS_kill_,
	SYS_pipe_, SYS_socket_, SYS_bind_, SYS_listen_, SYS_accept_, SYS_connect_, SYS_shutdown_, SYS_sleep_, SYS_signal_, SYS_dup_, SYS_fcntl_,
	SYS_unlink_, SYS_symlink_, SYS_link_, SYS_rename_, SYS_readlink_, SYS_chdir_, SYS_getcwd_, SYS_stat_, SYS_setsid_, SYS_exit_, SYS_gmtime_, SYS_other_, SYS_COUNT
};
const char *sysName(int s);

struct Observer
{
	virtual ~Observer() { }
	virtual void onExec(ExecRec &) { }
	virtual void onSpawn(Proc *) { }
	virtual void onFork(Proc *parent, Proc *child) { (void)parent; (void)child; }
	virtual void onExit(Proc *) { }
	virtual void onKill(const KillRec &) { }
	virtual void onSignalSent(Proc *target, int sig, Proc *sender) { (void)target; (void)sig; (void)sender; }
	virtual void onFs(Proc *p, FsOp op, const std::string &path, Inode *before, Inode *after) { (void)p; (void)op; (void)path; (void)before; (void)after; }
	virtual void onAccept(Proc *p, Sock *s) { (void)p; (void)s; }
	virtual void onListen(Proc *p, Sock *s) { (void)p; (void)s; }
	virtual void onConnect(Proc *p, Sock *s, bool ok) { (void)p; (void)s; (void)ok; }
	virtual void onInputError(Proc *p) { (void)p; }
	virtual void onSpin(Proc *p, int count) { (void)p; (void)count; }
	virtual void onCrash(Proc *p, const char *what) { (void)p; (void)what; }
	virtual int onSyscall(Proc *p, Sys kind) { (void)p; (void)kind; return 0; } // returns errno to inject, or 0
	virtual void onBlockedPoll(Proc *p) { (void)p; }
	virtual Actor *makeProgram(Proc *p, const std::string &prog, ExecRec &rec) = 0;
	virtual bool done() = 0;
	virtual void tick() { } // after every scheduler step
	virtual Time nextEvent() { return NEVER; }
};

struct Knobs
{
	size_t pipeCap = 65536, sndCap = 262144, rcvCap = 131072;
	int selfConnect = 0; // one in how many connects to a port nobody listens on is connected to itself
	int latencyMode = 0; // 0: none, 1: small, 2: wide
	int segMode = 0;     // 0: whole, 1: up to 1460, 2: tiny pieces, 3: mixed
	int stickiness = 3;  // 0..5, larger = longer runs of one process
	Time stepCost = 2 * US;
	int pidStart = 100, pidMax = 32768;
	int maxSteps = 60000;
	bool shortReads = false;
	bool partialSend = false;
	int eintrRate = 0; // per 256 blocking polls
	int spinThreshold = 60;
};

struct Stats
{
	std::map<std::string, uint64_t> faults; // injected faults that actually happened, by kind
	std::map<std::string, uint64_t> probes; // rare conditions reached
	uint64_t steps = 0, switches = 0, syscalls = 0, bytes = 0, forks = 0, execs = 0, conns = 0;
};

struct World
{
	Knobs k;
	Time now = 0;
	uint64_t step = 0;
	std::vector<std::unique_ptr<Proc>> procs; // every process of the run, in creation order
	std::map<int, Proc *> byPid;
	std::vector<std::unique_ptr<Pipe>> pipes;
	std::vector<std::unique_ptr<Sock>> socks;
	std::map<int, Time> unlistened; // when a port last stopped accepting connections
	std::vector<std::unique_ptr<File>> files;
	std::vector<std::unique_ptr<Inode>> inodes;
	std::vector<std::unique_ptr<Container>> containers;
	std::vector<Proc *> live; // processes that are not GONE, in creation order
	std::vector<Sock *> activeSocks; // sockets with data in flight towards them
	int nextPid = 100, nextId = 1, nextPort = 40000;
	Observer *obs = nullptr;
	Proc *current = nullptr; // process being stepped
	Proc *last = nullptr;
	uint64_t hash = 0xcbf29ce484222325ULL, shape = 0xcbf29ce484222325ULL;
	bool verbose = false;
	std::vector<std::string> trace;
	bool traceOn = false;
	Stats st;
	std::string endReason;
	Inode *devNull = nullptr, *devFull = nullptr;
	std::set<uint64_t> edges;
	int acceptCounter = 0;
	uint64_t prevNode = 0;
	int prevSerial = 0;
	Time lastProgress = 0;
	Time wallOffset = 0; // system clock minus simulated time, may jump
	uint64_t traceLimit = 20000;
};

extern World *W;

void logEvent(Proc *p, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void fault(const char *kind);
void probe(const char *name);
void hashMix(uint64_t v);

// world building
Container *addContainer(const std::string &hostname);
Inode *mkNode(Inode::Type t, int mode);
Inode *mkdirp(Container *ct, const std::string &path);
Inode *putFile(Container *ct, const std::string &path, const std::string &data, int mode);
void mountDir(Container *ct, const std::string &path, Inode *dir);
Inode *lookup(Container *ct, const std::string &cwd, const std::string &path, bool follow, std::string *canon = nullptr, int *err = nullptr);
Pipe *newPipe(size_t cap);
File *newFile(File::Type t);
void fileRef(File *f);
void fileUnref(File *f);

// processes
Proc *newProc(Container *ct, Role role, const std::string &name, int ppid);
void setFd(Proc *p, int fd, File *f, bool cloexec = false);
void closeFd(Proc *p, int fd);
int allocFd(Proc *p, File *f, bool cloexec, int from = 0);
// Starts an executable file (the k8psh binary or a model program) in a fresh process. Returns 0 or an errno.
int spawnExec(Proc *p, const std::string &path, const std::vector<std::string> &argv, const std::vector<std::string> &env);
void procExit(Proc *p, int status); // status: wait status
void sendSignal(Proc *target, int sig, Proc *sender);
Proc *findPid(int pid);
bool alive(const Proc *p);

// non-blocking primitives (also used by model programs); return >= 0 or -errno, -EAGAIN when it would block
ssize_t kRead(Proc *p, File *f, void *buf, size_t n);
ssize_t kWrite(Proc *p, File *f, const void *buf, size_t n, bool nosignal = false);
int kPollFile(File *f); // readiness bits
Sock *newSock(Proc *p);
int kBind(Sock *s, int port);
int kConnectStart(Proc *p, Sock *s, uint32_t addr, int port); // (address 0: whatever the listener has) 0: connected, -ECONNREFUSED, -EAGAIN backlog full
void kShutdown(Sock *s, int how);
void kUnlisten(Sock *s);
void sockTransmit(Sock *s);
void sockReset(Sock *s); // sends RST to the peer and kills s
bool portListening(int port);

// code-under-test contexts (context.cpp)
void ctxInit();
void ctxStart(Proc *p, const std::vector<std::string> &argv, const std::vector<std::string> &env);
void ctxFork(Proc *parent, Proc *child);
void ctxRelease(Proc *p);
void ctxRun(Proc *p);            // resume p until it yields
void ctxYield();                 // called on p's stack: back to the scheduler
[[noreturn]] void ctxExitNow();  // called on p's stack: never resumed
void ctxReset();                 // forget all contexts (between runs)
enum { REQ_YIELD, REQ_FORK, REQ_EXEC, REQ_EXIT, REQ_CRASH };
extern bool g_uut; // true while code under test executes
extern const char *g_crashText;
void *arenaAlloc(size_t n, bool mayFail = true);      // allocation in the current process's heap (null when exhausted)
void arenaFree(void *p);
size_t arenaSize(void *p);
bool arenaOwns(const void *p);

// scheduler
void runWorld();
bool procReady(Proc *p);
bool childReady(Proc *p, pid_t pid); // a child to wait for has ended, or there is none
void progress(Proc *p); // p moved data or changed state: resets the spin counter

std::string hex64(uint64_t v);

} // namespace sim
