// The director: the environment of the code under test (users, commands, hostile peers, faults) and the oracles.
#pragma once

#include "kernel.h"

namespace sim {

// ---------------------------------------------------------------- configuration model
struct Piece { enum K { LIT, LOADREF, LATEREF } k = LIT; std::string s, def; bool hasDef = false; }; // LOADREF: expanded while loading, LATEREF: at session time
typedef std::vector<Piece> Template;

struct EnvRule { char kind = ' '; std::string name; Template value; }; // kind: ' ' required, '?' optional, '=' inherited

typedef std::map<std::string, std::string> Env;

struct CfgCmd
{
	std::string name;
	int host = 0;
	std::vector<EnvRule> env;
	std::vector<Template> exec; // executable and arguments; empty: the command's own name
	std::string program;        // identity of the program that is expected to run
	bool startable = true;      // false: missing or not executable
};

static const char *const LINK = "lnk-9"; // the name of symbolic links to directories

struct CfgHost
{
	std::string name;
	int explicitPort = 0, port = 0;
	std::string portText;                              // how the port is written, if not as a plain number
	const char *overridden = nullptr;                  // an option whose value here would end the server, always overridden on the command line
	bool ignoring = false;                             // the options say that invalid ones are ignored
	int wrongOption = 0;                               // the options are invalid (1: unrecognised, 2: without value)
	std::vector<std::pair<std::string, int>> before;   // sections without commands that precede it (name, explicit port or 0)
	std::vector<EnvRule> env;
	std::vector<std::string> options;
};

struct Cfg
{
	std::vector<CfgHost> hosts;
	std::vector<CfgCmd> cmds;
	std::string baseSetting;   // value text of baseDirectory, empty when not set
	bool baseFromEnv = false;
	std::string baseSub;       // base directory relative to the mount point
	bool hasTimeout = false;
	long long connectTimeoutMs = 30000;
	std::string timeoutText;   // how the timeout is written, if not as a plain number
	bool oddPaths = false;     // unusual spellings of paths
	bool confLinked = false;   // the file is named through a symbolic link to the mount point
	bool atRoot = false;       // the file is /k8psh.conf in every container
	bool baseRoot = false;     // the base directory is the root directory
	bool odd = false;          // unusual but valid syntax
	size_t padding = 0;        // length of a comment
	std::string invalid;       // not empty: what is wrong with the text
	Env env;                   // variables the text refers to, set for everybody
	std::string text;
	std::string path;          // file, relative to the mount point
};

// ---------------------------------------------------------------- commands
struct Op
{
	enum K { OUT, ERR, IN, INEOF, CAT, CLOSE, SLEEP, FORKHOLD, EXIT, DIE, WAITSEEN, NOP, FLOOD, DAEMON } k = NOP;
	int64_t n = 0;   // bytes, descriptor, duration (ns), code
	int chunk = 0;   // write or read size
	int64_t m = 0;   // FORKHOLD: bytes the background process writes to stdout before it ends; FLOOD: bytes written at most
};

struct Script
{
	std::vector<Op> ops;
	int onTerm = 0;      // 0: default action, 1: exit with termCode, 2: write a line then exit with termCode, 3: ignore for a while then exit
	int termCode = 0;
	Time termDelay = 0;
	bool needsEof = false;
	int64_t needsIn = 0;
};

struct ProdItem { Time delay = 0; int64_t n = 0; int64_t waitSeen = 0; int chunk = 0; };

struct Consumer
{
	enum M { FAST, SLOW, CLOSE_AFTER, FILE_, FULL, NULL_, CLOSED, PAUSED, BROKENFILE } m = FAST;
	Time period = 0; // SLOW
	int64_t chunk = 0, after = 0; // SLOW: bytes per period; CLOSE_AFTER: bytes accepted first
	Time until = 0;
};

struct OutStream
{
	std::string written;                          // by the command and its descendants
	std::deque<std::pair<size_t, Time>> pending;  // (offset after the write, time) not yet visible
	Time movedAt = -1;                            // when the last of them became visible
	std::string seen;                             // taken out by the consumer
	Pipe *pipe = nullptr;
	Inode *file = nullptr;
	Consumer c;
	bool consumerClosed = false;
	Pipe *cmdPipe = nullptr;   // the command's end
	Time endedAt = -1;         // the command and its descendants have closed it
	bool eofSeen = false;      // the consumer has seen the end
	size_t accepted() const { return pipe ? size_t(pipe->totalIn) : file ? file->data.size() : 0; }
};

enum Taint
{
	T_CLIENT = 1,   // client killed or made to fail
	T_HANDLER = 2,  // handler killed or made to fail
	T_CMD = 4,      // command killed by the harness
	T_NET = 8,      // connection reset
	T_SRV = 16,     // server-side resource failure while accepting
	T_OUT = 32,     // client's output cannot be delivered
	T_LAT = 64,     // stalls: no statement about promptness
	T_RES = 128,    // resource failure in a process of the session
	T_UNSERVED = 256, // the server may legitimately never serve it
	T_INPUT = 512,    // reading the client's stdin failed
	T_BREAK = T_CLIENT | T_HANDLER | T_NET | T_SRV | T_OUT | T_RES | T_UNSERVED | T_INPUT
};

struct Server;
struct RawPlan
{
	std::string bytes;            // what is sent
	std::vector<std::pair<size_t, Time>> pauses; // before sending the byte at this offset, wait
	int chunk = 65536;
	int endMode = 0;              // 0: read until EOF, 1: close at once, 2: shutdown write and read on, 3: reset, 4: stop reading and hold for a while, then close, 5: close after n bytes read
	Time hold = 0;
	int64_t readLimit = -1;
	bool wellFormed = false;      // the whole request is valid and the peer stays: the session must be served
	// reference decoding of the bytes
	bool complete = false;
	std::string name, wd;
	bool wdSet = false;
	std::vector<std::string> args;
	Env env;
	std::string received;
};

struct Session
{
	int id = 0;
	const char *kind = "stub";
	int cmd = -1;
	int host = 0;
	bool raw = false, probe = false, install = false;
	const char *mustFail = nullptr; // the client must fail without anything being started
	const char *mustFailProps = "C17";
	Proc *client = nullptr, *peer = nullptr, *handler = nullptr, *command = nullptr;
	Container *ct = nullptr;
	std::string cwd, relDir;
	std::vector<std::string> args, argv;
	Env env;
	std::string exePath;
	Script script;
	Time startAt = 0;
	bool started = false;
	unsigned taint = 0;

	// standard input of the client
	int inMode = 0; // 0: pipe, 1: /dev/null, 2: closed, 3: file, 4: file that cannot be read beyond an offset
	std::vector<ProdItem> prod;
	bool prodEof = true; // closes its end after the last item
	Time prodEofDelay = 0;
	std::string produced;
	bool inputEnded = false;
	Pipe *inPipe = nullptr;
	int64_t inPlanned = 0;
	std::string readIn;
	bool cmdSawEof = false;
	bool cmdClosedIn = false;

	OutStream out, err;

	// history
	std::vector<ExecRec> execs;
	std::vector<Proc *> holders; // background processes of the command
	Sock *conn = nullptr;        // client side
	bool connected = false, accepted = false;
	Time connectedAt = -1, acceptedAt = -1, execAt = -1, cmdEndAt = -1, clientEndAt = -1, lossAt = -1, handlerEndAt = -1, doneAt = -1, firstConnectAt = -1;
	const char *lossWhy = "";
	int cmdStatus = 0, clientStatus = 0;
	bool cmdEnded = false, clientEnded = false, handlerEnded = false;
	bool termDelivered = false;
	Time termDeliveredAt = -1, termSentAt = -1;
	Server *server = nullptr;    // generation that accepted it
	Time lastMoveAt = 0, starveSince = -1;
	int flood = 0;               // 1: output without end until input comes, 2: input without end, 3: one output stream without end
	std::vector<int> ignored; // signals the client is started with ignored
	Time lagClient = 0, lagHandler = 0; // slow processors
	bool clientAlloc = false, starveSaid = false; // an allocation of the client failed
	bool checked = false, stuckReported = false;
	RawPlan rawPlan;
	bool peerDone = false;
	bool rawServed = false;
	int preExecFailed = 0;
	int startedHandlers = 0;
	size_t outAtEnd[2] = { 0, 0 }; // bytes written when the command ended
	size_t starveKey = 0;
	Time listenSince = -1;       // the server's port has been accepting connections since then
};

struct Server
{
	int host = -1; // index into Cfg::hosts; -1: a name without commands
	int index = 0, generation = 0;
	Container *ct = nullptr;
	std::string nameGiven;
	Proc *launcher = nullptr, *proc = nullptr;
	std::vector<std::string> argv;
	Env env;
	std::string cwd;
	bool daemon = false, noWait = false, keep = false, disable = false, overwrite = false, genLocal = false, init = false;
	std::vector<int> ignored; // signals it is started with ignored
	Time neighbour = 0; // the lifetime of a process which is already a child of the server when it starts
	long long maxConn = -1, timeoutMs = -1;
	Time stormPeriod = 0, stormFor = 0, lag = 0; // connections that arrive faster than the server accepts them
	int stormMode = 0;
	std::string pidPath;      // canonical; empty when none
	std::string stubDir;      // canonical directory of the client executables
	std::set<std::string> expectStubs; // canonical paths
	std::set<std::string> ownNames;    // paths it may delete or overwrite (-o / -d)
	bool mustFail = false;    // start-up must fail
	const char *failWhy = "";
	bool mayFail = false;
	bool groupSignal = false; // signals that stop it go to its whole process group
	int loseStub = -1;        // the client executable that somebody else removes before it is stopped at the end
	Time hupAtReturn = -1; // daemon: the terminal it was launched from hangs up this long after the launcher has returned
	Time startAt = 0;
	bool started = false;
	Time listeningAt = -1, servingAt = -1, stopAt = -1, endAt = -1, launcherEndAt = -1;
	bool killed = false;      // by SIGKILL
	bool termSent = false;
	const char *stopWhy = "";
	bool ended = false;
	int endStatus = 0;
	int accepts = 0, handled = 0, forkFailures = 0;
	Time exhaustUntil = -1; // accept() fails until then
	int exhaustErr = 0;
	std::vector<Session *> sessions;
	int baseFds = -1;
	std::map<Inode *, std::string> created; // file-system objects it created -> path
	Pipe *launchOut = nullptr, *launchErr = nullptr;
	File *launchOutFile = nullptr, *launchErrFile = nullptr;
	bool relativePaths = false;
	bool servingChecked = false;
	bool mayStop = false;
	bool startErr = false;    // a system call or an allocation failed while it was starting
	Time lat = 0;             // additional allowance after stalls
	Time lastSessionEnd = -1;
};

// ---------------------------------------------------------------- faults and timeline
struct FaultItem
{
	enum A { KILL, SIGNAL, STALL, ERRNO, SHORT, ALLOC, RESET, JUMP, EXHAUST } a = KILL;
	// trigger
	bool byTime = false;
	Time at = 0;
	Session *s = nullptr;  // session the trigger belongs to (null: a server process)
	Server *srv = nullptr;
	Role role = R_OTHER;
	Sys kind = SYS_ANY;
	int nth = 1, seen = 0;
	int repeat = 1;        // ERRNO: this many calls in a row fail
	// effect
	Role target = R_OTHER; // role of the process hit; R_OTHER: the triggering process
	int arg = 0;           // signal, errno, number of allocations
	Time dur = 0;
	bool start = false;    // only while the server is starting
	bool fired = false;
};

struct Violation { std::string prop, sig, text; Time at; uint64_t step; };

struct InstallCase
{
	Session *s = nullptr;
	std::string target, canonTarget;
	int kind = 0;
	Inode *binary = nullptr;
	std::string binaryData;
	int binaryMode = 0;
	bool mustSucceed = false;
};

struct Prof;

struct Director : Observer
{
	std::string prop; // profile
	Cfg cfg;
	std::vector<std::unique_ptr<Session>> sessions;
	std::vector<std::unique_ptr<Server>> servers;
	std::vector<std::unique_ptr<FaultItem>> faults;
	std::vector<std::pair<Time, std::function<void()>>> timeline; // sorted by time
	size_t timelinePos = 0;
	std::vector<Violation> violations;
	Inode *workspace = nullptr, *binary = nullptr, *shared = nullptr, *binDir = nullptr;
	std::vector<Container *> hostCt;
	Container *clientCt = nullptr;
	std::vector<std::string> mounts; // per host, then client
	std::vector<std::pair<Inode *, std::string>> bystanders; // directory inode, name: files nobody may touch
	std::map<std::string, std::string> bystanderData;
	std::map<Inode *, std::string> watched;   // files that must not be modified -> description
	std::unique_ptr<InstallCase> inst;
	int phase = 0;
	Time phaseAt = 0;
	bool hostile = false;       // hostile peers or resource failures took part
	bool anyFault = false;
	bool finished = false;
	bool cleanStop = true;      // stop remaining servers at the end
	int probeCount = 0;
	bool allowProbes = true;
	Time stallEnd = 0;          // no promptness statements before this time
	std::string spawnError;
	Time timeCap = 400 * SEC;
	bool deep = false;          // the run covers weeks of idle time
	std::string describe;       // human-readable scenario
	Time lastStuckCheck = 0;
	std::string outcome;

	void report(const char *props, const std::string &sig, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
	void at(Time t, std::function<void()> f);
	void startStorm(Server *v);

	// Observer
	void onExec(ExecRec &) override;
	void onFork(Proc *parent, Proc *child) override;
	void onExit(Proc *) override;
	void onKill(const KillRec &) override;
	void onSignalSent(Proc *target, int sig, Proc *sender) override;
	void onFs(Proc *p, FsOp op, const std::string &path, Inode *before, Inode *after) override;
	void onAccept(Proc *p, Sock *s) override;
	void onListen(Proc *p, Sock *s) override;
	void onConnect(Proc *p, Sock *s, bool ok) override;
	void onInputError(Proc *p) override { if (p->session) { p->session->taint |= T_INPUT; fault("stdin-read-error"); } }
	void onSpin(Proc *p, int count) override;
	void onCrash(Proc *p, const char *what) override;
	int onSyscall(Proc *p, Sys kind) override;
	void onBlockedPoll(Proc *p) override;
	Actor *makeProgram(Proc *p, const std::string &prog, ExecRec &rec) override;
	bool done() override;
	void tick() override;
	Time nextEvent() override;

	// helpers
	std::string confPath(size_t i, bool named = true) { return (cfg.atRoot ? "" : named && cfg.confLinked ? "/" + std::string(LINK) : mounts[i]) + "/" + cfg.path; }
	Server *serverOf(Proc *p);
	Server *currentServer(int host);
	std::string extraProps(Session *s, const char *base);
	void startServer(Server *s);
	void startSession(Session *s);
	void stopServer(Server *s, int sig);
	void signalStarting(Server *v, Proc *t, int sig);
	void fire(FaultItem *f, Proc *p);
	void markLoss(Session *s, const char *why);
	void checkSession(Session *s);
	void checkVisibility(Session *s);
	void checkInstall();
	void checkServing(Server *s);
	void checkServerEnd(Server *s);
	void checkLeaks(const char *when);
	void checkRemoved(Server *s);
	void checkServers();
	void checkTerm(Session *s);
	void enterStop();
	bool pendingWake();
	void stuck(const char *why);
	bool sessionOver(Session *s);
	bool allOver();
	bool busy();
	void addProbe(int host);
	bool probeable(Server *v);
	void compareExec(Session *s, ExecRec &r);
	std::string sname(Session *s);
	bool faultedElsewhere(Session *s);
};

// pattern of the bytes that belong to a stream of a session
uint8_t patternByte(int session, int stream, uint64_t off);
void appendPattern(std::string &to, int session, int stream, uint64_t off, size_t n);

Env envMap(const std::vector<std::string> &env);
std::vector<std::string> envVec(const Env &e);
std::string expand(const Template &t, bool loadOnly, const Env &loader, const std::map<std::string, std::string> &vars, const Env &server);
Env referenceEnv(const Cfg &cfg, const CfgCmd &c, const Env &client, const Env &server);

Actor *newPeer(Director *d, Session *s);
Actor *newRaw(Director *d, Session *s);
void newNeighbour(Director *d, Server *v, Proc *parent);

// scenario.cpp
void buildScenario(Director *d, const std::string &prop);
void makeProbe(Director *d, Session *s, int cmd);
std::string frame(int type, const std::string &s);
void decodeRaw(RawPlan &r);

} // namespace sim
