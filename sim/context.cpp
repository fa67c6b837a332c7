// Execution contexts for the code under test.
// Every simulated process that runs the k8psh binary owns a memory window (heap + stack) at a fixed virtual address and an image of the
// binary's data section. fork() duplicates the image; a forked process shares its parent's window addresses, and images are swapped when the
// scheduler switches between members of the same family.
#include "kernel.h"

#include <csetjmp>
#include <cstdlib>
#include <cxxabi.h>
#include <exception>
#include <new>
#include <sys/mman.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

extern char __start_uut_data[] __attribute__((weak)), __stop_uut_data[] __attribute__((weak));
typedef void (*InitFn)(int, char **, char **);
extern InitFn __start_uut_init[] __attribute__((weak)), __stop_uut_init[] __attribute__((weak));

extern "C" {
void sim_switch(void **save, void *to);
void sim_entry_thunk();
void sim_entry();
void sim_crash_return();
int uut_main(int argc, const char **argv);
}

asm(R"(
	.text
	.globl sim_switch
	.type sim_switch, @function
sim_switch:
	.cfi_startproc
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
	.cfi_endproc
	.globl sim_crash_return
	.type sim_crash_return, @function
sim_crash_return:
	.cfi_startproc
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
	.cfi_endproc
	.globl sim_entry_thunk
	.type sim_entry_thunk, @function
sim_entry_thunk:
	.cfi_startproc
	.cfi_undefined rip
	nop
	call sim_entry
	ud2
	.cfi_endproc
	.section .note.GNU-stack,"",@progbits
	.text
)");

namespace sim {

bool g_uut = false;
const char *g_crashText = "";

static const size_t WIN_SIZE = 128u << 20, STACK_SIZE = 1u << 20, HEAP_SIZE = 112u << 20, GUARD = 1u << 20;
static char *const WIN_BASE = reinterpret_cast<char *>(0x100000000000ull);
static const int MAX_WIN = 96;

struct ArenaHead { uint64_t brk; void *freeList[160]; uint64_t live; };
struct Block { uint64_t cls : 16, usable : 48; uint64_t magic; };
static const uint64_t CANARY = 0x9d7f31c5e86ab420ull;
static const uint64_t MAGIC_LIVE = 0x5aa5c33c11223344ull, MAGIC_FREE = 0x0dead0dead0deadull;

struct Window { bool mapped = false; Proc *loaded = nullptr; int users = 0; size_t heapMax = 0; };
static Window g_win[MAX_WIN];
static Proc *g_dataOwner = nullptr;
static std::vector<char> g_pristine;
static void *g_schedRsp = nullptr;
static Proc *g_running = nullptr; // process whose stack is active
static volatile uint64_t g_beat = 0; // incremented at every switch, watched by the CPU watchdog
static uint64_t g_kernelEh[2];

static char *winBase(int w) { return WIN_BASE + size_t(w) * WIN_SIZE; }
static char *heapBase(int w) { return winBase(w) + GUARD; }
static char *stackTop(int w) { return winBase(w) + WIN_SIZE - GUARD; }
static char *stackLow(int w) { return stackTop(w) - STACK_SIZE; }
static ArenaHead *arena(int w) { return reinterpret_cast<ArenaHead *>(heapBase(w)); }
static size_t dataSize() { return size_t(__stop_uut_data - __start_uut_data); }

// ---------------------------------------------------------------- arena
static int sizeClass(size_t n, size_t &rounded)
{
	if (n < 16) n = 16;
	if (n <= 1024) { rounded = (n + 15) & ~size_t(15); return int(rounded / 16); } // classes 1..64
	int cls = 65;
	size_t s = 1024;
	for (;;)
	{
		for (int q = 1; q <= 4; q++, cls++)
		{
			size_t t = s + s / 4 * size_t(q);
			if (n <= t) { rounded = t; return cls; }
		}
		s *= 2;
	}
}

void *arenaAlloc(size_t n, bool mayFail)
{
	Proc *p = g_running;
	if (mayFail && p->allocFailAt >= 0 && p->allocFailAt-- == 0) { fault("alloc-failure"); return nullptr; }
	if (n > HEAP_SIZE / 2) return nullptr;
	ArenaHead *a = arena(p->win);
	size_t r, usable = n <= 24 ? 24 : ((n + 8 + 15) & ~size_t(15)) - 8; // what the C library would provide; whatever is written behind it destroys the heap
	int c = sizeClass(usable + sizeof CANARY, r);
	Block *b = static_cast<Block *>(a->freeList[c]);
	if (b)
		a->freeList[c] = *reinterpret_cast<void **>(b + 1);
	else
	{
		if (a->brk + r + sizeof(Block) > HEAP_SIZE) return nullptr;
		b = reinterpret_cast<Block *>(heapBase(p->win) + a->brk);
		a->brk += r + sizeof(Block);
	}
	b->cls = uint64_t(c) & 0xffff;
	b->usable = usable & 0xffffffffffff;
	b->magic = MAGIC_LIVE;
	memset(b + 1, 0xA5, r);
	memcpy(reinterpret_cast<char *>(b + 1) + usable, &CANARY, sizeof CANARY);
	return b + 1;
}

static void uutCrash(const char *what, int sig);

bool arenaOwns(const void *q)
{
	const char *p = static_cast<const char *>(q);
	return p >= WIN_BASE && p < WIN_BASE + size_t(MAX_WIN) * WIN_SIZE;
}

void arenaFree(void *q)
{
	if (!q) return;
	Proc *p = g_running;
	Block *b = static_cast<Block *>(q) - 1;
	if (!p || p->win < 0 || static_cast<char *>(q) < heapBase(p->win) || static_cast<char *>(q) >= heapBase(p->win) + HEAP_SIZE || b->magic != MAGIC_LIVE)
		uutCrash("invalid or double free", SIGABRT);
	size_t r = size_t(b->usable);
	int c = int(b->cls);
	if (r > HEAP_SIZE || memcmp(static_cast<char *>(q) + r, &CANARY, sizeof CANARY) != 0)
		uutCrash("heap corruption: data written behind the end of a block", SIGABRT);
	memset(q, 0xDD, r > 256 ? 256 : r);
	b->magic = MAGIC_FREE;
	ArenaHead *a = arena(p->win);
	*reinterpret_cast<void **>(q) = a->freeList[c];
	a->freeList[c] = b;
}

size_t arenaSize(void *q) { return size_t((static_cast<Block *>(q) - 1)->usable); }

// ---------------------------------------------------------------- images
static void saveImage(Proc *p)
{
	int w = p->win;
	p->memHeap.assign(heapBase(w), heapBase(w) + arena(w)->brk);
	char *lo = static_cast<char *>(p->rsp) - 256;
	if (lo < stackLow(w)) lo = stackLow(w);
	p->memStack.assign(lo, stackTop(w));
}

static void loadImage(Proc *p)
{
	int w = p->win;
	if (p->memHeap.size() > g_win[w].heapMax) g_win[w].heapMax = p->memHeap.size();
	memcpy(heapBase(w), p->memHeap.data(), p->memHeap.size());
	memcpy(stackTop(w) - p->memStack.size(), p->memStack.data(), p->memStack.size());
}

static void makeCurrent(Proc *p)
{
	Window &w = g_win[p->win];
	if (w.loaded != p)
	{
		if (w.loaded) saveImage(w.loaded);
		loadImage(p);
		w.loaded = p;
	}
	if (g_dataOwner != p)
	{
		if (g_dataOwner) g_dataOwner->memData.assign(__start_uut_data, __stop_uut_data);
		memcpy(__start_uut_data, p->memData.data(), dataSize());
		g_dataOwner = p;
	}
}

static void mapWindow(int i)
{
	if (g_win[i].mapped) return;
	void *r = mmap(winBase(i), WIN_SIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (r != winBase(i)) { fprintf(stderr, "simulator: cannot map window %d\n", i); _exit(2); }
	if (mprotect(heapBase(i), HEAP_SIZE, PROT_READ | PROT_WRITE) || mprotect(stackLow(i), STACK_SIZE, PROT_READ | PROT_WRITE))
	{
		fprintf(stderr, "simulator: mprotect failed\n");
		_exit(2);
	}
	g_win[i].mapped = true;
}

void ctxStart(Proc *p, const std::vector<std::string> &argv, const std::vector<std::string> &env)
{
	int w = -1;
	for (int i = 0; i < MAX_WIN; i++)
		if (!g_win[i].users) { w = i; break; }
	if (w < 0) { fprintf(stderr, "simulator: out of windows\n"); _exit(2); }
	mapWindow(w);
	Window &win = g_win[w];
	win.users = 1;
	win.loaded = p;
	p->uut = true;
	p->win = w;
	p->startArgv = argv;
	p->startEnv = env;
	memset(stackTop(w) - 65536, 0xA5, 65536);
	ArenaHead *a = arena(w);
	memset(a, 0, sizeof *a);
	a->brk = (sizeof(ArenaHead) + 63) & ~size_t(63);
	void **sp = reinterpret_cast<void **>(stackTop(w) - 64);
	*--sp = nullptr;
	*--sp = nullptr;
	*--sp = reinterpret_cast<void *>(&sim_entry_thunk);
	for (int i = 0; i < 6; i++) *--sp = nullptr;
	p->rsp = sp;
	p->savedErrno = 0;
	p->ehGlobals[0] = p->ehGlobals[1] = 0;
	p->memData = g_pristine;
	p->memHeap.clear();
	p->memStack.clear();
}

// Called on the kernel stack while the parent is suspended in fork().
void ctxFork(Proc *parent, Proc *child)
{
	child->uut = true;
	child->win = parent->win;
	g_win[child->win].users++;
	child->rsp = parent->rsp;
	child->savedErrno = parent->savedErrno;
	child->ehGlobals[0] = parent->ehGlobals[0];
	child->ehGlobals[1] = parent->ehGlobals[1];
	if (g_win[parent->win].loaded == parent)
	{
		saveImage(parent);
		child->memHeap = parent->memHeap;
		child->memStack = parent->memStack;
	}
	else
	{
		child->memHeap = parent->memHeap;
		child->memStack = parent->memStack;
	}
	if (g_dataOwner == parent) child->memData.assign(__start_uut_data, __stop_uut_data);
	else child->memData = parent->memData;
}

void ctxRelease(Proc *p)
{
	if (p->win < 0) return;
	Window &w = g_win[p->win];
	if (w.loaded == p)
	{
		if (arena(p->win)->brk > w.heapMax) w.heapMax = arena(p->win)->brk;
		w.loaded = nullptr;
	}
	if (g_dataOwner == p) g_dataOwner = nullptr;
	if (--w.users == 0 && w.heapMax > (4u << 20))
	{
		madvise(heapBase(p->win), HEAP_SIZE, MADV_DONTNEED);
		w.heapMax = 0;
	}
	p->win = -1;
	p->uut = false;
	std::vector<char>().swap(p->memHeap);
	std::vector<char>().swap(p->memStack);
	std::vector<char>().swap(p->memData);
}

void ctxReset()
{
	for (int i = 0; i < MAX_WIN; i++)
	{
		g_win[i].loaded = nullptr;
		g_win[i].users = 0;
	}
	g_dataOwner = nullptr;
	g_running = nullptr;
}

// ---------------------------------------------------------------- switching
static void swapEh(uint64_t *save, const uint64_t *load)
{
	uint64_t *g = reinterpret_cast<uint64_t *>(abi::__cxa_get_globals());
	save[0] = g[0]; save[1] = g[1];
	g[0] = load[0]; g[1] = load[1];
}

// Resumes p until it asks the scheduler for something; the request is left in p->request.
void ctxRun(Proc *p)
{
	makeCurrent(p);
	g_running = p;
	g_beat++;
	int kernelErrno = errno;
	swapEh(g_kernelEh, p->ehGlobals);
	errno = p->savedErrno;
	sim_switch(&g_schedRsp, p->rsp);
	p->savedErrno = errno;
	swapEh(p->ehGlobals, g_kernelEh);
	errno = kernelErrno;
	g_running = nullptr;
	g_uut = false;
	g_beat++;
}

void ctxYield()
{
	sim_switch(&g_running->rsp, g_schedRsp);
}

void ctxExitNow()
{
	void *dummy;
	sim_switch(&dummy, g_schedRsp);
	__builtin_trap();
}

static void uutCrash(const char *what, int sig)
{
	g_uut = false;
	g_crashText = what;
	g_running->request = REQ_CRASH;
	g_running->status = sig;
	ctxExitNow();
}

extern "C" void sim_crash(const char *what, int sig) { uutCrash(what, sig); }

// ---------------------------------------------------------------- faults raised by the code under test
static void onFatal(int sig, siginfo_t *si, void *ctx)
{
	ucontext_t *uc = static_cast<ucontext_t *>(ctx);
	char *sp = reinterpret_cast<char *>(uc->uc_mcontext.gregs[REG_RSP]);
	if (g_running && (g_uut || (g_running->win >= 0 && sp >= stackLow(g_running->win) - GUARD && sp <= stackTop(g_running->win))))
	{
		g_uut = false;
		g_crashText = sig == SIGSEGV ? "segmentation fault" : sig == SIGFPE ? "arithmetic fault" : sig == SIGILL ? "illegal instruction" : "bus error";
		g_running->request = REQ_CRASH;
		g_running->status = sig;
		uc->uc_mcontext.gregs[REG_RSP] = reinterpret_cast<greg_t>(g_schedRsp);
		uc->uc_mcontext.gregs[REG_RIP] = reinterpret_cast<greg_t>(&sim_crash_return);
		return;
	}
	char buf[128];
	int n = snprintf(buf, sizeof buf, "simulator: signal %d at %p outside the code under test\n", sig, si->si_addr);
	(void)!write(2, buf, size_t(n));
	_exit(2);
}

static uint64_t g_lastBeat;
static int g_sameBeat;

static void onTimer(int, siginfo_t *, void *ctx)
{
	if (!g_running || g_beat != g_lastBeat) { g_lastBeat = g_beat; g_sameBeat = 0; return; }
	if (++g_sameBeat < 12 || !g_uut) return; // about 3 s of CPU time without a system call
	ucontext_t *uc = static_cast<ucontext_t *>(ctx);
	g_sameBeat = 0;
	g_uut = false;
	g_crashText = "endless computation without a system call";
	g_running->request = REQ_CRASH;
	g_running->status = SIGXCPU;
	uc->uc_mcontext.gregs[REG_RSP] = reinterpret_cast<greg_t>(g_schedRsp);
	uc->uc_mcontext.gregs[REG_RIP] = reinterpret_cast<greg_t>(&sim_crash_return);
}

static void onTerminate()
{
	if (!g_running) { fprintf(stderr, "simulator: terminate outside the code under test\n"); _exit(2); }
	g_uut = false;
	g_crashText = "";
	g_running->request = REQ_EXIT;
	g_running->status = SIGABRT;
	g_running->exitRequested = true;
	ctxExitNow();
}

void ctxInit()
{
	static bool done = false;
	if (done) return;
	done = true;
	g_pristine.assign(__start_uut_data, __stop_uut_data);
	stack_t ss = {};
	ss.ss_size = 1 << 16;
	ss.ss_sp = malloc(ss.ss_size);
	sigaltstack(&ss, nullptr);
	struct sigaction sa = {};
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sa.sa_sigaction = onFatal;
	sigaction(SIGSEGV, &sa, nullptr);
	sigaction(SIGBUS, &sa, nullptr);
	sigaction(SIGFPE, &sa, nullptr);
	sigaction(SIGILL, &sa, nullptr);
	sa.sa_sigaction = onTimer;
	sa.sa_flags |= SA_RESTART;
	sigaction(SIGPROF, &sa, nullptr);
	itimerval it = {};
	it.it_interval.tv_usec = it.it_value.tv_usec = 250000;
	setitimer(ITIMER_PROF, &it, nullptr);
	std::set_terminate(onTerminate);
}

extern "C" Proc *sim_running() { return g_running; }
extern "C" void sim_run_constructors(int argc, char **argv, char **env)
{
	for (InitFn *f = __start_uut_init; f && f < __stop_uut_init; ++f)
		if (*f) (*f)(argc, argv, env);
}

} // namespace sim

// ---------------------------------------------------------------- global allocation functions
static void *newImpl(size_t n, bool nothrow)
{
	void *r;
	if (sim::g_uut)
	{
		sim::g_uut = false;
		r = sim::arenaAlloc(n);
		sim::g_uut = true;
	}
	else r = malloc(n ? n : 1);
	if (!r && !nothrow)
	{
		if (!sim::g_uut) { fprintf(stderr, "simulator: out of memory\n"); _exit(2); }
		throw std::bad_alloc();
	}
	return r;
}

static void delImpl(void *p)
{
	if (sim::arenaOwns(p))
	{
		bool u = sim::g_uut;
		sim::g_uut = false;
		sim::arenaFree(p);
		sim::g_uut = u;
	}
	else free(p);
}

void *operator new(size_t n) { return newImpl(n, false); }
void *operator new[](size_t n) { return newImpl(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return newImpl(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return newImpl(n, true); }
void operator delete(void *p) noexcept { delImpl(p); }
void operator delete[](void *p) noexcept { delImpl(p); }
void operator delete(void *p, size_t) noexcept { delImpl(p); }
void operator delete[](void *p, size_t) noexcept { delImpl(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { delImpl(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { delImpl(p); }
