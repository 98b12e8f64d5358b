// Controlled execution of the real code: threads are serialised by a baton, every scheduling decision is recorded and
// can be directed, so that all schedules within a preemption bound can be run one by one (stateless exploration).
// Scheduling points: creation, start, end and joining of threads, mutex operations, and (if the code is compiled with
// -fsanitize-coverage=trace-pc) every basic block.  One execution runs in one forked child.
#ifndef SCHED_HPP
#define SCHED_HPP
#include <atomic>
#include <csignal>
#include <dlfcn.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include "mc.hpp"
#define NOSAN __attribute__((no_sanitize("thread"), no_sanitize("address"), noinline))
namespace sched {
const size_t CAP = 8 << 20, OUT = 4 << 20;
struct Shm { volatile uint64_t points; volatile uint32_t deadlock; volatile uint64_t used; uint8_t alts[CAP]; char out[OUT]; };
struct Dev { uint64_t at; int alt; };
const int MAXT = 256;
extern Shm * shm;
extern volatile int active;
extern bool fine; // basic blocks are scheduling points
void begin(); // the calling thread becomes thread 0
void end();
int spawn(void (*f)(void *), void * a); // real thread under the scheduler, without pthread_create's ordering between the threads
void waitAll();
struct Outcome { int status; uint64_t points; bool deadlock; std::vector<uint8_t> alts; std::string out; };
Outcome run(const std::vector<Dev> & devs, const std::function<void()> & body); // body runs in a child
void put(const std::string & s); // result of the child
std::string text(const std::vector<Dev> & d);
inline std::string statusText(int st) {
	if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGALRM ? "no answer within the time limit" : "killed by signal " + mc::num(WTERMSIG(st));
	return "exit status " + mc::num(WEXITSTATUS(st));
}
}
#ifdef SCHED_IMPL
namespace sched {
Shm * shm; volatile int active; bool fine;
static std::vector<Dev> devs; static size_t nextDev;
static volatile int turn; static int n;
static volatile bool started[MAXT], finished[MAXT]; static volatile int waitsFor[MAXT];
static const void * volatile waitMutex[MAXT]; static const void * volatile waitCond[MAXT];
static thread_local int me = -1;
static pthread_t real[MAXT];
struct Mutex { const void * m; int owner, depth; };
static Mutex mutexes[256]; static int nmutex;
NOSAN static Mutex & mutexOf(const void * m) { for (int i = 0; i < nmutex; i++) if (mutexes[i].m == m) return mutexes[i]; if (nmutex == 256) _exit(97); mutexes[nmutex] = {m, -1, 0}; return mutexes[nmutex++]; }
NOSAN static bool enabled(int t) {
	if (!started[t] || finished[t] || waitCond[t]) return false;
	if (waitsFor[t] >= 0 && !finished[waitsFor[t]]) return false;
	if (waitMutex[t] && mutexOf(waitMutex[t]).owner >= 0) return false;
	return true;
}
NOSAN static void pass(int t) { __atomic_store_n(&turn, t, __ATOMIC_RELAXED); syscall(SYS_futex, &turn, FUTEX_WAKE, 1 << 20, nullptr, nullptr, 0); }
NOSAN static void await() { int v; while ((v = __atomic_load_n(&turn, __ATOMIC_RELAXED)) != me) syscall(SYS_futex, &turn, FUTEX_WAIT, v, nullptr, nullptr, 0); }
// the next thread to run, among those enabled; forced: the caller cannot go on
NOSAN static int choose(bool forced) {
	int e[MAXT], k = 0;
	for (int i = 0; i < n; i++) if (i != me && enabled(i)) e[k++] = i;
	if (forced && k == 0) { if (!finished[me] && enabled(me)) return me; shm->deadlock = 1; _exit(96); }
	uint64_t i = shm->points;
	int alts = forced ? k - 1 : k;
	if (i < CAP) shm->alts[i] = (uint8_t) ((alts > 63 ? 63 : alts) | (forced ? 64 : 0));
	shm->points = i + 1;
	int pick = 0;
	if (nextDev < devs.size() && devs[nextDev].at == i) pick = devs[nextDev++].alt;
	if (forced) return e[pick];
	return pick ? e[pick - 1] : me;
}
NOSAN static void give(int t) { if (t == me) return; pass(t); await(); }
NOSAN void point() { give(choose(false)); }
NOSAN static void blocked() { give(choose(true)); }
NOSAN void begin() { n = 1; me = 0; started[0] = true; finished[0] = false; waitsFor[0] = -1; turn = 0; nextDev = 0; active = 1; }
NOSAN void end() { active = 0; me = -1; }
struct Start { int id; void * (*f)(void *); void (*g)(void *); void * a; };
NOSAN static void * tramp(void * p) {
	Start s = *(Start *) p; delete (Start *) p;
	me = s.id; await();
	void * r = nullptr;
	if (s.f) r = s.f(s.a); else s.g(s.a);
	finished[me] = true;
	int t = choose(true);
	me = -1; pass(t);
	return r;
}
static int (*realCreate)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
static int (*realJoin)(pthread_t, void **);
static int start(Start * s, pthread_t * t) {
	if (!realCreate) { realCreate = (decltype(realCreate)) dlsym(RTLD_NEXT, "pthread_create"); realJoin = (decltype(realJoin)) dlsym(RTLD_NEXT, "pthread_join"); }
	if (n == MAXT) _exit(97);
	int id = s->id = n; started[id] = true; finished[id] = false; waitsFor[id] = -1;
	int a = active; active = 0; // what the creation itself runs is not scheduled
	int r = realCreate(&real[id], nullptr, tramp, s);
	active = a;
	if (r) { started[id] = false; finished[id] = true; return r; }
	*t = real[id]; n = n + 1;
	return 0;
}
int spawn(void (*f)(void *), void * a) { pthread_t t; return start(new Start{0, nullptr, f, a}, &t); }
NOSAN void waitAll() { // thread 0 only: lets the others run to their ends
	for (int i = 1; i < n; i++) if (!finished[i]) { waitsFor[0] = i; blocked(); waitsFor[0] = -1; }
	active = 0;
	for (int i = 1; i < n; i++) realJoin(real[i], nullptr);
}
void put(const std::string & s) { size_t k = std::min(s.size(), OUT); memcpy(shm->out, s.data(), k); shm->used = k; }
Outcome run(const std::vector<Dev> & d, const std::function<void()> & body) {
	if (!shm) shm = (Shm *) mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	shm->points = 0; shm->deadlock = 0; shm->used = 0;
	devs = d;
	pid_t p = fork();
	if (p < 0) { perror("fork"); _exit(3); }
	if (p == 0) { alarm(60); body(); exit(0); }
	int st = 0; waitpid(p, &st, 0);
	Outcome o; o.status = st; o.points = shm->points; o.deadlock = shm->deadlock;
	o.alts.assign(shm->alts, shm->alts + std::min((uint64_t) shm->points, (uint64_t) CAP));
	o.out.assign(shm->out, shm->used);
	return o;
}
std::string text(const std::vector<Dev> & d) { std::string r; for (auto & x : d) r += " at step " + mc::num(x.at) + " thread choice " + mc::num(x.alt); return r.empty() ? " no preemption" : r; }
}
extern "C" {
#ifndef __SANITIZE_THREAD__
void __sanitizer_cov_trace_pc() { if (sched::active && sched::fine && sched::me >= 0) sched::point(); }
#endif
int pthread_create(pthread_t * t, const pthread_attr_t * a, void * (*f)(void *), void * arg) {
	using namespace sched;
	if (!realCreate) { realCreate = (decltype(realCreate)) dlsym(RTLD_NEXT, "pthread_create"); realJoin = (decltype(realJoin)) dlsym(RTLD_NEXT, "pthread_join"); }
	if (!active || me < 0) return realCreate(t, a, f, arg);
	int r = start(new Start{0, f, nullptr, arg}, t);
	if (!r) point();
	return r;
}
int pthread_join(pthread_t t, void ** r) {
	using namespace sched;
	if (!realJoin) realJoin = (decltype(realJoin)) dlsym(RTLD_NEXT, "pthread_join");
	if (active && me >= 0) {
		int id = -1;
		for (int i = n - 1; i > 0; i--) if (started[i] && pthread_equal(real[i], t)) { id = i; break; }
		if (id < 0) { shm->deadlock = 2; _exit(95); } // not a thread that was created and is not joined yet
		if (!finished[id]) { waitsFor[me] = id; blocked(); waitsFor[me] = -1; }
		started[id] = false;
	}
	return realJoin(t, r);
}
#ifndef __SANITIZE_THREAD__
int pthread_mutex_lock(pthread_mutex_t * m) {
	using namespace sched;
	static int (*f)(pthread_mutex_t *);
	if (!active || me < 0) { if (!f) f = (decltype(f)) dlsym(RTLD_NEXT, "pthread_mutex_lock"); return f(m); }
	point();
	Mutex * x = &mutexOf(m);
	if (x->owner == me) { x->depth++; return 0; }
	while (x->owner >= 0) { waitMutex[me] = m; blocked(); waitMutex[me] = nullptr; x = &mutexOf(m); }
	x->owner = me; x->depth = 1;
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t * m) {
	using namespace sched;
	static int (*f)(pthread_mutex_t *);
	if (!active || me < 0) { if (!f) f = (decltype(f)) dlsym(RTLD_NEXT, "pthread_mutex_unlock"); return f(m); }
	Mutex & x = mutexOf(m);
	if (--x.depth == 0) x.owner = -1;
	point();
	return 0;
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) {
	using namespace sched;
	static int (*f)(pthread_cond_t *, pthread_mutex_t *);
	if (!active || me < 0) { if (!f) f = (decltype(f)) dlsym(RTLD_NEXT, "pthread_cond_wait"); return f(c, m); }
	Mutex & x = mutexOf(m); int depth = x.depth; x.owner = -1; x.depth = 0;
	waitCond[me] = c; blocked();
	for (;;) { Mutex & y = mutexOf(m); if (y.owner < 0) { y.owner = me; y.depth = depth; break; } waitMutex[me] = m; blocked(); waitMutex[me] = nullptr; }
	return 0;
}
int pthread_cond_signal(pthread_cond_t * c) {
	using namespace sched;
	static int (*f)(pthread_cond_t *);
	if (!active || me < 0) { if (!f) f = (decltype(f)) dlsym(RTLD_NEXT, "pthread_cond_signal"); return f(c); }
	for (int i = 0; i < n; i++) if (waitCond[i] == c) { waitCond[i] = nullptr; break; }
	point();
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c) {
	using namespace sched;
	static int (*f)(pthread_cond_t *);
	if (!active || me < 0) { if (!f) f = (decltype(f)) dlsym(RTLD_NEXT, "pthread_cond_broadcast"); return f(c); }
	for (int i = 0; i < n; i++) if (waitCond[i] == c) waitCond[i] = nullptr;
	point();
	return 0;
}
#endif
#ifndef __SANITIZE_THREAD__
// initialisation of function-local statics: byte 0 done, byte 1 in progress
int schedGuard_acquire(void * g) asm("__cxa_guard_acquire");
int schedGuard_acquire(void * g) {
	using namespace sched;
	volatile char * b = (volatile char *) g;
	for (;;) {
		if (b[0]) return 0;
		if (!b[1]) { b[1] = 1; return 1; }
		if (active && me >= 0) { waitMutex[me] = g; mutexOf(g).owner = 1000; blocked(); waitMutex[me] = nullptr; }
		else usleep(100);
	}
}
void schedGuard_release(void * g) asm("__cxa_guard_release");
void schedGuard_release(void * g) { volatile char * b = (volatile char *) g; b[0] = 1; b[1] = 0; if (sched::active) sched::mutexOf(g).owner = -1; }
void schedGuard_abort(void * g) asm("__cxa_guard_abort");
void schedGuard_abort(void * g) { volatile char * b = (volatile char *) g; b[1] = 0; if (sched::active) sched::mutexOf(g).owner = -1; }
#endif
}
#endif
#endif
