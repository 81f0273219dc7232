// see vsched.h
#include "vsched.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <sched.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <atomic>

namespace {

enum st_t { ST_FREE, ST_RUN, ST_MUTEX, ST_COND, ST_TIMED, ST_JOIN, ST_DONE };

constexpr int MAXT = 250;

struct thr_t {
	st_t st = ST_FREE;
	void* obj = nullptr;       // mutex / cond waited for
	void* aux = nullptr;
	bool wr = false;
	bool woken = false;        // cond: signalled
	pthread_t real{};
	bool detached = false;
	void* (*fn)(void*) = nullptr;
	void* arg = nullptr;
	void* ret = nullptr;
	uint64_t prio = 0;
	std::atomic<int> tok{0};
};

thr_t T[MAXT];
int nthr = 0;
bool g_active = false;
__thread int self_id = -1;
vs_config C;
uint64_t g_steps = 0;
int g_spurious = 0;
uint64_t rng = 1;
uint64_t chg[64]; int nchg = 0; uint64_t low_prio = 0;
bool fair = false;
void (*stall_fn)(const char*) = nullptr;

constexpr int MAXTR = 1 << 16;
vs_choice TR[MAXTR]; int ntr = 0;

struct mtx_t { void* key; int owner; int rec; int readers; };
constexpr int MH = 1 << 14;
mtx_t M[MH];

mtx_t& mtx(void* k) {
	size_t h = (((size_t)k >> 3) * 0x9E3779B97F4A7C15ull) >> 50;
	for(int i = 0; i < MH; ++i) {
		mtx_t& m = M[(h + i) & (MH - 1)];
		if(m.key == k) return m;
		if(!m.key) { m.key = k; m.owner = -1; m.rec = 0; m.readers = 0; return m; }
	}
	write(2, "vsched: mutex table full\n", 25);
	_exit(99);
}

uint64_t rnd() {
	rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	return rng * 0x2545F4914F6CDD1Dull >> 11;
}

template<class F> F real(const char* n) {
	return (F)dlsym(RTLD_NEXT, n);
}

void fwait(std::atomic<int>& a) {
	while(a.load(std::memory_order_acquire) == 0) {
		syscall(SYS_futex, (int*)&a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
	}
	a.store(0, std::memory_order_relaxed);
}
void fwake(std::atomic<int>& a) {
	a.store(1, std::memory_order_release);
	syscall(SYS_futex, (int*)&a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

bool enabled(int i) {
	thr_t& t = T[i];
	switch(t.st) {
		case ST_RUN: case ST_TIMED: return true;
		case ST_MUTEX: { mtx_t& m = mtx(t.obj);
			if(t.wr) return m.owner < 0 && m.readers == 0;
			return m.owner < 0; }
		case ST_JOIN: return T[(long)t.obj].st == ST_DONE;
		case ST_COND: return false;
		default: return false;
	}
}

void stall(const char* why) {
	g_active = false;
	if(stall_fn) stall_fn(why);
	_exit(98);
}

// choose the next thread to run. cur may be blocked/done. yield: cur asks others to go first
int choose(int cur, bool yield, bool mem) {
	g_steps++;
	if(g_steps > C.step_limit && !fair) fair = true;
	if(g_steps > C.step_limit * 6) stall("livelock");
	int en[MAXT], n = 0;
	bool cur_en = enabled(cur);
	if(cur_en) en[n++] = cur;
	for(int i = 0; i < nthr; ++i) if(i != cur && enabled(i)) en[n++] = i;
	// spurious wake-ups
	if(n > 0 && g_spurious < C.spurious && !mem && C.mode != VS_DFS) {
		int cw[MAXT], k = 0;
		for(int i = 0; i < nthr; ++i) if(T[i].st == ST_COND) cw[k++] = i;
		if(k && rnd() % 12 == 0) {
			int w = cw[rnd() % k];
			T[w].st = ST_MUTEX; T[w].obj = T[w].aux; T[w].wr = true; T[w].woken = true;
			g_spurious++;
			if(enabled(w)) en[n++] = w;
		}
	}
	if(n == 0) stall("deadlock");
	if(fair) return en[rnd() % n];
	switch(C.mode) {
	case VS_PCT: {
		for(int i = 0; i < nchg; ++i) if(chg[i] == g_steps && cur_en) T[cur].prio = --low_prio;
		if(yield && cur_en) T[cur].prio = --low_prio;
		int b = en[0];
		for(int i = 1; i < n; ++i) if(T[en[i]].prio > T[b].prio) b = en[i];
		return b; }
	case VS_DFS: {
		if(mem) return cur;
		if(yield && cur_en && n > 1) { int x = en[0]; for(int i = 0; i + 1 < n; ++i) en[i] = en[i+1]; en[n-1] = x; }
		if(n == 1) return en[0];
		int c = ntr < C.prefix_len ? C.prefix[ntr] : 0;
		if(c >= n) c = 0;
		if(ntr < MAXTR) TR[ntr++] = { (uint8_t)n, (uint8_t)c, (uint8_t)(cur_en && !yield) };
		return en[c]; }
	default: {
		if(mem && rnd() % C.mem_rate) return cur;
		if(cur_en && !yield && (int)(rnd() % 100) < C.sticky) return cur;
		if(yield && cur_en && n > 1) return en[1 + rnd() % (n - 1)];
		return en[rnd() % n]; }
	}
}

void dispatch(int cur, bool yield = false, bool mem = false) {
	int nx = choose(cur, yield, mem);
	if(nx == cur) return;
	fwake(T[nx].tok);
	fwait(T[cur].tok);
}

bool on() { return g_active && self_id >= 0; }

void lock_m(void* m, bool wr = true) {
	thr_t& t = T[self_id];
	dispatch(self_id);
	for(;;) {
		mtx_t& x = mtx(m);
		if(wr ? (x.owner < 0 && !x.readers) : x.owner < 0) {
			if(wr) x.owner = self_id; else x.readers++;
			return;
		}
		t.st = ST_MUTEX; t.obj = m; t.wr = wr;
		dispatch(self_id);
		t.st = ST_RUN;
	}
}
void unlock_m(void* m) {
	mtx_t& x = mtx(m);
	if(x.owner == self_id) x.owner = -1; else if(x.readers > 0) x.readers--;
}

void cond_wait(void* c, void* m) {
	thr_t& t = T[self_id];
	dispatch(self_id);
	unlock_m(m);
	t.st = ST_COND; t.obj = c; t.aux = m; t.woken = false;
	dispatch(self_id);
	// woken: state is ST_MUTEX on m, and enabled
	for(;;) {
		mtx_t& x = mtx(m);
		if(x.owner < 0 && !x.readers) { x.owner = self_id; t.st = ST_RUN; return; }
		t.st = ST_MUTEX; t.obj = m; t.wr = true;
		dispatch(self_id);
	}
}
int cond_timed(void* c, void* m) {
	thr_t& t = T[self_id];
	dispatch(self_id);
	unlock_m(m);
	t.st = ST_TIMED; t.obj = c; t.aux = m; t.woken = false;
	dispatch(self_id, true);
	bool sig = t.woken;
	t.st = ST_RUN;
	for(;;) {
		mtx_t& x = mtx(m);
		if(x.owner < 0 && !x.readers) { x.owner = self_id; t.st = ST_RUN; return sig ? 0 : ETIMEDOUT; }
		t.st = ST_MUTEX; t.obj = m; t.wr = true;
		dispatch(self_id);
		t.st = ST_RUN;
	}
}
void cond_wake(void* c, bool all) {
	dispatch(self_id);
	int w[MAXT], n = 0;
	for(int i = 0; i < nthr; ++i)
		if((T[i].st == ST_COND || (T[i].st == ST_TIMED && !T[i].woken)) && T[i].obj == c) w[n++] = i;
	if(!all && n > 1) { w[0] = w[C.mode == VS_DFS ? 0 : rnd() % n]; n = 1; }
	for(int i = 0; i < n; ++i) {
		thr_t& t = T[w[i]];
		t.woken = true;
		if(t.st == ST_COND) { t.st = ST_MUTEX; t.obj = t.aux; t.wr = true; }
	}
}

void thread_done(int id) {
	T[id].st = ST_DONE;
	bool others = false;
	for(int i = 0; i < nthr; ++i) if(T[i].st != ST_DONE && T[i].st != ST_FREE) others = true;
	if(!others) return;
	int nx = choose(id, false, false);
	self_id = -1;
	fwake(T[nx].tok);
}

void* trampoline(void* p) {
	thr_t& t = *(thr_t*)p;
	self_id = (int)(&t - T);
	fwait(t.tok);
	t.ret = t.fn(t.arg);
	void* r = t.ret;
	thread_done((int)(&t - T));
	return r;
}

// shared-address tracking for memory scheduling points
constexpr int AH = 1 << 16;
struct adr_t { size_t a; int t; };
adr_t A[AH];

inline void mem_point(void* p) {
	if(!g_active || !C.mem || self_id < 0) return;
	char here;
	size_t d = (size_t)p - (size_t)&here + (1u << 16);
	if(d < (1u << 20)) return;            // own stack
	size_t a = (size_t)p >> 3;
	adr_t& e = A[(a * 0x9E3779B97F4A7C15ull) >> 48];
	if(e.a != a) { e.a = a; e.t = self_id; return; }
	if(e.t == self_id) return;
	e.t = -2;                             // shared from now on
	dispatch(self_id, false, true);
}

} // namespace

void vs_begin(const vs_config& cfg) {
	C = cfg;
	for(int i = 0; i < MAXT; ++i) { T[i].st = ST_FREE; T[i].tok.store(0); }
	memset(M, 0, sizeof(M));
	memset(A, 0, sizeof(A));
	nthr = 1; g_steps = 0; g_spurious = 0; ntr = 0; fair = false;
	rng = cfg.seed * 0x9E3779B97F4A7C15ull + 0x1234567; for(int i = 0; i < 4; ++i) rnd();
	low_prio = 1ull << 20;
	nchg = 0;
	if(C.mode == VS_PCT) {
		for(int i = 0; i < C.pct_depth && i < 64; ++i) chg[nchg++] = 1 + rnd() % (C.pct_steps > 0 ? C.pct_steps : 1);
	}
	T[0].st = ST_RUN; T[0].prio = (1ull << 21) + (rnd() & 0xFFFFF);
	self_id = 0;
	g_active = true;
}
void vs_end() { g_active = false; self_id = -1; }
int vs_live() { int n = 0; for(int i = 1; i < nthr; ++i) if(T[i].st != ST_DONE) n++; return n; }
int vs_self() { return self_id; }
bool vs_active() { return g_active; }
void vs_point() { if(on()) dispatch(self_id); }
uint64_t vs_steps() { return g_steps; }
size_t vs_trace(const vs_choice** out) { *out = TR; return ntr; }
void vs_on_stall(void (*fn)(const char*)) { stall_fn = fn; }

extern "C" {

int pthread_create(pthread_t* th, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
	static auto f = real<int(*)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*)>("pthread_create");
	if(!on()) return f(th, attr, fn, arg);
	if(nthr >= MAXT) { write(2, "vsched: too many threads\n", 25); _exit(99); }
	thr_t& t = T[nthr];
	t.fn = fn; t.arg = arg; t.detached = false; t.tok.store(0);
	t.prio = (1ull << 21) + (rnd() & 0xFFFFF);
	t.st = ST_RUN;
	int r = f(th, attr, trampoline, &t);
	if(r) { t.st = ST_FREE; return r; }
	t.real = *th;
	nthr++;
	dispatch(self_id);
	return 0;
}
int pthread_join(pthread_t th, void** ret) {
	static auto f = real<int(*)(pthread_t, void**)>("pthread_join");
	if(!on()) return f(th, ret);
	long k = -1;
	for(int i = 1; i < nthr; ++i) if(pthread_equal(T[i].real, th) && !T[i].detached) k = i;
	dispatch(self_id);
	if(k >= 0 && T[k].st != ST_DONE) {
		thr_t& t = T[self_id];
		t.st = ST_JOIN; t.obj = (void*)k;
		dispatch(self_id);
		t.st = ST_RUN;
	}
	if(k >= 0) T[k].detached = true;   // consumed; handle may be reused
	return f(th, ret);
}
int pthread_detach(pthread_t th) {
	static auto f = real<int(*)(pthread_t)>("pthread_detach");
	if(on()) for(int i = 1; i < nthr; ++i) if(pthread_equal(T[i].real, th)) T[i].detached = true;
	return f(th);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
	if(!on()) { static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
	mtx_t& x = mtx(m);
	if(x.owner == self_id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { x.rec++; return 0; }
	lock_m(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
	if(!on()) { static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
	dispatch(self_id);
	mtx_t& x = mtx(m);
	if(x.owner == self_id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) { x.rec++; return 0; }
	if(x.owner >= 0 || x.readers) return EBUSY;
	x.owner = self_id; return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
	if(!on()) { static auto f = real<int(*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
	mtx_t& x = mtx(m);
	if(x.owner == self_id && x.rec > 0) { x.rec--; return 0; }
	unlock_m(m);
	dispatch(self_id);
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
	if(!on()) { static auto f = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(m); }
	lock_m(m, false); return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
	if(!on()) { static auto f = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(m); }
	lock_m(m, true); return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
	if(!on()) { static auto f = real<int(*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(m); }
	unlock_m(m); dispatch(self_id); return 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
	if(!on()) { static auto f = real<int(*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); }
	cond_wait(c, m); return 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
	if(!on()) { static auto f = real<int(*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait"); return f(c, m, ts); }
	return cond_timed(c, m);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t ck, const struct timespec* ts) {
	if(!on()) { static auto f = real<int(*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait"); return f(c, m, ck, ts); }
	return cond_timed(c, m);
}
int pthread_cond_signal(pthread_cond_t* c) {
	if(!on()) { static auto f = real<int(*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); }
	cond_wake(c, false); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
	if(!on()) { static auto f = real<int(*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); }
	cond_wake(c, true); return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
	// real destroy would block on "waiters" only for real waiters; there are none under control
	return 0;
}
int sched_yield(void) {
	if(!on()) { static auto f = real<int(*)()>("sched_yield"); return f(); }
	dispatch(self_id, true); return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b) {
	if(!on()) { static auto f = real<int(*)(const struct timespec*, struct timespec*)>("nanosleep"); return f(a, b); }
	dispatch(self_id, true); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
	if(!on()) { static auto f = real<int(*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep"); return f(c, fl, a, b); }
	dispatch(self_id, true); return 0;
}
int usleep(useconds_t u) {
	if(!on()) { static auto f = real<int(*)(useconds_t)>("usleep"); return f(u); }
	dispatch(self_id, true); return 0;
}

// ---- instrumentation entry points of -fsanitize=thread (no tsan runtime is linked) ----
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { mem_point(p); } void __tsan_write##n(void* p) { mem_point(p); } \
	void __tsan_unaligned_read##n(void* p) { mem_point(p); } void __tsan_unaligned_write##n(void* p) { mem_point(p); } \
	void __tsan_volatile_read##n(void* p) { mem_point(p); } void __tsan_volatile_write##n(void* p) { mem_point(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t) { mem_point(p); }
void __tsan_write_range(void* p, size_t) { mem_point(p); }
void __tsan_vptr_update(void** p, void*) { }
void __tsan_vptr_read(void** p) { }
#define AT(bits, type) \
	type __tsan_atomic##bits##_load(const volatile type* a, int) { mem_point((void*)a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile type* a, type v, int) { mem_point((void*)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_exchange(volatile type* a, type v, int) { mem_point((void*)a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int) { mem_point((void*)a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int) { mem_point((void*)a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int) { mem_point((void*)a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int) { mem_point((void*)a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int) { mem_point((void*)a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* c, type v, int, int) { mem_point((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* c, type v, int, int) { mem_point((void*)a); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type c, type v, int, int) { mem_point((void*)a); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
}
