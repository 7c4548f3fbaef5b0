#include "rt.h"
#include "vt.h"
#include <pthread.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <cstdlib>
namespace vt {
std::function<void(const char *)> on_hang;
long fail_alloc_in = -1;
unsigned long g_defined;
void (*tracer)(char, uint64_t);
ns_t clock_cost;
ns_t now() { return 0; }
MemStat mem() { return {}; }   // memory is not counted in this build
unsigned long alloc_serial() { return 0; }
std::vector<std::pair<const void *, size_t>> live_since(unsigned long) { return {}; }
}
extern "C" {
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_nanosleep(const struct timespec *, struct timespec *);
}
namespace rt {
std::atomic<long> inflight{0};
std::atomic<unsigned long> fired{0};
static uint64_t real_ns() { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ULL + t.tv_nsec; }
static uint64_t base = real_ns();
static uint64_t scaled_ns() { return 1000000000000ULL + (real_ns() - base) * K; }
uint64_t now_us() { return scaled_ns() / 1000; }
static void real_sleep(uint64_t ns) { struct timespec t = {(time_t)(ns / 1000000000ULL), (long)(ns % 1000000000ULL)}; __real_nanosleep(&t, nullptr); }
void sleep_us(uint64_t us) { real_sleep(us * 1000 / K); }
void quiesce() { while (inflight.load(std::memory_order_relaxed)) real_sleep(200000); }
struct Tm { struct sigevent ev; std::atomic<uint64_t> interval{0}; std::atomic<bool> dead{false}, used{false}; };
static Tm tms[4096];
static std::atomic<int> ntm{0};
static void *call(void *p) {
	Tm *m = (Tm *)p;
	m->ev.sigev_notify_function(m->ev.sigev_value);
	inflight.fetch_sub(1, std::memory_order_relaxed);
	return nullptr;
}
static void *dispatcher(void *p) {
	Tm *m = (Tm *)p;
	while (!m->dead.load(std::memory_order_relaxed)) {
		uint64_t iv = m->interval.load(std::memory_order_relaxed);
		real_sleep((iv ? iv : 10000000ULL) / K);
		if (!iv || m->dead.load(std::memory_order_relaxed)) continue;
		inflight.fetch_add(1, std::memory_order_relaxed);
		fired.fetch_add(1, std::memory_order_relaxed);
		pthread_t t; pthread_attr_t a;
		pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
		if (pthread_create(&t, &a, call, m)) inflight.fetch_sub(1, std::memory_order_relaxed);
		pthread_attr_destroy(&a);
	}
	return nullptr;
}
}
extern "C" {
int __wrap_clock_gettime(clockid_t, struct timespec *t) { uint64_t n = rt::scaled_ns(); t->tv_sec = n / 1000000000ULL; t->tv_nsec = n % 1000000000ULL; return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *) { rt::real_sleep((t->tv_sec * 1000000000ULL + t->tv_nsec) / rt::K); return 0; }
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *) { return __wrap_nanosleep(t, nullptr); }
int __wrap_timer_create(clockid_t, struct sigevent *ev, timer_t *id) {
	int i = rt::ntm.fetch_add(1);
	if (i >= 4096) { errno = EAGAIN; return -1; }
	rt::tms[i].ev = *ev; *id = (timer_t)(intptr_t)i;
	pthread_t t; pthread_attr_t a;
	pthread_attr_init(&a); pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
	return pthread_create(&t, &a, rt::dispatcher, &rt::tms[i]);
}
int __wrap_timer_settime(timer_t id, int, const struct itimerspec *n, struct itimerspec *) { rt::tms[(intptr_t)id].interval.store(n->it_interval.tv_sec * 1000000000ULL + n->it_interval.tv_nsec, std::memory_order_relaxed); return 0; }
int __wrap_timer_delete(timer_t id) { rt::tms[(intptr_t)id].dead.store(true, std::memory_order_relaxed); return 0; }
}
