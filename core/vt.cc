#include "vt.h"
#include <cerrno>
#include <dirent.h>
#include <set>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <signal.h>
#include <sys/select.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <sys/time.h>
#include <valgrind/memcheck.h>

namespace vt {
static ns_t g_now = 1000 * SEC;
static ns_t g_lim_t = ~0ULL;
static uint64_t g_lim_c = ~0ULL, g_calls = 0;
std::function<void(const char *)> on_hang;
std::function<void()> on_poll, on_stdin;
bool async_timers = false;
void (*tracer)(char, uint64_t);
ns_t clock_cost = 300;
Clocks clocks;
// under memcheck: what goes out must have been written by someone
unsigned long g_defined = 0;
void defined(const void *p, size_t n) { if (n && RUNNING_ON_VALGRIND) { g_defined += n; VALGRIND_CHECK_MEM_IS_DEFINED(p, n); } }

struct Tm { struct sigevent ev; ns_t next = 0, interval = 0; bool armed = false; bool used = false; };
static Tm g_tm[64];
static bool g_in_cb = false;

ns_t now() { return g_now; }
static void tick(ns_t cost = 300) {
	g_now += cost;
	if (++g_calls > g_lim_c || g_now > g_lim_t) {
		g_lim_c = ~0ULL; g_lim_t = ~0ULL;
		if (on_hang) on_hang("budget");
		_exit(97);
	}
}
static void fire_until(ns_t t) {
	for (;;) {
		int best = -1;
		for (int i = 0; i < 64; i++)
			if (g_tm[i].used && g_tm[i].armed && g_tm[i].ev.sigev_notify == SIGEV_THREAD && g_tm[i].next <= t &&
			    (best < 0 || g_tm[i].next < g_tm[best].next)) best = i;
		if (best < 0) break;
		Tm &m = g_tm[best];
		if (m.next > g_now) g_now = m.next;
		if (m.interval) { while (m.next <= g_now) m.next += m.interval; } else m.armed = false;
		g_in_cb = true;
		tr('P', best);
		m.ev.sigev_notify_function(m.ev.sigev_value);
		g_in_cb = false;
	}
}
void advance(ns_t d) { advance_to(g_now + d); }
void advance_to(ns_t t) {
	if (async_timers && !g_in_cb) fire_until(t);
	if (t > g_now) g_now = t;
	if (g_now > g_lim_t) tick();
}
void idle(ns_t d) {
	ns_t t = g_now + d;
	if (!g_in_cb) fire_until(t);
	if (t > g_now) g_now = t;
}
void reset_clock(ns_t t) { g_now = t; }
void budget(ns_t virt, uint64_t calls) {
	g_lim_t = virt == ~0ULL ? ~0ULL : g_now + virt;
	g_calls = 0; g_lim_c = calls;
}
int used_timers() { int n = 0; for (auto &m : g_tm) n += m.used; return n; }
int armed_timers() { int n = 0; for (auto &m : g_tm) n += m.used && m.armed; return n; }

// ---------------------------------------------------------------- memory
struct Blk { size_t n; unsigned long serial; };
static std::unordered_map<const void *, Blk> *g_live;
static unsigned long g_serial = 0, g_total = 0;
static long g_bytes = 0;
long fail_alloc_in = -1;
static bool g_memoff = false;
static void note(void *p, size_t n) {
	if (!p || g_memoff) return;
	g_memoff = true;
	if (!g_live) g_live = new std::unordered_map<const void *, Blk>();
	(*g_live)[p] = Blk{n, ++g_serial};
	g_total++; g_bytes += n;
	g_memoff = false;
}
static void unnote(const void *p) {
	if (!p || g_memoff || !g_live) return;
	auto it = g_live->find(p);
	if (it != g_live->end()) { g_bytes -= it->second.n; g_live->erase(it); }
}
static bool failnow() {
	if (fail_alloc_in < 0) return false;
	if (fail_alloc_in == 0) { fail_alloc_in = -1; return true; }
	fail_alloc_in--;
	return false;
}
MemStat mem() { return MemStat{g_live ? (long)g_live->size() : 0, g_bytes, g_total}; }
unsigned long alloc_serial() { return g_serial; }
std::vector<std::pair<const void *, size_t>> live_since(unsigned long s) {
	std::vector<std::pair<const void *, size_t>> r;
	if (g_live) for (auto &k : *g_live) if (k.second.serial > s) r.push_back({k.first, k.second.n});
	return r;
}

std::map<std::string, std::vector<std::string>> vdirs;
int open_dirs = 0;
// ---------------------------------------------------------------- tty
static std::map<std::string, Tty *> &ports() { static std::map<std::string, Tty *> m; return m; }
static std::map<int, Tty *> &fds() { static std::map<int, Tty *> m; return m; }
Tty *byfd(int fd) { auto &m = fds(); auto it = m.find(fd); return it == m.end() ? nullptr : it->second; }

Tty::Tty(const std::string &p) : path(p) { ports()[p] = this; }
Tty::~Tty() {
	ports().erase(path);
	for (auto it = fds().begin(); it != fds().end();) it = it->second == this ? fds().erase(it) : std::next(it);
}
UartCfg Tty::uart() const {
	UartCfg u;
	u.speed = ospeed;
	u.databits = 5 + ((cflag >> 4) & 3);
	u.stopbits = (cflag & 0100) ? 2 : 1;
	u.parity = (cflag & 0400) ? ((cflag & 01000) ? 'O' : 'E') : 'N';
	if (u.speed == 38400 && ss_div && (ss_flags & 0x30) == 0x30) u.speed = 115200 / ss_div;
	return u;
}
ns_t Tty::byte_ns() const {
	UartCfg u = uart();
	int bits = 1 + u.databits + u.stopbits + (u.parity != 'N');
	return u.speed ? bits * SEC / u.speed : 0;
}
void Tty::push(ns_t t, uint8_t b) {
	auto it = rx.end();
	while (it != rx.begin() && std::prev(it)->first > t) --it;
	rx.insert(it, {t, b});
}
void Tty::push(ns_t t, const std::vector<uint8_t> &v, ns_t gap) {
	for (uint8_t b : v) { push(t, b); t += gap ? gap : byte_ns(); }
}
static unsigned baud_code(unsigned s) {
	static const unsigned st[] = {0, 50, 75, 110, 134, 150, 200, 300, 600, 1200, 1800, 2400, 4800, 9600, 19200, 38400};
	for (unsigned i = 0; i < 16; i++) if (st[i] == s) return i;
	if (s == 57600) return 0x1001;
	if (s == 115200) return 0x1002;
	return 0x1000; // BOTHER
}
static unsigned code_baud(unsigned c) {
	static const unsigned st[] = {0, 50, 75, 110, 134, 150, 200, 300, 600, 1200, 1800, 2400, 4800, 9600, 19200, 38400};
	if (c < 16) return st[c];
	if (c == 0x1001) return 57600;
	if (c == 0x1002) return 115200;
	return 0;
}
struct KT { unsigned i, o, c, l; unsigned char line, cc[19]; };
struct KT2 { unsigned i, o, c, l; unsigned char line, cc[19]; unsigned is, os; };
struct SS { int type, line; unsigned port; int irq, flags, xmit, div, baud_base; unsigned short close_delay; char io_type, res[1]; int hub6; unsigned short cw, cw2; unsigned char *mb; unsigned short ims; unsigned ip; unsigned long ib; };

static int tty_ioctl(Tty *t, unsigned long req, void *arg) {
	tick();
	tr('I', req);
	if (t->ioctl_fault) { int e = t->ioctl_fault(req); if (e) { errno = e; return -1; } }
	auto cfg = [&](char k) { t->log.push_back({g_now, k, 0, t->uart()}); };
	switch (req) {
	case 0x5401: { // TCGETS
		KT *k = (KT *)arg; k->i = t->iflag; k->o = t->oflag; k->c = (t->cflag & ~0x100fu) | baud_code(t->ospeed); k->l = t->lflag; k->line = 0;
		memcpy(k->cc, t->cc, 19); return 0; }
	case 0x5402: case 0x5403: case 0x5404: {
		KT *k = (KT *)arg; t->iflag = k->i; t->oflag = k->o; t->cflag = k->c & ~0x100fu; t->lflag = k->l; memcpy(t->cc, k->cc, 19);
		unsigned b = code_baud(k->c & 0x100f);
		if ((k->c & 0x100f) != 0x1000) t->ispeed = t->ospeed = b;
		if (req == 0x5404) t->rx.clear();
		cfg('C'); return 0; }
	case 0x802c542a: { // TCGETS2
		KT2 *k = (KT2 *)arg; k->i = t->iflag; k->o = t->oflag; k->c = (t->cflag & ~0x100fu) | baud_code(t->ospeed); k->l = t->lflag; k->line = 0;
		memcpy(k->cc, t->cc, 19); k->is = t->ispeed; k->os = t->ospeed; return 0; }
	case 0x402c542b: case 0x402c542c: case 0x402c542d: {
		KT2 *k = (KT2 *)arg; t->iflag = k->i; t->oflag = k->o; t->cflag = k->c & ~0x100fu; t->lflag = k->l; memcpy(t->cc, k->cc, 19);
		if ((k->c & 0x100f) == 0x1000) { t->ispeed = k->is; t->ospeed = k->os; }
		else t->ispeed = t->ospeed = code_baud(k->c & 0x100f);
		cfg('C'); return 0; }
	case 0x5415: *(int *)arg = t->mcr; return 0;
	case 0x5418: t->mcr = *(int *)arg; t->log.push_back({g_now, 'M', (unsigned)t->mcr, t->uart()}); t->on_mcr(g_now, t->mcr); return 0;
	case 0x5416: t->mcr |= *(int *)arg; t->log.push_back({g_now, 'M', (unsigned)t->mcr, t->uart()}); t->on_mcr(g_now, t->mcr); return 0;
	case 0x5417: t->mcr &= ~*(int *)arg; t->log.push_back({g_now, 'M', (unsigned)t->mcr, t->uart()}); t->on_mcr(g_now, t->mcr); return 0;
	case 0x5427: t->brk = true; t->log.push_back({g_now, 'B', 0, t->uart()}); t->on_break(g_now, true); return 0;
	case 0x5428: t->brk = false; t->log.push_back({g_now, 'b', 0, t->uart()}); t->on_break(g_now, false); return 0;
	case 0x5409: if (t->tx_free > g_now) advance_to(t->tx_free); return 0; // TCSBRK (drain)
	case 0x540b: // TCFLSH
		if ((long)arg == 0 || (long)arg == 2) { while (!t->rx.empty() && t->rx.front().first <= g_now) t->rx.pop_front(); t->log.push_back({g_now, 'F', 0, t->uart()}); }
		return 0;
	case 0x541b: { int n = 0; for (auto &e : t->rx) n += e.first <= g_now; *(int *)arg = n; return 0; }
	case 0x541e: if (!t->ss_ok) { errno = ENOTTY; return -1; } { SS *s = (SS *)arg; memset(s, 0, sizeof *s); s->flags = t->ss_flags; s->div = t->ss_div; s->baud_base = 115200; } return 0;
	case 0x541f: if (!t->ss_ok) { errno = ENOTTY; return -1; } { SS *s = (SS *)arg; t->ss_flags = s->flags; t->ss_div = s->div; t->log.push_back({g_now, 'S', 0, t->uart()}); } return 0;
	}
	errno = ENOTTY;
	return -1;
}
} // namespace vt
using namespace vt;

extern "C" {
int __real_open(const char *, int, ...);
int __real_close(int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_ioctl(int, unsigned long, ...);
int __real_fcntl(int, int, ...);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
int __real_isatty(int);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
char *__real_strdup(const char *);

int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
	tick(clock_cost);
	if (async_timers && !g_in_cb) fire_until(g_now);
	if (clocks.gettime_err) if (int e = clocks.gettime_err(id)) { errno = e; return -1; }
	ns_t t = g_now + (clocks.offset ? clocks.offset(id) : 0);
	t -= t % clocks.grain;
	ts->tv_sec = t / SEC; ts->tv_nsec = t % SEC;
	return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *) { tick(clock_cost); tv->tv_sec = g_now / SEC; tv->tv_usec = g_now % SEC / 1000; return 0; }
time_t __wrap_time(time_t *p) { time_t t = 1700000000 + g_now / SEC; if (p) *p = t; return t; }
int __wrap_clock_nanosleep(clockid_t id, int fl, const struct timespec *r, struct timespec *rem) {
	tick();
	if (id == CLOCK_MONOTONIC_RAW) return ENOTSUP;
	if (clocks.sleep_err) if (int e = clocks.sleep_err(id)) return e;
	if (r->tv_sec < 0 || r->tv_nsec < 0 || r->tv_nsec >= (long)SEC) return EINVAL;
	ns_t d = r->tv_sec * SEC + r->tv_nsec;
	tr('Z', d);
	if (fl & TIMER_ABSTIME) { ns_t o = clocks.offset ? clocks.offset(id) : 0; if (d > g_now + o) advance_to(d - o); return 0; }
	ns_t c = clocks.cut ? clocks.cut(d) : ~0ULL;
	if (c < d) {
		clocks.ncuts++;
		advance(c);
		if (rem) { rem->tv_sec = (d - c) / SEC; rem->tv_nsec = (d - c) % SEC; }
		return EINTR;
	}
	advance(d + (clocks.late && d ? clocks.late(d) : 0));
	return 0;
}
int __wrap_nanosleep(const struct timespec *r, struct timespec *rem) { int e = __wrap_clock_nanosleep(CLOCK_MONOTONIC, 0, r, rem); if (!e) return 0; errno = e; return -1; }
int __wrap_usleep(useconds_t u) { tick(); advance(u * US); return 0; }
unsigned __wrap_sleep(unsigned s) { tick(); advance(s * SEC); return 0; }
int __wrap_timer_create(clockid_t, struct sigevent *ev, timer_t *id) {
	if (clocks.create_err) { errno = clocks.create_err; return -1; }
	for (long i = 0; i < 64; i++) if (!g_tm[i].used) {
		g_tm[i] = Tm(); g_tm[i].used = true; g_tm[i].ev = *ev; *id = (timer_t)(i + 1); return 0; }
	errno = EAGAIN; return -1;
}
int __wrap_timer_settime(timer_t id, int fl, const struct itimerspec *n, struct itimerspec *o) {
	long i = (long)id - 1; if (i < 0 || i >= 64 || !g_tm[i].used) { errno = EINVAL; return -1; }
	if (clocks.settime_err) { errno = clocks.settime_err; return -1; }
	if (o) memset(o, 0, sizeof *o);
	ns_t v = n->it_value.tv_sec * SEC + n->it_value.tv_nsec;
	tr('A', v);
	g_tm[i].interval = n->it_interval.tv_sec * SEC + n->it_interval.tv_nsec;
	g_tm[i].armed = v != 0;
	g_tm[i].next = (fl & TIMER_ABSTIME) ? v : g_now + v;
	return 0;
}
int __wrap_timer_delete(timer_t id) {
	long i = (long)id - 1; if (i < 0 || i >= 64 || !g_tm[i].used) { errno = EINVAL; return -1; }
	g_tm[i].used = false; return 0;
}
int __wrap_open(const char *p, int fl, ...) {
	va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap);
	auto it = ports().find(p);
	if (it == ports().end()) return __real_open(p, fl, mode);
	tick();
	if (!it->second->present) { errno = ENOENT; return -1; }
	int fd = __real_open("/dev/null", O_RDWR);
	if (fd < 0) return fd;
	fds()[fd] = it->second; it->second->nopen++;
	tr('O', 0);
	it->second->log.push_back({g_now, 'O', 0, it->second->uart()});
	return fd;
}
int __wrap_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = va_arg(ap, int); va_end(ap); return __wrap_open(p, fl, mode); }
int __wrap_close(int fd) {
	Tty *t = byfd(fd);
	if (t) { tr('X', 0); t->nopen--; t->log.push_back({g_now, 'X', 0, t->uart()}); fds().erase(fd); }
	return __real_close(fd);
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
	Tty *t = byfd(fd);
	if (!t) return __real_read(fd, b, n);
	tick(); t->nread++;
	tr('R', n);
	if (t->rd_fault) { int e = t->rd_fault(); if (e) { errno = e; return -1; } }
	t->on_wait(~0ULL);
	if (t->rx.empty()) { if (on_hang) on_hang("blocking read on silent port"); _exit(97); }
	if (t->rx.front().first > g_now) advance_to(t->rx.front().first);
	size_t k = 0; uint8_t *p = (uint8_t *)b;
	while (k < n && !t->rx.empty() && t->rx.front().first <= g_now) { p[k++] = t->rx.front().second; t->rx.pop_front(); }
	return k;
}
ssize_t __wrap_write(int fd, const void *b, size_t n) {
	Tty *t = byfd(fd);
	if (!t) return __real_write(fd, b, n);
	tick(); t->nwrite++;
	size_t k = n;
	defined(b, n);
	if (t->wr_limit) { int e = t->wr_limit(n); if (e < 0) { errno = -e; return -1; } if ((size_t)e < k) k = e; }
	const uint8_t *p = (const uint8_t *)b;
	for (size_t i = 0; i < k; i++) {
		ns_t st = t->tx_free > g_now ? t->tx_free : g_now;
		ns_t dn = st + t->byte_ns();
		t->tx_free = dn;
		t->log.push_back({st, 'T', p[i], t->uart()});
		t->txall.push_back(p[i]);
		tr('W', p[i]);
		if (t->echo) t->push(dn, p[i]);
		t->on_tx(dn, p[i]);
	}
	return k;
}
int __wrap_ioctl(int fd, unsigned long req, ...) {
	va_list ap; va_start(ap, req); void *a = va_arg(ap, void *); va_end(ap);
	Tty *t = byfd(fd);
	if (!t) return __real_ioctl(fd, req, a);
	return tty_ioctl(t, req, a);
}
int __wrap_fcntl(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); void *a = va_arg(ap, void *); va_end(ap);
	return __real_fcntl(fd, cmd, a);
}
int __wrap_isatty(int fd) { Tty *t = byfd(fd); return t ? t->istty : __real_isatty(fd); }
int __wrap_tcdrain(int fd) { Tty *t = byfd(fd); if (!t) { errno = ENOTTY; return -1; } return tty_ioctl(t, 0x5409, (void *)1); }
int __wrap_tcflush(int fd, int q) { Tty *t = byfd(fd); if (!t) { errno = ENOTTY; return -1; } return tty_ioctl(t, 0x540b, (void *)(long)q); }
int __real_getc(FILE *);
int __wrap_getc(FILE *);
char *__real_fgets(char *, int, FILE *);
int __wrap_getc(FILE *f) { if (f == stdin) { tick(); if (on_stdin) on_stdin(); } return __real_getc(f); }
int __wrap_fgetc(FILE *f) { return __wrap_getc(f); }
int __wrap_getchar() { return __wrap_getc(stdin); }
char *__wrap_fgets(char *b, int n, FILE *f) { if (f == stdin) { tick(); if (on_stdin) on_stdin(); } return __real_fgets(b, n, f); }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
	Tty *t = nullptr; int tfd = -1;
	if (r) for (auto &k : fds()) if (k.first < n && FD_ISSET(k.first, r)) { t = k.second; tfd = k.first; }
	if (!t) {
		if (r || w || e) { // real fds: never block in virtual time
			struct timeval z = {0, 0};
			tick();
			if (on_poll && r && n > 0 && FD_ISSET(0, r)) on_poll();
			int rv = __real_select(n, r, w, e, &z);
			if (rv == 0 && tv) { tick(); advance(tv->tv_sec * SEC + tv->tv_usec * US); }
			return rv;
		}
		tick(); if (tv) advance(tv->tv_sec * SEC + tv->tv_usec * US); return 0;
	}
	tick(); t->nselect++;
	tr('S', tv ? tv->tv_sec * 1000000ULL + tv->tv_usec : ~0ULL);
	if (t->sel_fault) { int f = t->sel_fault(); if (f) { errno = f; return -1; } }
	ns_t dl = tv ? g_now + tv->tv_sec * SEC + tv->tv_usec * US : ~0ULL;
	t->on_wait(dl);
	bool rdy = !t->rx.empty() && t->rx.front().first <= dl;
	if (w) FD_ZERO(w);
	if (e) FD_ZERO(e);
	FD_ZERO(r);
	if (rdy) { if (t->rx.front().first > g_now) advance_to(t->rx.front().first); FD_SET(tfd, r); return 1; }
	if (dl == ~0ULL) { if (on_hang) on_hang("select forever"); _exit(97); }
	advance_to(dl);
	return 0;
}
void *__wrap_malloc(size_t n) { if (failnow()) return nullptr; void *p = __real_malloc(n); note(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (failnow()) return nullptr; void *p = __real_calloc(a, b); note(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { if (failnow()) return nullptr; unnote(q); void *p = __real_realloc(q, n); if (p) note(p, n); else if (q && n) note(q, 0); return p; }
void __wrap_free(void *p) { unnote(p); __real_free(p); }
char *__wrap_strdup(const char *s) { if (failnow()) return nullptr; char *p = __real_strdup(s); note(p, strlen(s) + 1); return p; }
DIR *__real_opendir(const char *);
struct dirent *__real_readdir(DIR *);
int __real_closedir(DIR *);
struct VDir { std::vector<std::string> e; size_t i; struct dirent d; };
static std::set<void *> g_vd;
DIR *__wrap_opendir(const char *p) {
	std::string s = p; while (s.size() > 1 && s.back() == '/') s.pop_back();
	if (vdirs.empty()) return __real_opendir(p);
	auto it = vdirs.find(s);
	if (it == vdirs.end()) { errno = ENOENT; return nullptr; }
	VDir *v = new VDir{it->second, 0, {}}; g_vd.insert(v); open_dirs++;
	return (DIR *)v;
}
struct dirent *__wrap_readdir(DIR *d) {
	if (!g_vd.count(d)) return __real_readdir(d);
	VDir *v = (VDir *)d;
	if (v->i >= v->e.size()) return nullptr;
	memset(&v->d, 0, sizeof v->d);
	snprintf(v->d.d_name, sizeof v->d.d_name, "%s", v->e[v->i++].c_str());
	return &v->d;
}
struct dirent64 *__wrap_readdir64(DIR *d) { return (struct dirent64 *)__wrap_readdir(d); }
int __wrap_closedir(DIR *d) {
	if (!g_vd.count(d)) return __real_closedir(d);
	g_vd.erase(d); delete (VDir *)d; open_dirs--; return 0;
}
}
