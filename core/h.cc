#ifdef VT_COV
extern "C" void __gcov_dump();
#endif
#include "h.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>

std::string hex(const uint8_t *p, size_t n) {
	std::string s; char t[4];
	for (size_t i = 0; i < n; i++) { snprintf(t, sizeof t, i ? " %02X" : "%02X", p[i]); s += t; if (i > 600) { s += "..."; break; } }
	return s;
}
std::string fmt(const char *f, ...) {
	va_list ap; va_start(ap, f); char *b = nullptr;
	int n = vasprintf(&b, f, ap); va_end(ap);
	std::string s(b, n); ::free(b);
	return s;
}
static std::string jesc(const std::string &s) {
	std::string o;
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); o += t; }
		else o += c;
	}
	return o;
}
namespace rep {
bool verbose = false;
long seen_viol = 0;
long cur_case = -1;
static FILE *out = nullptr;
static std::map<std::string, long> counters;
static std::unordered_set<uint64_t> sigs;
static std::vector<std::string> samples;
static std::map<std::string, int> nviol;
static int outfd = 1;
static uint64_t fnv(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h; }
static bool muted = false;
void violation(const std::string &key, const std::string &detail) {
	if (muted) return;
	seen_viol++;
	if (verbose) dprintf(outfd, "VIOL case %ld %s: %s\n", cur_case, key.c_str(), detail.c_str());
	if (++nviol[key] > 5) return;
	std::string d = detail.size() > 3000 ? detail.substr(0, 3000) : detail;
	fprintf(out, "{\"t\":\"viol\",\"case\":%ld,\"key\":\"%s\",\"detail\":\"%s\"}\n", cur_case, jesc(key).c_str(), jesc(d).c_str());
	fflush(out);
}
static void trace(const std::string &s);
void cover(const std::string &w, long n) { if (muted) { trace(w + fmt("+%ld", n)); return; } counters[w] += n; }
void distinct(const std::string &s) { if (muted) trace(s); sigs.insert(fnv(s)); }
void sample(const std::string &s) { if (samples.size() < 3) samples.push_back(s); }
void note(const char *f, ...) { if (!verbose) return; va_list ap; va_start(ap, f); vdprintf(outfd, f, ap); va_end(ap); dprintf(outfd, "\n"); }
static void finish(long done) {
	if (vt::g_defined) counters["bytes-seen-to-be-set"] += (long)vt::g_defined;
	for (auto &k : nviol) counters["violations:" + k.first] += k.second;
	fprintf(out, "{\"t\":\"done\",\"cases\":%ld,\"counters\":{", done);
	bool f = true;
	for (auto &k : counters) { fprintf(out, "%s\"%s\":%ld", f ? "" : ",", jesc(k.first).c_str(), k.second); f = false; }
	fprintf(out, "},\"samples\":[");
	f = true;
	for (auto &s : samples) { fprintf(out, "%s\"%s\"", f ? "" : ",", jesc(s.substr(0, 600)).c_str()); f = false; }
	fprintf(out, "],\"sigs\":[");
	f = true;
	for (auto h : sigs) { fprintf(out, "%s%llu", f ? "" : ",", (unsigned long long)h); f = false; }
	fprintf(out, "]}\n");
	fflush(out);
}
}

// "--dbg": run every case twice from the same state, without and with debugging
// messages, and compare everything that can be seen of the two runs
extern "C" { extern int diag_l0_debug __attribute__((weak)), diag_l1_debug __attribute__((weak)), diag_l2_debug __attribute__((weak)), diag_l3_debug __attribute__((weak)), diag_cli_debug __attribute__((weak)); }
bool dbg_mode = false;
namespace dbgm {
struct Ev { char k; uint64_t v, t; };
static std::vector<Ev> ev;
static std::map<uint64_t, std::string> texts;
static long errbytes = 0;
static void add(char k, uint64_t v) { if (ev.size() < 200000) ev.push_back({k, v, vt::now()}); }
static uint64_t text(const std::string &s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; if (texts.size() < 300) texts[h] = s.substr(0, 400); return h; }
static void level(int a, int b, int c, int d, int e) {
	if (&diag_l0_debug) diag_l0_debug = a;
	if (&diag_l1_debug) diag_l1_debug = b;
	if (&diag_l2_debug) diag_l2_debug = c;
	if (&diag_l3_debug) diag_l3_debug = d;
	if (&diag_cli_debug) diag_cli_debug = e;
}
static std::string show(const Ev &e) { auto i = texts.find(e.v); return fmt("%c %llx @%.6f s%s", e.k, (unsigned long long)e.v, e.t / 1e9, i == texts.end() ? "" : (": " + i->second).c_str()); }
}

static void rep::trace(const std::string &s) { dbgm::add('+', dbgm::text(s)); }
static int capfd = -1, errfd = -1;
static std::string errname;
static std::string capture2(const std::function<void()> &f);
std::string capture(const std::function<void()> &f) {
	std::string e;
	return dbg_mode ? capture(f, e) : capture2(f);
}
static std::string capture2(const std::function<void()> &f) {
	fflush(stdout); fflush(stderr);
	if (capfd < 0) capfd = errname.empty() ? memfd_create("cap", 0) : open((errname + ".cap").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (ftruncate(capfd, 0)) {}
	lseek(capfd, 0, SEEK_SET);
	int so = dup(1), se = dup(2);
	dup2(capfd, 1); dup2(capfd, 2);
	f();
	fflush(stdout); fflush(stderr);
	dup2(so, 1); dup2(se, 2); close(so); close(se);
	off_t n = lseek(capfd, 0, SEEK_END);
	std::string s(n, 0);
	if (n && pread(capfd, &s[0], n, 0) != n) s.clear();
	return s;
}

std::string capture(const std::function<void()> &f, std::string &err) {
	static int outfd2 = -1;
	if (outfd2 < 0) outfd2 = memfd_create("out", 0);
	if (ftruncate(outfd2, 0)) {}
	lseek(outfd2, 0, SEEK_SET);
	std::string o;
	err = capture2([&]() {
		int so = dup(1); dup2(outfd2, 1);
		f();
		fflush(stdout); dup2(so, 1); close(so);
		off_t n = lseek(outfd2, 0, SEEK_END);
		o.assign(n, 0);
		if (n && pread(outfd2, &o[0], n, 0) != n) o.clear();
	});
	if (dbg_mode) { dbgm::errbytes += err.size(); err.clear(); dbgm::add('=', dbgm::text(o)); }
	return o;
}

static void cpu_alarm(int) {
	static const char m[] = "HANG-CPU\n";
	rep::violation("hang:cpu", "case used more CPU time than any terminating run needs");
	if (write(2, m, sizeof m - 1)) {}
	_exit(98);
}
static void arm(int s) { struct itimerval it = {{0, 0}, {s, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr); }

static int open_files() { int n = 0; for (int fd = 3; fd < 128; fd++) if (fcntl(fd, F_GETFD) != -1) n++; return n; }
int main(int argc, char **argv) {
	const char *mode = nullptr, *outp = nullptr, *prog = nullptr;
	uint64_t seed = 1; long from = 0, to = 1, step = 1; int cpu = 20;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char *)""; };
		if (a == "--seed") seed = strtoull(nx(), 0, 10);
		else if (a == "--from") from = atol(nx());
		else if (a == "--to") to = atol(nx());
		else if (a == "--step") step = atol(nx());
		else if (a == "--out") outp = nx();
		else if (a == "--progress") prog = nx();
		else if (a == "--cpu") cpu = atoi(nx());
		else if (a == "--err") errname = nx();
		else if (a == "--dbg") dbg_mode = true;
		else if (a == "-v") rep::verbose = true;
		else mode = argv[i];
	}
	const Mode *m = nullptr;
	auto ms = modes();
	for (auto &x : ms) if (mode && !strcmp(x.name, mode)) m = &x;
	if (!m) { fprintf(stderr, "unknown mode\n"); for (auto &x : ms) fprintf(stderr, "%s\n", x.name); return 2; }
	rep::out = outp ? fopen(outp, "a") : fdopen(dup(1), "w");
	if (!rep::out) return 2;
	rep::outfd = dup(1);
	volatile long *pp = nullptr;
	if (prog) {
		int fd = open(prog, O_RDWR | O_CREAT, 0600);
		if (fd < 0 || ftruncate(fd, 4096)) return 2;
		pp = (volatile long *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (pp == MAP_FAILED) return 2;
		pp[0] = -1;
	}
	if (!rep::verbose) {
		int n = open("/dev/null", O_WRONLY);
		dup2(n, 1);
		// kept per case: a sanitizer report that bypasses log_path ends up here
		if (!errname.empty()) { errfd = open(errname.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(errfd, 2); }
		else if (!getenv("KEEP_STDERR")) dup2(n, 2);
		close(n);
	}
	signal(SIGVTALRM, cpu_alarm);
	signal(SIGPIPE, SIG_IGN);
	vt::on_hang = [](const char *w) { rep::violation(std::string("hang:") + w, "operation did not finish within its virtual-time / step budget"); };
	if (m->setup) m->setup();
	long done = 0;
	for (long i = from; i < to; i += step) {
		rep::cur_case = i;
		if (pp) pp[0] = i;
		if (errfd >= 0 && lseek(errfd, 0, SEEK_END) > 0 && ftruncate(errfd, 0)) {}
		uint64_t h = 1469598103934665603ULL;
		for (const char *c = m->name; *c; c++) h = (h ^ (uint8_t)*c) * 1099511628211ULL;
		Rng r(seed * 0x9E3779B97F4A7C15ULL ^ h ^ ((uint64_t)i * 0xD1342543DE82EF95ULL));
		r.next();
		if (cpu) arm(cpu);
		std::vector<dbgm::Ev> ref;
		std::map<uint64_t, std::string> rtext;
		bool have = false;
		if (dbg_mode) {
			rep::muted = true;
			vt::tracer = dbgm::add; vt::clock_cost = 0;
			Rng q = r; dbgm::ev.clear(); dbgm::texts.clear(); dbgm::errbytes = 0;
			int fd = memfd_create("ref", 0);
			fflush(nullptr);
			pid_t pid = fork();
			if (!pid) {
				int n = open("/dev/null", O_WRONLY); dup2(n, 2);
				dbgm::level(0, 0, 0, 0, 0);
				m->fn(q, i);
				uint64_t k = dbgm::ev.size();
				std::string b((const char *)&k, sizeof k);
				b.append((const char *)dbgm::ev.data(), k * sizeof dbgm::ev[0]);
				for (auto &x : dbgm::texts) { uint64_t l = x.second.size(); b.append((const char *)&x.first, 8); b.append((const char *)&l, 8); b += x.second; }
				for (size_t o = 0; o < b.size();) { ssize_t w = write(fd, b.data() + o, b.size() - o); if (w <= 0) _exit(1); o += w; }
				_exit(0);
			}
			int st = -1;
			if (pid > 0) waitpid(pid, &st, 0);
			if (st == 0) {
				off_t n = lseek(fd, 0, SEEK_END);
				std::string b(n, 0);
				if (pread(fd, &b[0], n, 0) == n && n >= 8) {
					uint64_t k; memcpy(&k, &b[0], 8);
					ref.resize(k);
					if (k) memcpy((void *)ref.data(), &b[8], k * sizeof ref[0]);
					for (size_t o = 8 + k * sizeof ref[0]; o + 16 <= b.size();) { uint64_t h, l; memcpy(&h, &b[o], 8); memcpy(&l, &b[o + 8], 8); rtext[h] = b.substr(o + 16, l); o += 16 + l; }
					have = true;
				}
			}
			close(fd);
			Rng d = r; d.next();
			auto lv = [&]() { return d.chance(60) ? -1 : (int)d.below(0x200); };
			if (d.chance(50)) dbgm::level(-1, -1, -1, -1, -1);
			else dbgm::level(lv(), lv(), lv(), lv(), lv());
		}
		unsigned long ser = vt::alloc_serial();
		long live = vt::mem().live, nv = rep::seen_viol;
		int files = open_files();
		m->fn(r, i);
		vt::fail_alloc_in = -1;
		if (!m->keeps && i != from && rep::seen_viol == nv && vt::mem().live > live) {
			std::string w;
			for (auto &b : vt::live_since(ser)) if (w.size() < 500) w += fmt(" %zu bytes [%s]", b.second, hex((const uint8_t *)b.first, b.second < 24 ? b.second : 24).c_str());
			rep::violation("memory-left-behind", fmt("%ld memory blocks allocated during this case are still there after it:%s", vt::mem().live - live, w.c_str()));
		}
		if (!m->keeps && i != from && rep::seen_viol == nv && open_files() > files) rep::violation("files-left-open", fmt("%d files opened during this case are still open after it", open_files() - files));
		if (dbg_mode) {
			rep::muted = false; vt::tracer = nullptr;
			dbgm::level(0, 0, 0, 0, 0);
			if (errfd >= 0) dbgm::errbytes += lseek(errfd, 0, SEEK_END);
			if (dbgm::errbytes) { rep::cover("runs-with-debug-text"); rep::cover("debug-text-kbytes", dbgm::errbytes / 1024); }
			if (have) {
				rep::cover("compared-runs"); rep::cover("compared-events", dbgm::ev.size());
				size_t k = 0;
				while (k < ref.size() && k < dbgm::ev.size() && ref[k].k == dbgm::ev[k].k && ref[k].v == dbgm::ev[k].v && ref[k].t == dbgm::ev[k].t) k++;
				uint64_t h = 0;
				for (auto &e : dbgm::ev) h = h * 1099511628211ULL + e.k * 31 + e.v;
				rep::distinct(fmt("%llx", (unsigned long long)h));
				if (k < ref.size() || k < dbgm::ev.size()) {
					std::string a = k < dbgm::ev.size() ? dbgm::show(dbgm::ev[k]) : "(nothing)";
					dbgm::texts.swap(rtext);
					std::string b = k < ref.size() ? dbgm::show(ref[k]) : "(nothing)";
					rep::violation("debugging-changes-behaviour", fmt("step %zu of %zu/%zu; with debugging: %s; without: %s", k, dbgm::ev.size(), ref.size(), a.c_str(), b.c_str()));
				}
			}
		}
		done++;
	}
	// whatever is kept must not pile up
	if (vt::mem().live > 150) rep::violation("memory-piles-up", fmt("%ld memory blocks in use after %ld cases", vt::mem().live, done));
	if (vt::mem().live) rep::cover("memory-blocks-at-end", vt::mem().live);
	arm(0);
	rep::finish(done);
	if (pp) pp[0] = -2;
#ifdef VT_COV
	__gcov_dump();
#endif
	_exit(0);
}
