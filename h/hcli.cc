// Command interpreter: generated command trees and command files, run through
// the real interpreter and through an independent reading of the same text.
#include "rlstub.h"
#include <regex>
using namespace vt;
// ------------------------------------------------------------------ lang
enum Kind { LEAF, SUB, CUSTOM, UP, EXIT_, SRC, HELP };
struct Tab;
struct Ent { std::string name, usage, help; Kind k; int id; bool hidden; Tab *sub; };
struct Tab { int id; std::vector<Ent> e; struct cmd_tbl_entry *real; };
static std::vector<Tab *> g_tabs;
static enum cli_retval verdict(int argc, char **argv) {
	const char *l = argc > 1 ? argv[argc - 1] : "";
	if (l[0] == '=') switch (l[1]) { case 'U': return CMD_USAGE; case 'F': return CMD_FAILED; case 'P': return CMD_UP; case 'X': return CMD_EXIT; }
	return CMD_OK;
}
static long g_unterminated;
static void showcall(const std::string &who, int argc, char **argv) {
	printf("<<%s", who.c_str());
	for (int i = 0; i < argc; i++) printf("|%s", argv[i]);
	printf(">>\n");
	if (argv[argc] && *argv[argc]) g_unterminated++;
}
template <int N> enum cli_retval leaf(int argc, char **argv) { showcall(fmt("L%d", N), argc, argv); return verdict(argc, argv); }
template <int N> enum cli_retval custom(int argc, char **argv) { showcall(fmt("C%d", N), argc, argv); return verdict(argc, argv); }
template <int N> enum cli_retval help(int argc, char **argv) { return cli_help_basic(argc, argv, g_tabs[N]->real); }
typedef enum cli_retval (*fn)(int, char **);
static fn leaves[] = {leaf<0>, leaf<1>, leaf<2>, leaf<3>, leaf<4>, leaf<5>, leaf<6>, leaf<7>, leaf<8>, leaf<9>, leaf<10>, leaf<11>, leaf<12>, leaf<13>, leaf<14>, leaf<15>};
static fn customs[] = {custom<0>, custom<1>, custom<2>, custom<3>, custom<4>, custom<5>, custom<6>, custom<7>};
static fn helps[] = {help<0>, help<1>, help<2>, help<3>, help<4>, help<5>, help<6>, help<7>};
static void cb_log(int argc, char **argv) { printf("LOG:"); for (int i = 0; i < argc; i++) printf("|%s", argv[i]); printf("\n"); }
static void cb_exit(void) { printf("ATEXIT\n"); }

static std::vector<std::string> ev;    // expected events
static std::map<std::string, std::vector<std::string>> files;   // contents
static Tab *g_root;
struct Src { const std::vector<std::string> *l; size_t i; bool in; };
static std::string low(std::string s) { for (auto &c : s) c = tolower((unsigned char)c); return s; }
static long g_exec, g_steps;
static int model(Tab *t, const std::string &prompt, Src &src, const std::vector<std::string> *one, bool root);
static int modelfile(const std::string &f) {
	auto it = files.find(f);
	if (it == files.end()) return CMD_FAILED;
	ev.push_back("running " + f);
	Src s{&it->second, 0, false};
	return model(g_root, "", s, nullptr, true) == CMD_EXIT ? CMD_EXIT : CMD_OK;
}
static std::string joinw(const std::vector<std::string> &w) { std::string s; for (auto &x : w) s += "|" + x; return s; }
static int verdictm(const std::vector<std::string> &w) { if (w.size() > 1 && w.back()[0] == '=' && w.back().size() > 1) switch (w.back()[1]) { case 'U': return CMD_USAGE; case 'F': return CMD_FAILED; case 'P': return CMD_UP; case 'X': return CMD_EXIT; } return CMD_OK; }
static int model(Tab *t, const std::string &prompt, Src &src, const std::vector<std::string> *one, bool root) {
	int rv = CMD_FAILED; bool done = false;
	while (!done) {
		if (++g_steps > 5000) return CMD_EXIT;
		std::vector<std::string> w;
		if (!one) {
			if (src.in) ev.push_back(prompt + "> ");
			if (src.i >= src.l->size()) break;
			std::string l = (*src.l)[src.i++];
			if (!l.empty() && l[0] == '@') { ev.push_back(l); continue; }
			if (!l.empty() && l[0] == '#') continue;
			std::string cur;
			for (char c : l + " ") { if (c == ' ' || c == '\t') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += c; }
			if (w.size() > 299) w.resize(299);
		} else w = *one;
		if (w.empty()) { if (one) return CMD_FAILED; continue; }
		Ent *e = nullptr;
		for (auto &x : t->e) if (x.k != CUSTOM && low(x.name) == low(w[0])) { e = &x; break; }
		if (!e) for (auto &x : t->e) if (x.k == CUSTOM) e = &x;
		if (!e) { ev.push_back("Unrecog"); if (!src.in || one) break; continue; }
		g_exec++;
		if (e->k == SUB) {
			ev.push_back("LOG:|" + w[0]);
			std::vector<std::string> rest(w.begin() + 1, w.end());
			rv = model(e->sub, prompt + "/" + e->name, src, rest.empty() ? nullptr : &rest, false);
			if (rv == CMD_EXIT) done = true;
		} else {
			ev.push_back("LOG:" + joinw(w));
			switch (e->k) {
			case LEAF: ev.push_back(fmt("<<L%d", e->id) + joinw(w) + ">>"); rv = verdictm(w); break;
			case CUSTOM: ev.push_back(fmt("<<C%d", e->id) + joinw(w) + ">>"); rv = verdictm(w); break;
			case UP: rv = CMD_UP; break;
			case EXIT_: rv = CMD_EXIT; break;
			case SRC: if (w.size() < 2) rv = CMD_USAGE; else { rv = modelfile(w[1]); if (rv == CMD_FAILED) ev.push_back("Couldn't read"); } break;
			case HELP:
				if (w.size() > 1) { Ent *h = nullptr; for (auto &x : t->e) if (low(x.name) == low(w[1])) { h = &x; break; } if (h) { ev.push_back("Usage: " + h->usage); } else ev.push_back("no such command"); }
				else for (auto &x : t->e) { if (!x.hidden) ev.push_back("\t" + x.usage); if (x.k == CUSTOM) ev.push_back(fmt("<<C%d|?>>", x.id)); }
				rv = CMD_OK; break;
			default: break;
			}
			if (rv == CMD_USAGE) ev.push_back("Usage: " + e->usage);
			if (rv == CMD_EXIT || (rv == CMD_UP && !root)) done = true;
		}
		if (one) break;
	}
	return rv == CMD_UP ? CMD_OK : rv;
}
static Tab *mktab(Rng &r, int depth, int &ids) {
	Tab *t = new Tab; t->id = g_tabs.size(); g_tabs.push_back(t); t->real = nullptr;
	int n = r.range(2, 6); std::set<std::string> used;
	static const char *nm[] = {"go", "stop", "Read", "write", "SCAN", "x1", "ab", "abc", "850", "set", "cfg", "test", "#", "!", "long-command-name", "go2"};
	auto add = [&](const std::string &name, Kind k) {
		if (!used.insert(low(name)).second && k != CUSTOM) return;
		Ent e; e.name = name; e.k = k; e.id = k == LEAF ? ids++ % 16 : t->id; e.usage = fmt("u%d_%zu", t->id, t->e.size()); e.help = "h"; e.hidden = r.chance(20); e.sub = nullptr;
		if (k == SUB) e.sub = mktab(r, depth + 1, ids);
		t->e.push_back(e);
	};
	for (int i = 0; i < n; i++) {
		std::string name = nm[r.below(16)];
		if (depth < 3 && g_tabs.size() < 7 && r.chance(35)) add(name, SUB); else add(name, LEAF);
		if (r.chance(4)) add("", CUSTOM), used.insert("");
	}
	if (depth && r.chance(40)) { bool c = false; for (auto &e : t->e) c |= e.k == CUSTOM; if (!c) add("", CUSTOM); }
	else { int c = 0; for (size_t i = 0; i < t->e.size(); i++) if (t->e[i].k == CUSTOM && c++) t->e.erase(t->e.begin() + i--); }
	if (r.chance(90)) add("up", UP);
	if (r.chance(80)) add("exit", EXIT_);
	if (r.chance(70)) add("source", SRC);
	if (r.chance(70)) add("help", HELP);
	return t;
}
static std::string lineof(Rng &r, Tab *&at, std::vector<Tab *> &path, int srcmin) {
	auto sp = [&]() { std::string s; do s += r.chance(75) ? ' ' : '\t'; while (r.chance(15)); return s; };
	auto word = [&]() -> std::string {
		if (r.chance(6)) return std::string("=") + r.pick({"U", "U", "F", "P"}) ;
		if (r.chance(5)) return r.pick({"#", "#no", "@at", "\"q", "a=b", ";", "0x12", "-1", "?", "\\", "'"});
		std::string s; for (int i = r.range(1, 8); i--;) s += (char)r.pick({'a', 'b', 'Z', '0', '9', '_', '.', '/', '\xe9'}); return s;
	};
	int k = r.below(100);
	if (k < 6) { std::string s = "@"; for (int i = r.below(r.chance(90) ? 30 : 3000); i--;) s += (char)('a' + r.below(26)); return s; }
	if (k < 14) { std::string s = "#"; int n = r.chance(85) ? r.below(40) : r.range(1300, 4500); while ((int)s.size() < n) s += r.chance(15) ? std::string(" ") : r.chance(30) ? " " + r.pick(at->e).name + " " : word(); return s; }
	if (k < 18) return r.chance(50) ? "" : std::string(r.range(1, 5), r.chance(50) ? ' ' : '\t');
	std::string s; if (r.chance(10)) s += sp();
	Tab *t = at; bool over = false;
	for (int d = 0;; d++) {
		if (r.chance(4)) { s += r.pick({"nosuch", "gogo", "u", "?", "setx", "--"}); break; }
		const Ent &e = r.pick(t->e);
		if ((e.k == EXIT_) && !r.chance(8)) { if (d > 6) { s += "nosuch2"; break; } continue; }
		std::string n = e.name; if (n.empty()) n = word();
		if (r.chance(25)) for (auto &c : n) c = r.chance(50) ? toupper(c) : tolower(c);
		s += n;
		if (e.k == SUB) { if (r.chance(70)) { s += sp(); t = e.sub; continue; } if (t == at) { path.push_back(at); at = e.sub; } break; }
		if (e.k == UP && t == at && !path.empty()) { at = path.back(); path.pop_back(); }
		if (e.k == SRC) { if (!r.chance(5)) s += sp() + (r.chance(12) ? std::string("nofile") : fmt("f%d", (int)r.range(srcmin, srcmin + 2))); break; }
		if (e.k == HELP) { if (r.chance(60)) { std::string w = r.chance(20) ? "nosuch" : r.pick(t->e).name; if (!w.empty()) s += sp() + w; } break; }
		int na = r.chance(93) ? r.below(6) : r.chance(60) ? r.range(7, 60) : r.range(250, 400); over = na > 60;
		for (int i = 0; i < na; i++) s += sp() + (over && i < na - 1 ? std::string("k") : word());
		break;
	}
	if (r.chance(8)) s += sp();
	return s;
}
static std::vector<std::string> script(Rng &r, int srcmin) {
	std::vector<std::string> v; Tab *at = g_root; std::vector<Tab *> path;
	int n = r.chance(10) ? 0 : r.range(1, 18);
	for (int i = 0; i < n; i++) v.push_back(lineof(r, at, path, srcmin));
	if (r.chance(15)) v.push_back(std::string("go =") + r.pick({"X", "P"}));
	return v;
}
static void put(const std::string &f, const std::vector<std::string> &l, Rng &r, std::string *out = nullptr) {
	std::string s; bool crlf = r.chance(15), nonl = r.chance(20);
	for (size_t i = 0; i < l.size(); i++) { s += l[i]; if (i + 1 < l.size() || !nonl || l[i].empty()) s += crlf ? "\r\n" : "\n"; }
	if (out) { *out = s; return; }
	FILE *h = fopen(f.c_str(), "w"); fwrite(s.data(), 1, s.size(), h); fclose(h);
}
// ask for completions of a partial line at the level the prompt shows
static Rng *g_r;
static void complete(const char *prompt) {
	Rng &r = *g_r;
	if (!rl_attempted_completion_function || !r.chance(40)) return;
	std::string p = prompt; p.resize(p.size() - 2);
	Tab *t = g_root; size_t i = 1;
	while (i < p.size()) { size_t e = p.find('/', i + 1); if (e == std::string::npos) e = p.size(); std::string n = p.substr(i + 1, e - i - 1); Tab *q = nullptr; for (auto &x : t->e) if (x.sub && x.name == n) q = x.sub; if (!q) return; t = q; i = e; }
	std::string line = std::string(r.below(3), ' '); bool dead = false, file = false;
	for (int k = r.below(4); k-- && !t->e.empty();) {
		const Ent &e = r.pick(t->e); std::string n = e.name;
		if (n.empty()) break;
		bool bad = r.chance(10); if (bad) n += "zz";
		line += n + std::string(r.range(1, 2), ' ');
		if (dead || file) continue;
		if (bad || e.hidden) dead = true;
		else if (e.sub) t = e.sub;
		else if (e.k == SRC) file = true;
		else dead = true;
	}
	size_t start = line.size(); bool any = line.find_first_not_of(' ') != std::string::npos;
	std::string part; if (r.chance(80) && !t->e.empty()) { part = r.pick(t->e).name; part.resize(r.below(part.size() + 1)); } else part = r.pick({"", "q", "GO", "zzz"});
	line += part;
	(void)any;
	char *lb = strdup(line.c_str()); rl_line_buffer = lb; rl_attempted_completion_over = r.below(2);
	char **m = rl_attempted_completion_function(part.c_str(), start, line.size());
	std::vector<std::string> got, want;
	for (int k = 0; m && m[k]; k++) { got.push_back(m[k]); free(m[k]); }
	free(m); rl_line_buffer = nullptr; free(lb);
	if (!dead && !file) for (auto &e : t->e) if (!e.hidden && e.name.compare(0, part.size(), part) == 0) want.push_back(e.name);
	CHECK(got == want, "cli:completion", "completing \"%s\" at \"%s\": %zu proposals, should be %zu", line.c_str(), prompt, got.size(), want.size());
	if (file) CHECK(!rl_attempted_completion_over, "cli:completion", "completing \"%s\" at \"%s\": no file names", line.c_str(), prompt);
	else if (want.empty()) CHECK(rl_attempted_completion_over, "cli:completion", "completing \"%s\" at \"%s\": file names proposed", line.c_str(), prompt);
	rep::cover("completions");
}
static void lang(Rng &r, long) {
	for (auto *t : g_tabs) { free(t->real); delete t; }
	g_tabs.clear(); files.clear(); ev.clear(); g_exec = g_steps = 0; g_unterminated = 0;
	int ids = 0; g_root = mktab(r, 0, ids);
	for (auto *t : g_tabs) {
		t->real = (struct cmd_tbl_entry *)calloc(t->e.size() + 1, sizeof(struct cmd_tbl_entry));
		for (size_t i = 0; i < t->e.size(); i++) {
			Ent &e = t->e[i];
			fn f = e.k == LEAF ? leaves[e.id] : e.k == CUSTOM ? customs[e.id] : e.k == UP ? cmd_up : e.k == EXIT_ ? cmd_exit : e.k == SRC ? cmd_source : e.k == HELP ? helps[t->id] : nullptr;
			struct cmd_tbl_entry x = {e.name.c_str(), e.usage.c_str(), e.help.c_str(), f, (e.hidden ? CLI_CMD_HIDDEN : 0) | (e.k == CUSTOM ? CLI_CMD_CUSTOM : 0) | (e.k == SRC ? CLI_CMD_FILEARG : 0), nullptr};
			memcpy((void *)&t->real[i], &x, sizeof x);
		}
	}
	for (auto *t : g_tabs) for (size_t i = 0; i < t->e.size(); i++) if (t->e[i].sub) t->real[i].sub_cmd_tbl = t->e[i].sub->real;
	for (int i = 5; i >= 0; i--) if (!r.chance(15)) files[fmt("f%d", i)] = script(r, i + 1);
	std::vector<std::string> in = script(r, 0);
	for (auto &f : {"f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7"}) unlink(f);
	for (auto &f : files) put(f.first, f.second, r);
	std::string feed; put("", in, r, &feed);
	if (feed.size() > 60000) { rep::cover("too-long"); return; }
	int ini = r.below(4); std::string inifile = ini == 0 ? "" : ini == 1 ? "nofile" : fmt("f%d", (int)r.below(3));
	// expected
	bool go = true;
	if (!inifile.empty()) { int rv = modelfile(inifile); if (rv == CMD_FAILED) ev.push_back("Problem with file"); go = rv == CMD_OK; }
	if (go) { Src s{&in, 0, true}; model(g_root, "P", s, nullptr, true); }
	ev.push_back("ATEXIT");
	if (g_steps > 4000 || ev.size() > 3000) { rep::cover("too-long"); return; }
	struct cli_callbacks cb = {cb_log, cb_exit}; cli_set_callbacks(&cb);
	app::stdin_reset(); app::stdin_feed(feed); app::stdin_eof();
	unsigned long ser = alloc_serial();
	budget(3600 * SEC, 1000000);
	Rng r2(r.next()); g_r = &r2; on_prompt = complete; rl_attempted_completion_function = nullptr;
	std::string o = capture([&]() { cli_enter("P", inifile.empty() ? nullptr : inifile.c_str(), g_root->real); });
	{ auto lv = live_since(ser); CHECK(lv.empty(), "cli:leak", "%zu blocks left, of %zu bytes", lv.size(), lv.empty() ? 0 : lv[0].second); }
	CHECK(!g_unterminated, "cli:argv", "a command's argument list isn't terminated");
	// what really happened
	std::vector<std::string> got;
	for (size_t i = 0; i < o.size();) {
		size_t e = o.find('\n', i); if (e == std::string::npos) e = o.size();
		std::string l = o.substr(i, e - i);
		auto is = [&](const char *p) { return l.compare(0, strlen(p), p) == 0; };
		if (l[0] == 'P' && (l[1] == '>' || l[1] == '/')) { size_t q = l.find("> "); if (q != std::string::npos) { got.push_back(l.substr(0, q + 2)); i += q + 2; continue; } }
		if (is("<<") || is("LOG:") || is("@") || is("ATEXIT") || is("Usage: ") || (l[0] == '\t' && l[1] == 'u')) got.push_back(l);
		else if (is("Unrecog")) got.push_back("Unrecog");
		else if (is("Couldn't read")) got.push_back("Couldn't read");
		else if (is("Problem with file")) got.push_back("Problem with file");
		else if (is("running commands from file ")) { std::string f = l.substr(27); size_t d = f.find("..."); got.push_back("running " + f.substr(0, d)); }
		else if (l.size() > 15 && l.compare(l.size() - 15, 15, "no such command") == 0) got.push_back("no such command");
		i = e + 1;
	}
	for (size_t i = 0; i < ev.size() || i < got.size(); i++) {
		std::string a = i < ev.size() ? ev[i] : "(nothing)", b = i < got.size() ? got[i] : "(nothing)";
		if (a != b) { rep::violation("cli:run", fmt("event %zu is \"%.200s\", should be \"%.200s\"", i, b.c_str(), a.c_str())); break; }
	}
	rep::cover("commands-run", g_exec); rep::cover("events", ev.size());
	for (auto &e : ev) { if (e == "Unrecog") rep::cover("unrecognised"); else if (e[0] == '@') rep::cover("printed-comments"); else if (e.compare(0, 7, "running") == 0) rep::cover("files-run"); else if (e.compare(0, 6, "Usage:") == 0) rep::cover("usages"); else if (e.compare(0, 2, "P/") == 0) rep::cover("submenu-prompts"); }
	for (auto &l : in) if (l.size() > 1400) rep::cover("long-lines");
	for (auto &f : files) for (auto &l : f.second) if (l.size() > 1400) rep::cover("long-lines");
	rep::distinct(feed + inifile);
}
static void setup() { scratch(); setvbuf(stdout, nullptr, _IOFBF, 0); setvbuf(stdout, nullptr, _IONBF, 0); }
static void cleanup() {}
std::vector<Mode> modes() { (void)cleanup; return {{"lang", lang, setup, true}}; }
