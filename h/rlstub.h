#pragma once
// A scratch directory to run in, and readline replaced by plain line input so
// that runs are the same everywhere.
#include "app.h"
#include <dirent.h>
#include <sys/stat.h>
static std::string g_dir;
inline void wipe() {
	std::map<std::string, std::vector<std::string>> keep; keep.swap(vt::vdirs);   // the real directory
	DIR *d = ::opendir(g_dir.c_str()); if (!d) abort();
	std::vector<std::string> v; while (struct dirent *e = ::readdir(d)) if (e->d_name[0] != '.') v.push_back(e->d_name);
	::closedir(d); keep.swap(vt::vdirs);
	for (auto &f : v) unlink((g_dir + "/" + f).c_str());
}
inline void scratch() {
	// the driver that started us removes its own directory when we are gone
	const char *base = getenv("SCRATCH");
	std::string t = std::string(base ? base : "/tmp") + "/vcliXXXXXX";
	if (!mkdtemp(&t[0]) || chdir(t.c_str())) abort();
	g_dir = t;
}
// readline replaced by plain line input, so that runs are the same everywhere
static std::function<void(const char *)> on_prompt;
extern "C" {
char *rl_line_buffer; int rl_attempted_completion_over;
typedef char *gen_t(const char *, int);
typedef char **compl_t(const char *, int, int);
compl_t *rl_attempted_completion_function;
void add_history(const char *) {}
char *readline(const char *p) {
	if (on_prompt) on_prompt(p);
	fputs(p, stdout); fflush(stdout);
	std::string s; int c;
	while ((c = getc(stdin)) != EOF && c != '\n') s += (char)c;
	if (c == EOF && s.empty()) return nullptr;
	while (!s.empty() && s.back() == '\r') s.pop_back();
	return strdup(s.c_str());
}
char **rl_completion_matches(const char *t, gen_t *g) {
	std::vector<char *> v; char *m; int st = 0;
	while ((m = g(t, st++))) v.push_back(m);
	if (v.empty()) return nullptr;
	char **r = (char **)malloc((v.size() + 1) * sizeof(char *));
	memcpy(r, v.data(), v.size() * sizeof(char *)); r[v.size()] = nullptr;
	return r;
}
}
