#include "engine.hpp"
#include <cstdio>
#include <cstdlib>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>

namespace pbt {

std::string strf(const char *fmt, ...)
{
	char buf[4096];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
	return buf;
}

void fail(const char *fmt, ...)
{
	char buf[4096];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof(buf), fmt, ap); va_end(ap);
	throw Failure{buf};
}

std::string hex(const uint8_t *p, size_t n, size_t max)
{
	std::string s; char b[4];
	for (size_t i = 0; i < n && i < max; ++i) { snprintf(b, sizeof(b), "%02x", p[i]); s += b; }
	if (n > max) s += "...";
	return s;
}

static const size_t MAX_LABELS = 256;
static const size_t MAX_SAMPLES = 4;
static const size_t SAMPLE_LEN = 3000;
static const size_t MAX_HASHES = 1 << 22;

struct WorkerShm {
	volatile uint64_t current;   // current case index + 1, 0 if none
	volatile uint64_t done;      // finished cases
	volatile uint64_t discarded;
	volatile uint64_t nontrivial;
	volatile uint64_t nhash;
	volatile int failed;
	char msg[4096];
	uint64_t nlabels;
	struct { char name[48]; uint64_t n; } labels[MAX_LABELS];
	uint64_t nsamples;
	char samples[MAX_SAMPLES][SAMPLE_LEN];
	uint64_t nchoices;
	size_t loglen;
	char log[1 << 16];
	// followed by choices, then hashes
};

static WorkerShm *g_w;     // this worker's block
static bool g_count;

void Ctx::label(const char *name, uint64_t n)
{
	if (!g_w || !g_count) return;
	for (uint64_t i = 0; i < g_w->nlabels; ++i)
		if (!strncmp(g_w->labels[i].name, name, 47)) { g_w->labels[i].n += n; return; }
	if (g_w->nlabels < MAX_LABELS) {
		auto &l = g_w->labels[g_w->nlabels];
		strncpy(l.name, name, 47); l.name[47] = 0; l.n = n;
		g_w->nlabels++;
	}
}

void Ctx::log(const char *fmt, ...)
{
	if (!want_describe || !g_w) return;
	size_t room = sizeof(g_w->log) - g_w->loglen;
	if (room < 2) return;
	va_list ap; va_start(ap, fmt);
	int n = vsnprintf(g_w->log + g_w->loglen, room, fmt, ap);
	va_end(ap);
	if (n > 0) g_w->loglen += std::min<size_t>((size_t)n, room - 1);
}

void Ctx::nontrivial(uint64_t h) { is_nontrivial = true; hash = h; }

static uint64_t case_seed(uint64_t seed, const char *suite, uint64_t i)
{
	uint64_t h = fnv(suite, strlen(suite));
	Rng r(h ^ (seed * 0xd1342543de82ef95ull));
	uint64_t a = r.next();
	Rng r2(a + i * 0x9e3779b97f4a7c15ull);
	r2.next();
	return r2.next();
}

static double now()
{
	struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}

static double cputime() { struct timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static volatile int g_idle; static double g_cpu; static unsigned g_tick = 10;
static void arm(unsigned secs)
{
	struct itimerval it; memset(&it, 0, sizeof(it));
	it.it_value.tv_sec = secs;
	setitimer(ITIMER_PROF, &it, nullptr);
	// A case that makes no progress at all is deadlocked.
	g_idle = 0; g_cpu = cputime();
	it.it_value.tv_sec = it.it_interval.tv_sec = secs ? g_tick : 0;
	setitimer(ITIMER_REAL, &it, nullptr);
}

static void on_alrm(int)
{
	double c = cputime();
	if (c - g_cpu > 0.01) { g_cpu = c; g_idle = 0; return; }
	if (++g_idle < 3) return;
	static const char m[] = "\nHANG: case makes no progress (deadlock)\n";
	ssize_t r = write(2, m, sizeof(m) - 1); (void)r;
	_exit(79);
}

static void on_prof(int)
{
	static const char m[] = "\nHANG: case exceeded its CPU time limit\n";
	ssize_t r = write(2, m, sizeof(m) - 1); (void)r;
	_exit(79);
}

struct Block { WorkerShm *w; uint64_t *choices; uint64_t *hashes; };

static Block mkblock(size_t cap)
{
	size_t sz = sizeof(WorkerShm) + (cap + MAX_HASHES) * 8;
	void *p = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	Block b; b.w = (WorkerShm *)p; b.choices = (uint64_t *)(b.w + 1); b.hashes = b.choices + cap;
	return b;
}

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_LSAN 1
#endif
#endif
static volatile long g_live;
static bool g_leakcheck;
#ifdef HAVE_LSAN
extern "C" int __lsan_do_recoverable_leak_check(void);
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void on_malloc(const volatile void *, size_t) { __atomic_fetch_add(&g_live, 1, __ATOMIC_RELAXED); }
static void on_free(const volatile void *p) { if (p) __atomic_fetch_sub(&g_live, 1, __ATOMIC_RELAXED); }
static bool leak_check() { return __lsan_do_recoverable_leak_check() != 0; }
static void *volatile g_leak;
// Find out whether the leak checker works in this environment.
static void leak_init()
{
	pid_t p = fork();
	if (p == 0) {
		int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
		g_leak = malloc(1234); g_leak = nullptr;
		char clobber[4096]; memset(clobber, 0, sizeof(clobber)); __asm__ volatile("" : : "r"(clobber) : "memory");
		_exit(leak_check() ? 55 : 56);
	}
	int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 55) {
		__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
		g_leakcheck = true;
	} else
		printf("note: leak checking is not available here\n");
}
#else
static bool leak_check() { return false; }
static void leak_init() {}
#endif

// Outcome of running one case.
enum { OK = 0, DISCARD = 1, FAIL = 2 };

static int run_one(const Suite &s, Source &src, Ctx &ctx, std::string &msg)
{
	try {
		arm(s.cpu_limit);
		long live = g_live;
		s.run(src, ctx);
		arm(0);
		if (g_leakcheck && g_live > live && leak_check()) {
			msg = "memory leak";
			return FAIL;
		}
		return OK;
	} catch (Failure &f) {
		arm(0);
		msg = f.msg;
		return FAIL;
	} catch (Discard &) {
		arm(0);
		return DISCARD;
	}
}

static void worker(const Suite &s, Block b, uint64_t seed, uint64_t first, uint64_t step, uint64_t total, double deadline)
{
	signal(SIGPROF, on_prof); signal(SIGALRM, on_alrm);
	g_w = b.w; g_count = true;
	uint64_t n = 0;
	for (uint64_t i = first; i < total; i += step, ++n) {
		if (now() > deadline) break;
		b.w->current = i + 1;
		Source src(case_seed(seed, s.name, i), b.choices, &b.w->nchoices, s.choice_cap);
		Ctx ctx; std::string msg;
		ctx.want_describe = (b.w->nsamples < MAX_SAMPLES) && (n % 97 == 3 || n < 2);
		b.w->loglen = 0; b.w->log[0] = 0;
		int r = run_one(s, src, ctx, msg);
		if (r == FAIL) {
			strncpy(b.w->msg, msg.c_str(), sizeof(b.w->msg) - 1);
			b.w->failed = 1;
			_exit(77);
		}
		if (r == DISCARD) b.w->discarded++;
		b.w->done++;
		if (ctx.is_nontrivial) {
			b.w->nontrivial++;
			if (b.w->nhash < MAX_HASHES) { b.hashes[b.w->nhash] = ctx.hash; b.w->nhash++; }
		}
		if (ctx.want_describe && ctx.is_nontrivial && b.w->loglen) {
			strncpy(b.w->samples[b.w->nsamples], b.w->log, SAMPLE_LEN - 1);
			b.w->nsamples++;
		}
		b.w->current = 0;
	}
	_exit(0);
}

// Run a choice sequence in a child.  Returns kind: 0 ok, 1 discard, otherwise
// a failure class; msg and the normalised choices are filled in.
struct Probe { int kind; std::string msg; std::vector<uint64_t> choices; std::string desc; };

static Probe probe(const Suite &s, Block b, const std::vector<uint64_t> &choices, bool describe, const char *errfile, bool verbose = false)
{
	Probe res; res.kind = 0;
	b.w->failed = 0; b.w->msg[0] = 0; b.w->nchoices = 0; b.w->loglen = 0; b.w->log[0] = 0;
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) { res.kind = 1; return res; }
	if (pid == 0) {
		if (errfile) {
			int fd = open(errfile, O_CREAT | O_TRUNC | O_WRONLY, 0644);
			if (fd >= 0) { dup2(fd, 2); if (!verbose) dup2(fd, 1); }
		}
		signal(SIGPROF, on_prof); signal(SIGALRM, on_alrm); g_tick = 4;
		g_w = b.w; g_count = false;
		Source src(choices.data(), choices.size(), b.choices, &b.w->nchoices, s.choice_cap);
		Ctx ctx; std::string msg; ctx.want_describe = describe; ctx.verbose = verbose;
		int r = run_one(s, src, ctx, msg);
		if (r == FAIL) { strncpy(b.w->msg, msg.c_str(), sizeof(b.w->msg) - 1); _exit(77); }
		_exit(r == DISCARD ? 78 : 0);
	}
	int st = 0;
	while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if (WIFEXITED(st)) {
		int c = WEXITSTATUS(st);
		if (c == 0) res.kind = 0;
		else if (c == 78) res.kind = 1;
		else if (c == 77) { res.kind = 2; res.msg = b.w->msg; }
		else if (c == 79) { res.kind = 4; res.msg = "hang: CPU time limit exceeded or deadlock"; }
		else { res.kind = 3; res.msg = strf("process exit %d (sanitizer report)", c); }
	} else if (WIFSIGNALED(st)) {
		int sig = WTERMSIG(st);
		if (sig == SIGKILL) { res.kind = 1; res.msg = "killed"; } // out of memory: inconclusive
		else { res.kind = 3; res.msg = strf("killed by signal %d", sig); }
	}
	res.choices.assign(b.choices, b.choices + b.w->nchoices);
	res.desc = b.w->log;
	return res;
}

static bool simpler(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b)
{
	if (a.size() != b.size()) return a.size() < b.size();
	return a < b;
}

static std::vector<uint64_t> shrink(const Suite &s, Block b, std::vector<uint64_t> best, int kind, double budget, const char *errfile)
{
	double end = now() + budget;
	unsigned tries = 0;
	auto attempt = [&](const std::vector<uint64_t> &c) {
		if (now() > end) return false;
		tries++;
		Probe p = probe(s, b, c, false, errfile);
		if (p.kind != kind) return false;
		// keep the normalised (actually consumed) choices if simpler
		std::vector<uint64_t> n = p.choices.size() <= c.size() ? p.choices : c;
		// a hard crash may lose nothing: choices live in shared memory
		if (simpler(n, best)) { best = n; return true; }
		if (simpler(c, best)) { best = c; return true; }
		return false;
	};
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1; k /= 2) {
			for (size_t i = best.size(); i-- > 0;) {
				if (now() > end) break;
				if (i + k > best.size()) continue;
				std::vector<uint64_t> c(best.begin(), best.begin() + i);
				c.insert(c.end(), best.begin() + i + k, best.end());
				if (attempt(c)) { progress = true; if (i > best.size()) i = best.size(); }
				else if (k > 1) i = i >= k - 1 ? i - (k - 1) : 0;
			}
			if (k == 1) break;
		}
		for (size_t i = 0; i < best.size(); ++i) {
			if (now() > end) break;
			if (!best[i]) continue;
			std::vector<uint64_t> c = best; c[i] = 0;
			if (attempt(c)) { progress = true; continue; }
			uint64_t lo = 0, hi = i < best.size() ? best[i] : 0;
			while (lo + 1 < hi && now() < end) {
				uint64_t mid = lo + (hi - lo) / 2;
				c = best; c[i] = mid;
				if (attempt(c)) { progress = true; if (i >= best.size()) break; hi = best[i]; }
				else lo = mid;
			}
		}
	}
	return best;
}

static std::string json_str(const std::string &s)
{
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"') o += "\\\""; else if (c == '\\') o += "\\\\"; else if (c == '\n') o += "\\n";
		else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}

static std::string slurp(const char *f, size_t max)
{
	std::string s; FILE *fp = fopen(f, "r"); if (!fp) return s;
	char buf[4096]; size_t n;
	while (s.size() < max && (n = fread(buf, 1, sizeof(buf), fp)) > 0) s.append(buf, n);
	fclose(fp);
	if (s.size() > max) s.resize(max);
	return s;
}

static int replay_main(const char *file, const std::vector<Suite> &suites, bool verbose)
{
	FILE *fp = fopen(file, "r");
	if (!fp) { fprintf(stderr, "cannot open %s\n", file); return 2; }
	char line[8192]; std::string name; std::vector<uint64_t> ch; bool in = false;
	while (fgets(line, sizeof(line), fp)) {
		if (!strncmp(line, "suite ", 6)) { name = line + 6; while (name.size() && name.back() == '\n') name.pop_back(); }
		else if (!strncmp(line, "choices", 7)) in = true;
		else if (in) { char *p = line; if (*p == 'e') break; while (*p) { char *e; uint64_t v = strtoull(p, &e, 0); if (e == p) break; ch.push_back(v); p = e; } }
	}
	fclose(fp);
	for (auto &s : suites) {
		if (name != s.name) continue;
		if (s.setup) s.setup();
		Block b = mkblock(s.choice_cap);
		Probe p = probe(s, b, ch, true, nullptr, verbose);
		printf("suite %s: %s\n%s\n", s.name, p.kind >= 2 ? p.msg.c_str() : "passes", p.desc.c_str());
		return p.kind >= 2 ? 1 : 0;
	}
	fprintf(stderr, "no suite '%s'\n", name.c_str());
	return 2;
}

int run_main(int argc, char **argv, const char *id, const std::vector<Suite> &suites, const std::vector<Finding> &findings)
{
	uint64_t seed = 1; bool thorough = false; unsigned jobs = 8; std::string evidence, outdir = ".";
	const char *replay = nullptr; std::string only; uint64_t cases_override = 0; double budget = 0; bool verbose = false;
	double scale = 1; double shrink_budget = 60; std::string known;
	if (const char *e = getenv("VERIF_SEED")) seed = strtoull(e, nullptr, 0);
	if (const char *e = getenv("VERIF_TIER")) thorough = !strcmp(e, "thorough");
	if (const char *e = getenv("VERIF_JOBS")) jobs = atoi(e);
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto next = [&]() -> const char * { if (i + 1 >= argc) exit(2); return argv[++i]; };
		if (a == "--seed") seed = strtoull(next(), nullptr, 0);
		else if (a == "--thorough") thorough = true;
		else if (a == "--quick") thorough = false;
		else if (a == "--jobs") jobs = atoi(next());
		else if (a == "--evidence") evidence = next();
		else if (a == "--out") outdir = next();
		else if (a == "--replay") replay = next();
		else if (a == "--only") only = next();
		else if (a == "--cases") cases_override = strtoull(next(), nullptr, 0);
		else if (a == "--scale") scale = atof(next());
		else if (a == "--budget") budget = atof(next());
		else if (a == "--shrink") shrink_budget = atof(next());
		else if (a == "--known") known = next();
		else if (a == "-v") verbose = true;
		else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; }
	}
	leak_init();
	if (replay) return replay_main(replay, suites, verbose);
	if (budget == 0) budget = thorough ? 3000 : 420;
	if (jobs < 1) jobs = 1;

	double t0 = now(); double deadline = t0 + budget;
	uint64_t tot_eval = 0; std::string rules, samples, parts; int violations = 0; std::string vline;
	std::unordered_set<uint64_t> distinct;
	std::string listed = known.size() ? slurp(known.c_str(), 1 << 20) : "";
	for (auto &f : findings) {
		fflush(stdout);
		pid_t p = fork();
		if (p == 0) { bool pr = false; try { pr = f.present(); } catch (...) { pr = true; } _exit(pr ? 1 : 0); }
		int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
		std::string line = std::string("finding: property=") + id + " key=" + f.key + " ";
		if (listed.find(line) != std::string::npos)
			printf("KNOWN-FINDING: property=%s %s: %s\n", id, f.key, f.what);
		else {
			std::string rf = outdir + "/" + id + "-finding-" + f.key + ".replay";
			FILE *fp = fopen(rf.c_str(), "w");
			if (fp) { fprintf(fp, "property %s\nfinding %s\n%s\n", id, f.key, f.what); fclose(fp); }
			printf("VIOLATION property=%s replay=%s\n", id, rf.c_str());
			violations++;
		}
	}
	for (auto &s : suites) {
		if (violations) break;
		if (only.size() && only != s.name) continue;
		double ts = now();
		if (s.setup) s.setup();
		uint64_t cases = thorough ? s.thorough_cases : s.quick_cases;
		cases = (uint64_t)(cases * scale);
		if (cases_override) cases = cases_override;
		unsigned nj = std::min<uint64_t>(std::min<uint64_t>(jobs, s.max_jobs), std::max<uint64_t>(cases, 1));
		std::vector<Block> blocks; std::vector<pid_t> pids;
		std::string errbase = outdir + "/" + id + "-" + s.name + "-" + std::to_string(getpid());
		fflush(stdout); fflush(stderr);
		for (unsigned j = 0; j < nj; ++j) blocks.push_back(mkblock(s.choice_cap));
		for (unsigned j = 0; j < nj; ++j) {
			pid_t p = fork();
			if (p == 0) {
				std::string ef = errbase + "." + std::to_string(j) + ".err";
				int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
				if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
				worker(s, blocks[j], seed, j, nj, cases, deadline);
			}
			pids.push_back(p);
		}
		int bad = -1; uint64_t badcase = ~0ull;
		size_t left = nj;
		std::vector<bool> alive(nj, true);
		while (left) {
			int st; pid_t p = waitpid(-1, &st, 0);
			if (p < 0) { if (errno == EINTR) continue; break; }
			for (unsigned j = 0; j < nj; ++j) if (alive[j] && pids[j] == p) {
				alive[j] = false; left--;
				bool oom = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
				bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
				if (!ok && !oom && blocks[j].w->current) {
					uint64_t c = blocks[j].w->current - 1;
					// prefer the lowest case for determinism among those seen
					if (c < badcase) { badcase = c; bad = (int)j; }
					for (unsigned k = 0; k < nj; ++k) if (alive[k]) kill(pids[k], SIGKILL);
				} else if (!ok && !oom) { fprintf(stderr, "%s: worker failed outside of a case\n", s.name); return 2; }
			}
		}
		uint64_t ev = 0, nt = 0, di = 0; std::map<std::string, uint64_t> labels; std::string smp;
		unsigned nsmp = 0;
		for (unsigned j = 0; j < nj; ++j) {
			WorkerShm *w = blocks[j].w;
			ev += w->done; di += w->discarded; nt += w->nontrivial;
			for (uint64_t k = 0; k < w->nhash; ++k) distinct.insert(mix(fnv(s.name, strlen(s.name)), blocks[j].hashes[k]));
			for (uint64_t k = 0; k < w->nlabels; ++k) labels[w->labels[k].name] += w->labels[k].n;
			for (uint64_t k = 0; k < w->nsamples && nsmp < 3; ++k, ++nsmp) { if (samples.size() + smp.size()) smp += ","; smp += json_str(std::string(s.name) + ": " + w->samples[k]); }
		}
		if (bad >= 0) {
			std::vector<uint64_t> ch(blocks[bad].choices, blocks[bad].choices + blocks[bad].w->nchoices);
			std::string ef = errbase + ".shrink.err";
			Block pb = mkblock(s.choice_cap);
			Probe p = probe(s, pb, ch, false, ef.c_str());
			std::string orig = slurp((errbase + "." + std::to_string(bad) + ".err").c_str(), 4000);
			int confirmed = 0;
			if (p.kind >= 2) {
				std::vector<uint64_t> best = shrink(s, pb, ch, p.kind, shrink_budget, ef.c_str());
				Probe f;
				for (int k = 0; k < 3; ++k) { f = probe(s, pb, best, true, ef.c_str()); if (f.kind >= 2) confirmed++; }
				if (confirmed < 3) { best = ch; confirmed = 0; for (int k = 0; k < 3; ++k) { f = probe(s, pb, best, true, ef.c_str()); if (f.kind >= 2) confirmed++; } }
				if (confirmed) {
					std::string rf = outdir + "/" + id + "-" + s.name + "-seed" + std::to_string(seed) + "-case" + std::to_string(badcase) + ".replay";
					FILE *fp = fopen(rf.c_str(), "w");
					if (fp) {
						fprintf(fp, "property %s\nsuite %s\nmessage %s\nchoices\n", id, s.name, f.msg.c_str());
						for (size_t k = 0; k < best.size(); ++k) fprintf(fp, "%#llx%c", (unsigned long long)best[k], k % 12 == 11 ? '\n' : ' ');
						fprintf(fp, "\nend\n--- description\n%s\n--- output\n%s\n", f.desc.c_str(), slurp(ef.c_str(), 8000).c_str());
						fclose(fp);
					}
					printf("suite %s case %llu: %s\n", s.name, (unsigned long long)badcase, f.msg.c_str());
					printf("%s\n", f.desc.c_str());
					std::string er = slurp(ef.c_str(), 3000);
					if (er.size()) printf("--- output of the failing case\n%s\n", er.c_str());
					printf("VIOLATION property=%s replay=%s\n", id, rf.c_str());
					fflush(stdout);
					violations++;
				}
			}
			if (!confirmed) {
				// Not reproducible in isolation: report if the suite is inherently
				// non-deterministic (threads); the original output is the record.
				std::string rf = outdir + "/" + id + "-" + s.name + "-seed" + std::to_string(seed) + "-case" + std::to_string(badcase) + ".replay";
				FILE *fp = fopen(rf.c_str(), "w");
				if (fp) {
					fprintf(fp, "property %s\nsuite %s\nmessage (not reproduced in isolation) %s\nchoices\n", id, s.name, blocks[bad].w->msg);
					for (size_t k = 0; k < ch.size(); ++k) fprintf(fp, "%#llx%c", (unsigned long long)ch[k], k % 12 == 11 ? '\n' : ' ');
					fprintf(fp, "\nend\n--- output\n%s\n", orig.c_str());
					fclose(fp);
				}
				printf("suite %s case %llu failed once: %s\n%s\n", s.name, (unsigned long long)badcase, blocks[bad].w->msg, orig.c_str());
				printf("VIOLATION property=%s replay=%s\n", id, rf.c_str());
				violations++;
			}
			unlink(ef.c_str());
		}
		for (unsigned j = 0; j < nj; ++j) {
			std::string ef = errbase + "." + std::to_string(j) + ".err"; unlink(ef.c_str());
			munmap(blocks[j].w, sizeof(WorkerShm) + (s.choice_cap + MAX_HASHES) * 8);
		}
		tot_eval += ev;
		samples += smp;
		if (rules.size()) rules += " | "; rules += std::string(s.name) + ": " + s.rule;
		std::string lab;
		for (auto &kv : labels) { if (lab.size()) lab += ", "; lab += json_str(kv.first) + ": " + std::to_string(kv.second); }
		if (parts.size()) parts += ", ";
		parts += json_str(s.name) + ": {\"planned\": " + std::to_string(cases) + ", \"evaluations\": " + std::to_string(ev) + ", \"discarded\": " + std::to_string(di) + ", \"nontrivial\": " + std::to_string(nt) + ", \"wall_s\": " + std::to_string(now() - ts) + ", \"labels\": {" + lab + "}}";
		printf("[%s/%s] %llu of %llu cases, %llu non-trivial, %llu discarded, %.1f s%s\n", id, s.name, (unsigned long long)ev, (unsigned long long)cases, (unsigned long long)nt, (unsigned long long)di, now() - ts, bad >= 0 ? " FAILED" : "");
		if (verbose) for (auto &kv : labels) printf("    %-48s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
		fflush(stdout);
		if (violations) break;
	}
	if (evidence.size()) {
		FILE *fp = fopen(evidence.c_str(), "w");
		if (!fp) { perror(evidence.c_str()); return 2; }
		fprintf(fp, "{\"property\": %s, \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\", \"coverage\": {\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"rule\": %s, \"samples\": [%s], \"parts\": {%s}}, \"wall_s\": %.3f, \"violations\": %d}\n",
			json_str(id).c_str(), thorough ? "thorough" : "quick", (unsigned long long)seed, (unsigned long long)tot_eval, (unsigned long long)distinct.size(), json_str(rules).c_str(), samples.c_str(), parts.c_str(), now() - t0, violations);
		fclose(fp);
	}
	return violations ? 1 : 0;
}

} // namespace pbt
