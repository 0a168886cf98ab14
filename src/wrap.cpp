#include "wrap.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <mutex>
#include <unordered_map>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>

static std::mutex mx; static bool on; static unsigned fmask; static uint64_t fat, ncalls, nfailed, serial, marked; static bool fall; static int cur_tag;
struct H { size_t size; uint64_t serial; }; struct M { size_t size; int tag; };
static std::unordered_map<void *, H> heap; static std::unordered_map<void *, M> maps; static std::unordered_map<void *, int> streams; static std::unordered_map<int, int> fds;
typedef std::lock_guard<std::mutex> L;

void (*wr::hook)(void);
static void hk() { if (wr::hook) wr::hook(); }
// The call fails.
static bool f(unsigned kind)
{
	hk(); L l(mx); if (!on || !(kind & fmask)) return false;
	ncalls++; if (fat && (fall ? ncalls >= fat : ncalls == fat)) { nfailed++; return true; }
	return false;
}
static void hadd(void *p, size_t n) { L l(mx); if (on && p) heap[p] = {n, ++serial}; }
static void hdel(void *p) { L l(mx); if (p) heap.erase(p); }

extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *);
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t); int __real_open(const char *, int, ...); int __real_close(int);
FILE *__real_fopen(const char *, const char *); FILE *__real_fdopen(int, const char *); int __real_fclose(FILE *);
size_t __real_fread(void *, size_t, size_t, FILE *); int __real_fseek(FILE *, long, int); long __real_ftell(FILE *); int __real_stat(const char *, struct stat *); int __real_fstat(int, struct stat *);

void *__wrap_malloc(size_t n) { if (f(wr::HEAP)) { errno = ENOMEM; return nullptr; } void *p = __real_malloc(n); hadd(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (f(wr::HEAP)) { errno = ENOMEM; return nullptr; } void *p = __real_calloc(a, b); hadd(p, a * b); return p; }
void *__wrap_realloc(void *q, size_t n) { if (f(wr::HEAP)) { errno = ENOMEM; return nullptr; } if (q) hdel(q); void *p = __real_realloc(q, n); hadd(p, n); return p; }
void __wrap_free(void *p) { hk(); hdel(p); __real_free(p); }
char *__wrap_strdup(const char *s) { if (f(wr::HEAP)) { errno = ENOMEM; return nullptr; } char *p = __real_strdup(s); hadd(p, strlen(s) + 1); return p; }
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t off)
{
	if (f(wr::MAP)) { errno = ENOMEM; return MAP_FAILED; }
	void *p = __real_mmap(a, n, pr, fl, fd, off); if (p != MAP_FAILED) { L l(mx); if (on) maps[p] = {n, cur_tag}; } return p;
}
int __wrap_munmap(void *p, size_t n) { hk(); { L l(mx); maps.erase(p); } return __real_munmap(p, n); }
int __wrap_open(const char *name, int fl, ...) { va_list ap; va_start(ap, fl); int mode = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap); if (f(wr::FD)) { errno = EMFILE; return -1; } int fd = __real_open(name, fl, mode); L l(mx); if (on && fd >= 0) fds[fd] = 1; return fd; }
int __wrap_close(int fd) { { L l(mx); fds.erase(fd); } return __real_close(fd); }
FILE *__wrap_fopen(const char *n, const char *m) { if (f(wr::STREAM)) { errno = EMFILE; return nullptr; } FILE *p = __real_fopen(n, m); L l(mx); if (on && p) streams[p] = 1; return p; }
FILE *__wrap_fdopen(int fd, const char *m) { if (f(wr::STREAM)) { errno = ENOMEM; return nullptr; } FILE *p = __real_fdopen(fd, m); L l(mx); if (on && p) { streams[p] = 1; fds.erase(fd); } return p; }
int __wrap_fclose(FILE *p) { { L l(mx); streams.erase(p); } return __real_fclose(p); }
size_t __wrap_fread(void *b, size_t s, size_t n, FILE *p) { if (f(wr::IO)) { errno = EIO; return 0; } return __real_fread(b, s, n, p); }
int __wrap_fseek(FILE *p, long o, int w) { if (f(wr::IO)) { errno = EIO; return -1; } return __real_fseek(p, o, w); }
long __wrap_ftell(FILE *p) { if (f(wr::IO)) { errno = EIO; return -1; } return __real_ftell(p); }
int __wrap_stat(const char *n, struct stat *b) { if (f(wr::IO)) { errno = EIO; return -1; } return __real_stat(n, b); }
int __wrap_fstat(int fd, struct stat *b) { if (f(wr::IO)) { errno = EIO; return -1; } return __real_fstat(fd, b); }
}

namespace wr {
void start() { L l(mx); heap.clear(); maps.clear(); streams.clear(); fds.clear(); on = true; fmask = 0; fat = ncalls = nfailed = 0; cur_tag = 0; }
void stop() { L l(mx); on = false; }
Stats live() { L l(mx); Stats s{}; for (auto &h : heap) { s.heap++; s.heap_bytes += h.second.size; } s.fd = fds.size(); s.stream = streams.size(); s.map = maps.size(); for (auto &m : maps) s.map_bytes += m.second.size; return s; }
std::string leaks()
{
	Stats s = live(); std::string r; char b[128];
	if (s.heap) { snprintf(b, sizeof b, "%zu heap blocks (%zu bytes) ", s.heap, s.heap_bytes); r += b; }
	if (s.fd) { snprintf(b, sizeof b, "%zu file descriptors ", s.fd); r += b; }
	if (s.stream) { snprintf(b, sizeof b, "%zu streams ", s.stream); r += b; }
	if (s.map) { snprintf(b, sizeof b, "%zu mappings ", s.map); r += b; }
	return r;
}
void fail(unsigned mask, uint64_t n, bool all) { L l(mx); fmask = mask; fat = n; fall = all; ncalls = nfailed = 0; }
bool inject(unsigned kind) { return f(kind); }
uint64_t calls() { L l(mx); return ncalls; }
uint64_t failed() { L l(mx); return nfailed; }
void tag(int t) { L l(mx); cur_tag = t; }
uint64_t map_bytes(int t) { L l(mx); uint64_t r = 0; for (auto &m : maps) if (m.second.tag == t) r += m.second.size; return r; }
size_t nmaps(int t) { L l(mx); size_t r = 0; for (auto &m : maps) if (m.second.tag == t) r++; return r; }
void mark() { L l(mx); marked = serial; }
size_t biggest_since_mark() { L l(mx); size_t r = 0; for (auto &h : heap) if (h.second.serial > marked && h.second.size > r) r = h.second.size; return r; }
}
