#include "sched.hpp"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <map>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <pthread.h>
#include <sched.h>
#include <threads.h>
static_assert(sizeof(mtx_t) >= sizeof(pthread_mutex_t), "mtx_t");

namespace {
struct Ctl {
	std::mutex m; std::condition_variable cv; int current = -1; size_t n = 0, arrived = 0; std::vector<bool> done; std::vector<void *> waits; std::map<void *, int> owner; pbt::Source *s = nullptr; bool active = false; uint64_t nsw = 0;
	uint64_t draw(uint64_t k) { try { return s->below(k); } catch (pbt::Discard &) { return 0; } }
	bool runnable(int t) { return !done[(size_t)t] && (!waits[(size_t)t] || !owner.count(waits[(size_t)t])); }
	void pick()
	{
		std::vector<int> c; for (int t = 0; t < (int)n; ++t) if (runnable(t)) c.push_back(t);
		if (c.empty()) { bool all = true; for (size_t t = 0; t < n; ++t) all = all && done[t]; if (all) { current = -1; return; } fprintf(stderr, "DEADLOCK: every thread waits for a lock\n"); abort(); }
		bool keep = current >= 0 && runnable(current); int old = current;
		if (keep && (c.size() == 1 || draw(4) < 2)) return;
		current = c[c.size() == 1 ? 0 : draw(c.size())]; if (current != old) nsw++;
	}
	void reschedule(std::unique_lock<std::mutex> &l, int me) { pick(); cv.notify_all(); cv.wait(l, [&] { return current == me; }); }
} ctl;
std::atomic<unsigned> yden{0}; std::atomic<uint64_t> yseed{0};
thread_local int self = -1; thread_local uint64_t yrng = 0;
void maybe()
{
	unsigned d = yden.load(std::memory_order_relaxed); if (!d) return;
	if (!yrng) { yrng = yseed.load(std::memory_order_relaxed) * 0x9e3779b97f4a7c15ull ^ (uint64_t)(uintptr_t)&yrng; yrng |= 1; }
	yrng ^= yrng << 13; yrng ^= yrng >> 7; yrng ^= yrng << 17; if (yrng % d == 0) sched_yield();
}
}

extern "C" {
int __wrap_mtx_init(mtx_t *m, int) { return pthread_mutex_init((pthread_mutex_t *)m, nullptr) ? thrd_error : thrd_success; }
void __wrap_mtx_destroy(mtx_t *m) { pthread_mutex_destroy((pthread_mutex_t *)m); }
int __wrap_mtx_lock(mtx_t *m)
{
	if (self >= 0 && ctl.active) {
		std::unique_lock<std::mutex> l(ctl.m); ctl.reschedule(l, self);
		auto o = ctl.owner.find(m); if (o != ctl.owner.end() && o->second == self) { fprintf(stderr, "DEADLOCK: lock taken twice by the same thread\n"); abort(); }
		while (ctl.owner.count(m)) { ctl.waits[(size_t)self] = m; ctl.reschedule(l, self); }
		ctl.waits[(size_t)self] = nullptr; ctl.owner[m] = self;
	} else maybe();
	return pthread_mutex_lock((pthread_mutex_t *)m) ? thrd_error : thrd_success;
}
int __wrap_mtx_unlock(mtx_t *m)
{
	int r = pthread_mutex_unlock((pthread_mutex_t *)m);
	if (self >= 0 && ctl.active) { std::unique_lock<std::mutex> l(ctl.m); ctl.owner.erase(m); ctl.reschedule(l, self); } else maybe();
	return r ? thrd_error : thrd_success;
}
}

namespace sched {
void perturb(uint64_t seed, unsigned den) { yseed = seed; yden = den; }
void point() { if (self >= 0 && ctl.active) { std::unique_lock<std::mutex> l(ctl.m); ctl.reschedule(l, self); } }
uint64_t switches() { return ctl.nsw; }
void run(const std::vector<std::function<void()>> &b, pbt::Source *s)
{
	std::vector<std::thread> th; std::atomic<unsigned> ready{0};
	if (!s) { for (auto &f : b) th.emplace_back([&] { ready++; while (ready < b.size()) std::this_thread::yield(); f(); }); for (auto &t : th) t.join(); return; }
	ctl.n = b.size(); ctl.arrived = 0; ctl.done.assign(b.size(), false); ctl.waits.assign(b.size(), nullptr); ctl.owner.clear(); ctl.s = s; ctl.current = -1; ctl.active = true; ctl.nsw = 0;
	for (size_t i = 0; i < b.size(); ++i) th.emplace_back([&, i] {
		{ std::unique_lock<std::mutex> l(ctl.m); self = (int)i; if (++ctl.arrived == ctl.n) { ctl.pick(); ctl.cv.notify_all(); } ctl.cv.wait(l, [&] { return ctl.current == (int)i; }); }
		b[i]();
		{ std::unique_lock<std::mutex> l(ctl.m); ctl.done[i] = true; self = -1; ctl.pick(); ctl.cv.notify_all(); }
	});
	for (auto &t : th) t.join();
	ctl.active = false;
}
}
