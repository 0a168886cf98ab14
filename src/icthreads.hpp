// Several threads sharing one image section cache.  Every operation has a
// result that does not depend on the schedule.
#pragma once
#include "ptwire.hpp"
#include <sys/mman.h>
#include <unistd.h>
#include "sched.hpp"
#include <map>
#include <mutex>
extern "C" {
#include "pt_image.h"
#include "pt_image_section_cache.h"
#include "pt_section.h"
}
namespace ict {
using namespace pbt;
struct File { int fd; std::string name[2]; uint64_t size; uint64_t salt; };
static uint8_t byte_at(const File &f, uint64_t off) { uint64_t h = (off + f.salt) * 0x9e3779b97f4a7c15ull; return (uint8_t)(h >> 56 ^ h >> 24); }
static std::vector<File> &files()
{
	static std::vector<File> v; if (!v.empty()) return v;
	static const uint64_t sizes[] = {1, 100, 4096, 5000, 70000, 20000};
	for (uint64_t n : sizes) {
		File f; f.fd = memfd_create("ic", 0); f.size = n; f.salt = n * 977; std::vector<uint8_t> d(n); for (uint64_t i = 0; i < n; ++i) d[i] = byte_at(f, i);
		CHECK(f.fd >= 0 && write(f.fd, d.data(), n) == (ssize_t)n, "memfd"); f.name[0] = strf("/proc/self/fd/%d", f.fd); f.name[1] = strf("/proc/self/./fd/%d", f.fd); v.push_back(f);
	}
	return v;
}
struct Key { int file, name; uint64_t off, size, vaddr; bool operator<(const Key &o) const { return std::tie(file, name, off, size, vaddr) < std::tie(o.file, o.name, o.off, o.size, o.vaddr); } };
struct Op { int kind; Key k; uint64_t req, a, b; };
static Key gen_key(Source &s, unsigned small)
{
	auto &v = files(); Key k; k.file = (int)s.below(v.size()); k.name = s.chance(1, 8); uint64_t n = v[(size_t)k.file].size; static const uint64_t offs[] = {0, 1, 4096, 4095, 16, 60};
	k.off = s.chance(1, 6) ? s.below(n) : offs[s.below(small)]; if (k.off >= n) k.off = 0;
	switch (s.below(4)) { case 0: k.size = n - k.off; break; case 1: k.size = s.range(1, 64); break; case 2: k.size = s.range(1, n); break; default: k.size = n; }
	if (k.size > n - k.off) k.size = n - k.off;
	k.vaddr = 0x1000 * s.below(small); return k;
}
static const char *const opname[] = {"add", "read", "image", "limit", "hold", "bcache"};

static void run_threads(Source &s, Ctx &c, unsigned nthreads, unsigned maxops, bool controlled = false)
{
	auto &fv = files(); pt_image_section_cache *ic = pt_iscache_alloc("threads"); CHECK(ic, "alloc");
	unsigned nk = (unsigned)s.range(1, 8); std::vector<Key> keys; for (unsigned i = 0; i < nk; ++i) keys.push_back(gen_key(s, 4));
	std::vector<std::vector<Op>> prog(nthreads); uint64_t h = 0; uint64_t nops = 0;
	for (auto &p : prog) for (unsigned n = (unsigned)s.range(1, maxops); n; --n) {
		Op o; o.kind = (int)s.weighted({4, 6, 4, 1, 2, 4}); o.k = s.pick(keys); o.req = o.k.off + o.k.size == fv[(size_t)o.k.file].size && s.flip() ? o.k.size + s.below(1 << 20) : o.k.size;
		o.a = o.kind == 3 ? (s.chance(1, 3) ? 0 : s.interesting(18)) : s.below(o.k.size); o.b = s.chance(1, 4) ? s.range(1, 8000) : s.range(1, 40); p.push_back(o); nops++;
		h = mix(h, (uint64_t)o.kind * 31 + o.k.size); h = mix(h, o.a);
	}
	c.describe([&] { std::string d; for (unsigned t = 0; t < nthreads; ++t) { d += strf("thread %u:", t); for (auto &o : prog[t]) d += strf(" %s(%d+%llx,%llx@%llx: %llx %llx)", opname[o.kind], o.k.file, (unsigned long long)o.k.off, (unsigned long long)o.req, (unsigned long long)o.k.vaddr, (unsigned long long)o.a, (unsigned long long)o.b); d += "\n"; } return d; });
	std::vector<std::string> err(nthreads); std::vector<std::map<Key, int>> ids(nthreads);
	auto body = [&](unsigned t) {
		try {
			auto &fvs = fv; auto &my = ids[t]; pt_image *img = pt_image_alloc(nullptr); std::map<Key, bool> inimg; uint64_t next = 0x100000000ull; (void)next;
			struct Held { pt_section *s; }; std::vector<Held> held; std::vector<uint8_t> buf(1 << 16);
			auto expect = [&](const Key &k, uint64_t a, const uint8_t *p, int n, uint64_t want, const char *what) {
				uint64_t m = k.size - a; if (m > want) m = want; CHECK(n == (int)m, "%s of %llu bytes at %llx of a section of %llx bytes: %d", what, (unsigned long long)want, (unsigned long long)a, (unsigned long long)k.size, n);
				for (int i = 0; i < n; ++i) CHECK(p[i] == byte_at(fvs[(size_t)k.file], k.off + a + (uint64_t)i), "%s: byte %d at %llx is %02x, expected %02x", what, i, (unsigned long long)a, p[i], byte_at(fvs[(size_t)k.file], k.off + a + (uint64_t)i));
			};
			auto add = [&](const Key &k, uint64_t req) { int id = pt_iscache_add_file(ic, fvs[(size_t)k.file].name[k.name].c_str(), k.off, req, k.vaddr); CHECK(id > 0, "add: %d", id); auto it = my.find(k); if (it == my.end()) my[k] = id; else CHECK(it->second == id, "add: isid %d, before it was %d", id, it->second); return id; };
			for (auto &o : prog[t]) {
				switch (o.kind) {
				case 0: add(o.k, o.req); break;
				case 1: { int id = my.count(o.k) ? my[o.k] : add(o.k, o.req); int n = pt_iscache_read(ic, buf.data(), o.b, id, o.k.vaddr + o.a); expect(o.k, o.a, buf.data(), n, o.b, "read"); break; }
				case 2: {
					int id = my.count(o.k) ? my[o.k] : add(o.k, o.req); pt_asid as; pt_asid_init(&as); as.cr3 = (uint64_t)id << 12;
					if (!inimg[o.k]) { int e = pt_image_add_cached(img, ic, id, &as); CHECK(e == 0, "add_cached: %d", e); inimg[o.k] = true; }
					int isid = -1; uint16_t want = (uint16_t)(o.b > 4096 ? 4096 : o.b); int n = pt_image_read(img, &isid, buf.data(), want, &as, o.k.vaddr + o.a); CHECK(n < 0 || isid == id, "image read: isid %d, expected %d", isid, id); expect(o.k, o.a, buf.data(), n, want, "image read"); break;
				}
				case 3: { int e = pt_iscache_set_limit(ic, o.a); CHECK(e == 0, "set_limit: %d", e); break; }
				case 4: case 5: {
					int id = my.count(o.k) ? my[o.k] : add(o.k, o.req); pt_section *sec = nullptr; uint64_t la = 0; int e = pt_iscache_lookup(ic, &sec, &la, id); CHECK(e == 0 && sec && la == o.k.vaddr, "lookup: %d", e);
					e = pt_section_map(sec); CHECK(e == 0, "map: %d", e);
					if (o.kind == 5) { e = pt_section_alloc_bcache(sec); CHECK(e == 0, "alloc_bcache: %d", e); CHECK(pt_section_bcache(sec), "no block cache"); }
					uint16_t want = (uint16_t)(o.b > 4096 ? 4096 : o.b); int n = pt_section_read(sec, buf.data(), want, o.a); expect(o.k, o.a, buf.data(), n, want, "section read");
					if (o.kind == 4) held.push_back({sec}); else { e = pt_section_unmap(sec); CHECK(e == 0, "unmap: %d", e); e = pt_section_put(sec); CHECK(e == 0, "put: %d", e); }
					if (held.size() > 2) { e = pt_section_unmap(held[0].s); CHECK(e == 0, "unmap: %d", e); e = pt_section_put(held[0].s); CHECK(e == 0, "put: %d", e); held.erase(held.begin()); }
					break;
				}
				}
			}
			for (auto &x : held) { int e = pt_section_unmap(x.s); CHECK(e == 0, "unmap: %d", e); e = pt_section_put(x.s); CHECK(e == 0, "put: %d", e); }
			pt_image_free(img);
		} catch (const Failure &f) { err[t] = f.msg; }
	};
	std::vector<std::function<void()>> th; for (unsigned t = 0; t < nthreads; ++t) th.push_back([&body, t] { body(t); }); sched::run(th, controlled ? &s : nullptr); if (controlled) c.label("thread switches", sched::switches());
	for (unsigned t = 0; t < nthreads; ++t) CHECK(err[t].empty(), "thread %u: %s", t, err[t].c_str());
	std::map<Key, int> all; std::map<int, Key> inv;
	for (auto &m : ids) for (auto &e : m) { auto it = all.find(e.first); CHECK(it == all.end() || it->second == e.second, "the same section got isids %d and %d", it->second, e.second); all[e.first] = e.second; auto jt = inv.find(e.second); CHECK(jt == inv.end() || (!(jt->second < e.first) && !(e.first < jt->second)), "isid %d denotes two sections", e.second); inv.insert({e.second, e.first}); }
	int e = pt_iscache_set_limit(ic, 0); CHECK(e == 0, "set_limit: %d", e);
	pt_iscache_free(ic);
	c.label("operations", nops); c.label("sections", all.size());
	if (nops >= nthreads * 2 && all.size() >= 1) c.nontrivial(h);
}
} // namespace ict
