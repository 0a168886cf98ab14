// C11: the image section cache returns the right bytes and identifiers for any history.
#include "icthreads.hpp"
#include "wrap.hpp"
#include <algorithm>
#include <climits>
#include <set>
using namespace pbt; using namespace ict;

struct Ent { Key k; int isid; int obj; };
struct Obj { Key k; uint64_t lastuse = 0; bool fits = false, infile = false; uint64_t bc = 0; bool attached = true; int holds = 0; };	// k.vaddr unused

struct Sparse : File {};
static File &sparse()
{
	static File f{-1, {}, 0, 0}; if (f.fd >= 0) return f;
	f.fd = memfd_create("big", 0); f.size = 0x180000000ull; f.salt = 1; CHECK(f.fd >= 0 && ftruncate(f.fd, (off_t)f.size) == 0, "memfd"); f.name[0] = strf("/proc/self/fd/%d", f.fd);
	static const uint64_t at[] = {0, 0x7fff0000, 0x7ffff000, 0x80000000, 0xfffff000, 0x100000000, 0x17fff0000};
	for (uint64_t o : at) { std::vector<uint8_t> d(0x2000); for (size_t i = 0; i < d.size(); ++i) d[i] = byte_at(f, o + i); CHECK(pwrite(f.fd, d.data(), d.size(), (off_t)o) == (ssize_t)d.size(), "pwrite"); }
	return f;
}

static void history(Source &s, Ctx &c)
{
	auto &fv = files(); wr::Guard g; pt_image_section_cache *ic = pt_iscache_alloc(s.flip() ? "cache" : nullptr); CHECK(ic, "alloc");
	pt_image *img[2] = {pt_image_alloc("a"), pt_image_alloc(nullptr)};
	std::vector<Ent> ents; std::vector<Obj> objs; std::vector<std::pair<Key, int>> piece[2]; std::vector<int> pobj[2];
	struct Held { pt_section *s; int obj; uint64_t vaddr; }; std::vector<Held> held; uint64_t limit = UINT64_MAX, now = 0; bool nommap = false; unsigned evictions = 0, reads = 0, shared = 0, hits = 0;
	std::vector<Key> pool; for (unsigned n = (unsigned)s.range(1, 6); n; --n) pool.push_back(gen_key(s, 6));
	std::vector<uint8_t> buf(70000); uint64_t h = 0;
	auto note = [&](const std::string &l) { h = fnv(l.data(), l.size(), h); if (c.want_describe) c.log("%s\n", l.c_str()); };
	auto same = [](const Key &a, const Key &b) { return a.file == b.file && a.name == b.name && a.off == b.off && a.size == b.size; };
	auto find = [&](const Key &k) -> Ent * { for (auto &e : ents) if (same(e.k, k) && e.k.vaddr == k.vaddr) return &e; return nullptr; };
	auto content = [&](const Key &k, uint64_t a, const uint8_t *p, int n, uint64_t want, const char *what) {
		uint64_t m = k.size - a; if (m > want) m = want; CHECK(n == (int)m, "%s of %llu bytes at %llx of a section of %llx bytes: %d", what, (unsigned long long)want, (unsigned long long)a, (unsigned long long)k.size, n);
		for (int i = 0; i < n; ++i) CHECK(p[i] == byte_at(fv[(size_t)k.file], k.off + a + (uint64_t)i), "%s: byte %d at %llx is %02x, expected %02x", what, i, (unsigned long long)a, p[i], byte_at(fv[(size_t)k.file], k.off + a + (uint64_t)i));
	};
	auto resident = [&](int o) { return wr::map_bytes(o + 1); };
	// The object has definitely been mapped by the last operation.
	auto used = [&](int o, uint64_t before) {
		Obj &x = objs[(size_t)o]; if (!x.attached) return; uint64_t pg = x.k.off % 4096 + x.k.size;
		if (before) hits++; x.lastuse = ++now; if (nommap && !before) x.infile = true; if (resident(o)) x.infile = false; x.fits = !x.infile && pg + x.bc <= limit;
	};
	auto settle = [&]() {
		uint64_t sum = 0; 
		for (size_t o = 0; o < objs.size(); ++o) {
			Obj &x = objs[o]; uint64_t r = resident((int)o); if (!r && !x.holds) { if (x.bc) evictions++; x.bc = 0; }
			if (x.holds) continue;
			CHECK(wr::nmaps((int)o + 1) <= 1, "section %zu is mapped %zu times", o, wr::nmaps((int)o + 1));
			CHECK(x.attached || !r, "section %zu is still mapped although it is no longer in the cache", o);
			if (r) { sum += r + x.bc; }
		}
		CHECK(sum <= limit, "the cache keeps %llx bytes mapped with a limit of %llx", (unsigned long long)sum, (unsigned long long)limit);
		for (size_t a = 0; a < objs.size(); ++a) for (size_t b = 0; b < objs.size(); ++b) {
			Obj &x = objs[a], &y = objs[b]; if (x.holds || y.holds || !x.attached || !y.attached || !x.fits || !x.lastuse || !y.lastuse || x.lastuse < y.lastuse || a == b) continue;
			CHECK(resident((int)a) || !resident((int)b), "section %zu has been used after section %zu but only the latter is still mapped", a, b);
		}
		// The last one used is kept if it fits.
		size_t m = objs.size(); for (size_t a = 0; a < objs.size(); ++a) if (objs[a].attached && objs[a].lastuse && (m == objs.size() || objs[a].lastuse > objs[m].lastuse)) m = a;
		if (m < objs.size() && !objs[m].holds && objs[m].fits) { uint64_t pg = objs[m].k.off % 4096 + objs[m].k.size + objs[m].bc; CHECK(pg > limit || resident((int)m), "the section used last has not been kept mapped"); }
	};
	auto lookup = [&](const Ent &e) { pt_section *sec = nullptr; uint64_t la = 0; int r = pt_iscache_lookup(ic, &sec, &la, e.isid); CHECK(r == 0 && sec && la == e.k.vaddr, "lookup of isid %d: %d at %llx, expected %llx", e.isid, r, (unsigned long long)la, (unsigned long long)e.k.vaddr); return sec; };
	auto unhold = [&](size_t i) { Held x = held[i]; held.erase(held.begin() + (long)i); int e = pt_section_unmap(x.s); CHECK(e == 0, "unmap: %d", e); e = pt_section_put(x.s); CHECK(e == 0, "put: %d", e); objs[(size_t)x.obj].holds--; };
	for (unsigned nop = (unsigned)s.range(1, 60); nop; --nop) {
		int op = (int)s.weighted({10, 12, 3, 3, 5, 3, 3, 2, 1, 3, 1});
		if (ents.empty() && (op == 1 || op == 3 || op == 5 || op == 6)) op = 0;
		switch (op) {
		case 0: {	// add_file
			Key k = s.chance(1, 3) ? gen_key(s, 6) : s.pick(pool); if (s.chance(1, 4)) k.vaddr = s.chance(1, 3) ? 0ull - k.size - s.below(2) : s.interesting(48); uint64_t n = fv[(size_t)k.file].size, req = k.size;
			if (k.off + k.size == n && s.chance(1, 3)) req = s.chance(1, 4) ? UINT64_MAX - s.below(3) : k.size + s.below(10000);
			if (s.chance(1, 12)) { k.off = n + s.below(3); }
			wr::tag((int)objs.size() + 1); int id = pt_iscache_add_file(ic, fv[(size_t)k.file].name[k.name].c_str(), k.off, req, k.vaddr); wr::tag(0);
			note(strf("add %d.%d+%llx,%llx @ %llx: %d", k.file, k.name, (unsigned long long)k.off, (unsigned long long)req, (unsigned long long)k.vaddr, id));
			if (k.off >= n) { CHECK(id == -pte_invalid, "add beyond the end of the file: %d", id); break; }
			CHECK(id > 0, "add: %d", id); Ent *e = find(k); if (e) { CHECK(e->isid == id, "add of an identical section: isid %d, expected %d", id, e->isid); break; }
			for (auto &x : ents) CHECK(x.isid != id, "add of a different section: isid %d denotes %d.%d+%llx,%llx@%llx", id, x.k.file, x.k.name, (unsigned long long)x.k.off, (unsigned long long)x.k.size, (unsigned long long)x.k.vaddr);
			Ent ne{k, id, -1}; for (auto &x : ents) if (same(x.k, k)) { ne.obj = x.obj; break; }
			if (ne.obj < 0) { ne.obj = (int)objs.size(); Obj o; o.k = k; objs.push_back(o); }
			else { shared++; pt_section *a = lookup(ne), *b = nullptr; for (auto &x : ents) if (x.obj == ne.obj) { b = lookup(x); break; } CHECK(a == b, "the section is not shared for different load addresses"); pt_section_put(a); pt_section_put(b); }
			ents.push_back(ne); break;
		}
		case 1: {	// read
			const Ent e = s.pick(ents); uint64_t a, n = s.chance(1, 30) ? 65535 + s.below(3) : s.chance(1, 4) ? s.range(1, 9000) : s.range(1, 40);
			switch (s.below(6)) { case 0: a = 0; break; case 1: a = e.k.size - 1; break; case 2: a = e.k.size + s.below(3); break; case 3: a = 0ull - 1 - s.below(3); break; default: a = s.below(e.k.size); }
			uint64_t r = resident(e.obj); if (nommap) wr::fail(wr::MAP, 1, true); wr::tag(e.obj + 1); memset(buf.data(), 0xcc, n + 8 < buf.size() ? n + 8 : buf.size()); int m = pt_iscache_read(ic, buf.data(), n, e.isid, e.k.vaddr + a); wr::tag(0); wr::fail(0, 0);
			note(strf("read isid %d at %llx, %llu bytes: %d", e.isid, (unsigned long long)a, (unsigned long long)n, m)); reads++;
			if (a >= e.k.size) { CHECK(m == -pte_nomap, "read outside of the section: %d", m); if (nommap && !r) objs[(size_t)e.obj].infile = true; if (a < (1ull << 63) || e.k.vaddr + a > e.k.vaddr) { objs[(size_t)e.obj].lastuse = 0; for (auto &x : objs) x.fits = false; } break; }
			content(e.k, a, buf.data(), m, n < 65535 ? n : 65535, "read"); for (int i = m; i < m + 4; ++i) CHECK(buf[(size_t)i] == 0xcc, "read %d bytes but byte %d has been written", m, i);
			used(e.obj, r); break;
		}
		case 2: {	// invalid isids and arguments
			static const int bad[] = {0, -1, INT_MIN, INT_MAX, 65535, 65536, 65537, 65538, 131073, 9, 1000}; int id = bad[s.below(sizeof(bad) / sizeof(bad[0]))]; bool known = false; for (auto &e : ents) if (e.isid == id) known = true;
			if (!known) { int m = pt_iscache_read(ic, buf.data(), 1, id, 0); CHECK(m == -pte_bad_image, "read of unknown isid %d: %d", id, m); m = pt_image_add_cached(img[0], ic, id, nullptr); CHECK(m == (id ? -pte_bad_image : m) && m != 0, "add_cached of unknown isid %d: %d", id, m); }
			if (!ents.empty()) { const Ent e = s.pick(ents); CHECK(pt_iscache_read(ic, buf.data(), 0, e.isid, e.k.vaddr) == -pte_invalid, "read of 0 bytes"); CHECK(pt_iscache_read(ic, nullptr, 1, e.isid, e.k.vaddr) == -pte_invalid, "read without buffer"); }
			CHECK(pt_iscache_add_file(ic, nullptr, 0, 1, 0) == -pte_invalid && pt_iscache_add_file(nullptr, "/x", 0, 1, 0) == -pte_invalid, "add without arguments"); CHECK(pt_iscache_add_file(ic, "/nonexistent/file", 0, 1, 0) < 0, "add of a missing file"); break;
		}
		case 3: {	// find
			Ent e = s.pick(ents); Key k = e.k; unsigned v = (unsigned)s.below(5); if (v == 1) k.vaddr ^= 0x1000; if (v == 2) k.off++; if (v == 3) k.size--; if (v == 4) k.name ^= 1;
			int id = pt_iscache_find(ic, fv[(size_t)k.file].name[k.name].c_str(), k.off, k.size, k.vaddr); Ent *x = find(k); CHECK(id == (x ? x->isid : 0), "find: isid %d, expected %d", id, x ? x->isid : 0); break;
		}
		case 4: { limit = s.chance(1, 5) ? 0 : s.chance(1, 5) ? UINT64_MAX : s.flip() ? s.interesting(14) : s.interesting(18); wr::mark(); int e = pt_iscache_set_limit(ic, limit); note(strf("limit %llx: %d", (unsigned long long)limit, e)); CHECK(e == 0, "set_limit: %d", e); for (auto &o : objs) if (o.k.off % 4096 + o.k.size + o.bc > limit) o.fits = false; if (!limit) for (size_t o = 0; o < objs.size(); ++o) CHECK(objs[o].holds || !resident((int)o), "a section is still mapped with a limit of zero"); break; }
		case 5: {	// hold a mapping or read through it
			if (held.size() > 3) { unhold(s.below(held.size())); break; }
			const Ent e = s.pick(ents); pt_section *sec = lookup(e); uint64_t r = resident(e.obj); if (nommap) wr::fail(wr::MAP, 1, true); wr::tag(e.obj + 1); int m = pt_section_map(sec); wr::tag(0); wr::fail(0, 0); note(strf("map isid %d: %d", e.isid, m)); CHECK(m == 0, "map: %d", m);
			held.push_back({sec, e.obj, e.k.vaddr}); objs[(size_t)e.obj].holds++; used(e.obj, r); break;
		}
		case 6: {	// block cache
			const Ent e = s.pick(ents); pt_section *sec = lookup(e); uint64_t r = resident(e.obj); bool file = nommap; if (file) wr::fail(wr::MAP, 1, true); wr::tag(e.obj + 1); int m = pt_section_map(sec); wr::tag(0); wr::fail(0, 0); CHECK(m == 0, "map: %d", m); objs[(size_t)e.obj].holds++; used(e.obj, r); Obj &o = objs[(size_t)e.obj];
			bool had = pt_section_bcache(sec) != nullptr; CHECK(!had || r || o.bc || o.holds > 1 || nommap || o.infile, "a block cache survived unmapping");
			wr::mark(); m = pt_section_alloc_bcache(sec); CHECK(m == 0 && pt_section_bcache(sec), "alloc_bcache: %d", m); if (!had) o.bc = wr::biggest_since_mark(); note(strf("bcache for isid %d, %llx bytes", e.isid, (unsigned long long)o.bc));
			used(e.obj, 1); uint64_t a = s.below(e.k.size); int n = pt_section_read(sec, buf.data(), 16, a); content(e.k, a, buf.data(), n, 16, "section read");
			m = pt_section_unmap(sec); CHECK(m == 0, "unmap: %d", m); m = pt_section_put(sec); CHECK(m == 0, "put: %d", m); o.holds--; break;
		}
		case 7: {	// add to an image
			if (ents.empty()) break; unsigned i = (unsigned)s.below(2); const Ent e = s.pick(ents); bool over = false; for (auto &p : piece[i]) if (p.first.vaddr <= e.k.vaddr + (e.k.size - 1) && e.k.vaddr <= p.first.vaddr + (p.first.size - 1)) over = true;
			if (over || e.k.vaddr + e.k.size < e.k.vaddr || e.k.vaddr + e.k.size == 0) break;
			int m = pt_image_add_cached(img[i], ic, e.isid, nullptr); note(strf("image %u: isid %d: %d", i, e.isid, m)); CHECK(m == 0, "add_cached: %d", m); piece[i].push_back({e.k, e.isid}); pobj[i].push_back(e.obj); break;
		}
		case 8: {	// clear
			if (!s.chance(1, 2)) break; int m = pt_iscache_clear(ic); note(strf("clear: %d", m)); CHECK(m == 0, "clear: %d", m); ents.clear(); for (auto &o : objs) { o.attached = false; } break;
		}
		case 9: {	// image read
			unsigned i = (unsigned)s.below(2); if (piece[i].empty()) break; size_t j = s.below(piece[i].size()); const Key k = piece[i][j].first; uint64_t a = s.below(k.size); uint16_t n = (uint16_t)(s.chance(1, 4) ? s.range(1, 5000) : s.range(1, 20)); pt_asid as; pt_asid_init(&as); int isid = -1; int o = pobj[i][j]; uint64_t r = resident(o);
			if (nommap) wr::fail(wr::MAP, 1, true); wr::tag(o + 1); int m = pt_image_read(img[i], &isid, buf.data(), n, &as, k.vaddr + a); wr::tag(0); wr::fail(0, 0); note(strf("image %u read at %llx: %d", i, (unsigned long long)(k.vaddr + a), m)); content(k, a, buf.data(), m, n, "image read"); CHECK(isid == piece[i][j].second, "image read: isid %d, expected %d", isid, piece[i][j].second); used(o, r); break;
		}
		case 10: nommap = !nommap; note(nommap ? "mmap fails" : "mmap works"); for (auto &o : objs) o.fits = false; break;
		}
		settle();
	}
	while (!held.empty()) { unhold(held.size() - 1); settle(); }
	bool imgfirst = s.flip(); if (imgfirst) for (auto *i : img) pt_image_free(i);
	pt_iscache_free(ic);
	if (!imgfirst) {
		for (unsigned i = 0; i < 2; ++i) for (auto &p : piece[i]) { pt_asid as; pt_asid_init(&as); int isid; uint64_t a = s.below(p.first.size); int m = pt_image_read(img[i], &isid, buf.data(), 8, &as, p.first.vaddr + a); content(p.first, a, buf.data(), m, 8, "image read after the cache has been freed"); }
		for (auto *i : img) pt_image_free(i);
	}
	std::string l = wr::leaks(); CHECK(l.empty(), "leaked: %s", l.c_str());
	c.label("sections", objs.size()); c.label("reads", reads); c.label("shared for another address", shared); c.label("accesses to sections kept mapped", hits); c.label("evictions with a block cache", evictions);
	if (objs.size() >= 2 && (reads || hits)) c.nontrivial(h);
}

// Many entries: identifiers stay valid while the table grows.
static void growth(Source &s, Ctx &c)
{
	auto &fv = files(); pt_image_section_cache *ic = pt_iscache_alloc(nullptr); CHECK(ic, "alloc"); std::vector<std::pair<Key, int>> e; uint64_t n = s.chance(1, 40) ? s.range(300, 3000) : s.range(1, 80); std::set<int> ids; uint64_t h = n; int nf = (int)s.range(1, 6);
	for (uint64_t i = 0; i < n; ++i) { Key k; k.file = (int)(i % (uint64_t)nf); k.name = 0; uint64_t z = fv[(size_t)k.file].size; k.off = (i / 7) % z; k.size = z - k.off; k.vaddr = i << 16; int id = pt_iscache_add_file(ic, fv[(size_t)k.file].name[0].c_str(), k.off, k.size, k.vaddr); CHECK(id > 0 && ids.insert(id).second, "add %llu: isid %d", (unsigned long long)i, id); e.push_back({k, id}); if (s.chance(1, 8)) { size_t j = s.below(e.size()); CHECK(pt_iscache_add_file(ic, fv[(size_t)e[j].first.file].name[0].c_str(), e[j].first.off, e[j].first.size, e[j].first.vaddr) == e[j].second, "isid of entry %zu changed", j); h = mix(h, j); } }
	for (unsigned r = 0; r < 20; ++r) { auto &x = e[s.below(e.size())]; uint8_t b[8]; uint64_t a = s.below(x.first.size); int m = pt_iscache_read(ic, b, 8, x.second, x.first.vaddr + a); uint64_t w = x.first.size - a < 8 ? x.first.size - a : 8; CHECK(m == (int)w, "read: %d", m); for (int i = 0; i < m; ++i) CHECK(b[i] == byte_at(fv[(size_t)x.first.file], x.first.off + a + (uint64_t)i), "read of isid %d: wrong byte", x.second); }
	pt_iscache_free(ic); c.label("sections", n); if (n > 16) c.nontrivial(h);
}

// Sections of a big file; they may not be mappable.
static void big(Source &s, Ctx &c)
{
	File &f = sparse(); wr::Guard g; pt_image_section_cache *ic = pt_iscache_alloc(nullptr); CHECK(ic, "alloc"); static const uint64_t at[] = {0x7fff0000, 0x7ffff000, 0x80000000, 0xfffff000, 0x100000000, 0x17fff0000, 0}; uint64_t h = 0;
	for (unsigned n = (unsigned)s.range(1, 4); n; --n) {
		uint64_t o = at[s.below(7)] + s.below(0x1000), size = s.chance(1, 3) ? UINT64_MAX : s.chance(1, 3) ? 0x100000000ull + s.below(0x1000) : s.range(1, 0x1000), va = s.interesting(40); int id = pt_iscache_add_file(ic, f.name[0].c_str(), o, size, va); CHECK(id > 0, "add: %d", id); uint64_t z = f.size - o; if (size < z) z = size;
		h = mix(mix(h, o), size);
		for (unsigned r = 0; r < 3; ++r) { uint8_t b[16]; uint64_t a = s.chance(1, 4) ? z - 1 - s.below(z < 20 ? z : 20) : s.below(z < 0x1000 ? z : 0x1000); int m = pt_iscache_read(ic, b, 16, id, va + a); uint64_t w = z - a < 16 ? z - a : 16; CHECK(m == (int)w, "read at %llx of a section of %llx bytes: %d", (unsigned long long)a, (unsigned long long)z, m); for (int i = 0; i < m; ++i) { uint64_t p = o + a + (uint64_t)i; uint8_t x; CHECK(pread(f.fd, &x, 1, (off_t)p) == 1, "pread"); CHECK(b[i] == x, "byte at file offset %llx is %02x, expected %02x", (unsigned long long)p, b[i], x); } }
	}
	if (s.flip()) pt_iscache_set_limit(ic, s.interesting(34));
	pt_iscache_free(ic); std::string l = wr::leaks(); CHECK(l.empty(), "leaked: %s", l.c_str()); c.nontrivial(h);
}

// A file that changes: either its old bytes or an error.
static void changed(Source &s, Ctx &c)
{
	int fd = memfd_create("chg", 0); File f; f.fd = fd; f.size = s.range(1, 9000); f.salt = s.below(100); std::vector<uint8_t> d(f.size); for (size_t i = 0; i < d.size(); ++i) d[i] = byte_at(f, i); CHECK(fd >= 0 && write(fd, d.data(), d.size()) == (ssize_t)d.size(), "memfd"); std::string name = strf("/proc/self/fd/%d", fd);
	pt_image_section_cache *ic = pt_iscache_alloc(nullptr); struct E { int id; uint64_t off, size, va; bool stale; }; std::vector<E> e; uint64_t h = f.size; unsigned ch = 0, bad = 0;
	for (unsigned n = (unsigned)s.range(2, 20); n; --n) switch (s.weighted({4, 6, 2, 2})) {
	case 0: { E x; x.off = s.below(f.size); x.size = s.range(1, 9000); x.va = 0x10000 * s.below(3); x.id = pt_iscache_add_file(ic, name.c_str(), x.off, x.size, x.va); CHECK(x.id > 0, "add: %d", x.id); if (x.size > f.size - x.off) x.size = f.size - x.off; x.stale = false; for (auto &y : e) { if (y.off == x.off && y.size == x.size && y.stale) x.stale = true; } e.push_back(x); h = mix(h, x.off * 17 + x.size); break; }
	case 1: { if (e.empty()) break; auto &x = s.pick(e); uint64_t a = s.below(x.size); uint8_t b[32]; int m = pt_iscache_read(ic, b, 32, x.id, x.va + a); h = mix(h, a); if (x.stale && m == -pte_bad_image) { bad++; break; } uint64_t w = x.size - a < 32 ? x.size - a : 32; CHECK(m == (int)w, "read at %llx of section of %llx bytes: %d%s", (unsigned long long)a, (unsigned long long)x.size, m, x.stale ? " (changed)" : ""); for (int i = 0; i < m; ++i) CHECK(b[i] == byte_at(f, x.off + a + (uint64_t)i), "wrong byte"); break; }
	case 2: { uint64_t o = f.size; f.size += s.range(1, 3000); d.resize(f.size); for (uint64_t i = o; i < f.size; ++i) d[i] = byte_at(f, i); CHECK(pwrite(fd, d.data() + o, f.size - o, (off_t)o) == (ssize_t)(f.size - o), "write"); for (auto &x : e) x.stale = true; ch++; h = mix(h, f.size); break; }
	case 3: CHECK(pt_iscache_set_limit(ic, s.chance(1, 2) ? 0 : s.interesting(15)) == 0, "set_limit"); break;
	}
	pt_iscache_free(ic); close(fd); c.label("reads of changed files refused", bad); if (ch && e.size()) c.nontrivial(h);
}

static void threads(Source &s, Ctx &c) { wr::Guard g; run_threads(s, c, (unsigned)s.range(2, 4), 40); std::string l = wr::leaks(); CHECK(l.empty(), "leaked: %s", l.c_str()); }
// The test case decides which thread runs at each lock operation, allocation and mapping.
static void schedules(Source &s, Ctx &c) { wr::Guard g; wr::hook = sched::point; run_threads(s, c, (unsigned)s.range(2, 3), 8, true); wr::hook = nullptr; std::string l = wr::leaks(); CHECK(l.empty(), "leaked: %s", l.c_str()); }

int main(int argc, char **argv)
{
	files(); sparse();
	return run_main(argc, argv, "C11", {
		{"C11", "history", "1-60 operations on one section cache and two images (add, read, find, limit, map, block cache, clear, failing mmap); at least two file sections and one access", history, 500000, 20000000},
		{"C11", "growth", "1-3000 entries; more than 16", growth, 20000, 500000},
		{"C11", "big", "sections of a 6 GiB sparse file around 2 and 4 GiB", big, 20000, 500000},
		{"C11", "changed", "2-20 operations on a growing file; at least one change with a section", changed, 60000, 2000000},
		{"C11", "threads", "2-4 threads with 1-40 operations each on one section cache; at least one section", threads, 30000, 1000000},
		{"C11", "schedules", "2-3 threads with 1-8 operations each; the case chooses the thread to run at each lock operation, allocation and mapping", schedules, 60000, 3000000},
	});
}
