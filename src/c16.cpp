// C16: perf_event records are read and written faithfully.
#include "pevrec.hpp"

struct Conf {
	pev_config c; unsigned def = 0; std::vector<std::pair<uint64_t, unsigned>> types; std::vector<uint8_t> mem;
	Conf(Source &s)
	{
		pev_config_init(&c); for (unsigned b : sbits) if (s.flip()) def |= b; if (s.chance(1, 3)) { def |= s_ident; size_t n = s.below(5); for (size_t i = 0; i < n; ++i) { unsigned t = s_ident; for (unsigned b : sbits) if (s.flip()) t |= b; types.push_back({s.chance(1, 4) ? s.bits(64) : 10 + i, t}); }
			mem.resize(sizeof(pev_sample_config) + n * sizeof(pev_sample_type)); pev_sample_config *sc = (pev_sample_config *)mem.data(); sc->nstypes = (decltype(sc->nstypes))n; for (size_t i = 0; i < n; ++i) { sc->stypes[i].identifier = types[i].first; sc->stypes[i].sample_type = types[i].second; } c.sample_config = sc; }
		c.sample_type = def; c.time_shift = (uint16_t)s.below(33); c.time_mult = (uint32_t)(s.chance(1, 8) ? s.bits(32) : s.bits(31)) | 1u << s.below(31); c.time_zero = s.flip() ? s.bits(48) : s.interesting(64);
	}
	unsigned type(uint64_t ident) const { if (c.sample_config) for (auto &t : types) if (t.first == ident) return t.second; return def; }
};
static uint64_t to_tsc(const pev_config &c, uint64_t t) { if (!t) return 0; unsigned __int128 x = (unsigned __int128)(t - c.time_zero) << c.time_shift; return (uint64_t)(x / c.time_mult); }

static Rec gen(Source &s, const Conf &cf)
{
	Rec r; r.type = (uint32_t)known[s.below(sizeof(known) / sizeof(known[0]))]; r.misc = (uint16_t)s.bits(16);
	for (const char *f = fields((int)r.type); *f; ++f) if (*f == 's') { size_t n = s.chance(1, 300) ? (size_t)s.range(65300, 65540) : (size_t)s.below(s.chance(1, 8) ? 300 : 24); for (size_t i = 0; i < n; ++i) r.str += (char)(n > 1000 ? 'a' + i % 26 : s.range(1, 255)); } else r.v.push_back(s.chance(1, 3) ? s.bits((unsigned)(*f - '0') * 8) : s.interesting((unsigned)(*f - '0') * 8));
	r.ident = !cf.types.empty() && !s.chance(1, 6) ? cf.types[s.below(cf.types.size())].first : s.interesting(64); r.st = cf.type(r.ident);
	r.pid = (uint32_t)s.interesting(32); r.tid = (uint32_t)s.interesting(32); r.cpu = (uint32_t)s.below(256); r.time = s.chance(1, 8) ? 0 : cf.c.time_zero + s.bits(40); r.id = s.interesting(64); r.stream = s.bits(64);
	return r;
}
// An event object for the record.
struct Ev {
	pev_event e; void *obj = nullptr; const Rec &r;
	Ev(const Rec &rec) : r(rec)
	{
		pev_event_init(&e); e.type = r.type; e.misc = r.misc; size_t i = 0; auto al = [&](size_t n) { obj = malloc(n + r.str.size() + 1); memset(obj, 0x5c, n + r.str.size() + 1); return obj; };
		switch (r.type) {
		case t_mmap: { auto *p = (pev_record_mmap *)al(sizeof(pev_record_mmap)); p->pid = (uint32_t)r.v[i++]; p->tid = (uint32_t)r.v[i++]; p->addr = r.v[i++]; p->len = r.v[i++]; p->pgoff = r.v[i++]; memcpy(p->filename, r.str.c_str(), r.str.size() + 1); e.record.mmap = p; break; }
		case t_lost: { auto *p = (pev_record_lost *)al(sizeof(pev_record_lost)); p->id = r.v[0]; p->lost = r.v[1]; e.record.lost = p; break; }
		case t_comm: { auto *p = (pev_record_comm *)al(sizeof(pev_record_comm)); p->pid = (uint32_t)r.v[0]; p->tid = (uint32_t)r.v[1]; memcpy(p->comm, r.str.c_str(), r.str.size() + 1); e.record.comm = p; break; }
		case t_exit: { auto *p = (pev_record_exit *)al(sizeof(pev_record_exit)); p->pid = (uint32_t)r.v[0]; p->ppid = (uint32_t)r.v[1]; p->tid = (uint32_t)r.v[2]; p->ptid = (uint32_t)r.v[3]; p->time = r.v[4]; e.record.exit = p; break; }
		case t_fork: { auto *p = (pev_record_fork *)al(sizeof(pev_record_fork)); p->pid = (uint32_t)r.v[0]; p->ppid = (uint32_t)r.v[1]; p->tid = (uint32_t)r.v[2]; p->ptid = (uint32_t)r.v[3]; p->time = r.v[4]; e.record.fork = p; break; }
		case t_throttle: case t_unthrottle: { auto *p = (pev_record_throttle *)al(sizeof(pev_record_throttle)); p->time = r.v[0]; p->id = r.v[1]; p->stream_id = r.v[2]; e.record.throttle = p; break; }
		case t_mmap2: { auto *p = (pev_record_mmap2 *)al(sizeof(pev_record_mmap2)); p->pid = (uint32_t)r.v[0]; p->tid = (uint32_t)r.v[1]; p->addr = r.v[2]; p->len = r.v[3]; p->pgoff = r.v[4]; p->maj = (uint32_t)r.v[5]; p->min = (uint32_t)r.v[6]; p->ino = r.v[7]; p->ino_generation = r.v[8]; p->prot = (uint32_t)r.v[9]; p->flags = (uint32_t)r.v[10]; memcpy(p->filename, r.str.c_str(), r.str.size() + 1); e.record.mmap2 = p; break; }
		case t_aux: { auto *p = (pev_record_aux *)al(sizeof(pev_record_aux)); p->aux_offset = r.v[0]; p->aux_size = r.v[1]; p->flags = r.v[2]; e.record.aux = p; break; }
		case t_itrace: { auto *p = (pev_record_itrace_start *)al(sizeof(pev_record_itrace_start)); p->pid = (uint32_t)r.v[0]; p->tid = (uint32_t)r.v[1]; e.record.itrace_start = p; break; }
		case t_lost_samples: { auto *p = (pev_record_lost_samples *)al(sizeof(pev_record_lost_samples)); p->lost = r.v[0]; e.record.lost_samples = p; break; }
		case t_switch_wide: { auto *p = (pev_record_switch_cpu_wide *)al(sizeof(pev_record_switch_cpu_wide)); p->next_prev_pid = (uint32_t)r.v[0]; p->next_prev_tid = (uint32_t)r.v[1]; e.record.switch_cpu_wide = p; break; }
		default: break;
		}
		if (r.st & s_tid) { e.sample.pid = &r.pid; e.sample.tid = &r.tid; } if (r.st & s_time) e.sample.time = &r.time; if (r.st & s_id) e.sample.id = &r.id; if (r.st & s_stream) e.sample.stream_id = &r.stream; if (r.st & s_cpu) e.sample.cpu = &r.cpu; if (r.st & s_ident) e.sample.identifier = &r.ident;
	}
	~Ev() { free(obj); }
};
static const void *object(const pev_event &e) { return e.record.mmap; }
template <class T> static T at(const void *p) { T t; memcpy(&t, p, sizeof(t)); return t; }
static std::string fieldtext(const pev_event &e, const Rec &r)
{
	if (r.type == t_switch) return "";
	std::string s; switch (r.type) {
	case t_mmap: { auto *p = e.record.mmap; s = strf("%u %u %llx %llx %llx ", p->pid, p->tid, (unsigned long long)p->addr, (unsigned long long)p->len, (unsigned long long)p->pgoff) + p->filename; break; }
	case t_lost: s = strf("%llx %llx", (unsigned long long)e.record.lost->id, (unsigned long long)e.record.lost->lost); break;
	case t_comm: s = strf("%u %u ", e.record.comm->pid, e.record.comm->tid) + e.record.comm->comm; break;
	case t_exit: { auto *p = e.record.exit; s = strf("%u %u %u %u %llx", p->pid, p->ppid, p->tid, p->ptid, (unsigned long long)p->time); break; }
	case t_fork: { auto *p = e.record.fork; s = strf("%u %u %u %u %llx", p->pid, p->ppid, p->tid, p->ptid, (unsigned long long)p->time); break; }
	case t_throttle: case t_unthrottle: { auto *p = e.record.throttle; s = strf("%llx %llx %llx", (unsigned long long)p->time, (unsigned long long)p->id, (unsigned long long)p->stream_id); break; }
	case t_mmap2: { auto *p = e.record.mmap2; s = strf("%u %u %llx %llx %llx %u %u %llx %llx %u %u ", p->pid, p->tid, (unsigned long long)p->addr, (unsigned long long)p->len, (unsigned long long)p->pgoff, p->maj, p->min, (unsigned long long)p->ino, (unsigned long long)p->ino_generation, p->prot, p->flags) + p->filename; break; }
	case t_aux: { auto *p = e.record.aux; s = strf("%llx %llx %llx", (unsigned long long)p->aux_offset, (unsigned long long)p->aux_size, (unsigned long long)p->flags); break; }
	case t_itrace: s = strf("%u %u", e.record.itrace_start->pid, e.record.itrace_start->tid); break;
	case t_lost_samples: s = strf("%llx", (unsigned long long)e.record.lost_samples->lost); break;
	case t_switch_wide: s = strf("%u %u", e.record.switch_cpu_wide->next_prev_pid, e.record.switch_cpu_wide->next_prev_tid); break;
	default: break;
	}
	return s;
}
// Compare an event that was read with what it should be.
static void compare(const pev_event &e, const Rec &r, const Conf &cf, const uint8_t *b, size_t n)
{
	Ev w(r); CHECK(e.type == r.type && e.misc == r.misc, "type %u misc %x", e.type, e.misc);
	if (r.type != t_switch) CHECK(object(e) == b + 8, "record at %td", (const uint8_t *)object(e) - b);
	std::string x = fieldtext(e, r), y = fieldtext(w.e, r); CHECK(x == y, "record: %s, expected %s", x.c_str(), y.c_str());
	auto in = [&](const void *p, size_t z) { const uint8_t *q = (const uint8_t *)p; return q >= b && q + z <= b + n; };
#define S(f, bit, val) CHECK(!!e.sample.f == !!(r.st & bit), "sample " #f " %s", e.sample.f ? "provided" : "missing"); if (e.sample.f) { CHECK(in(e.sample.f, sizeof(*e.sample.f)), "sample " #f " outside of the record"); CHECK(at<std::remove_const_t<std::remove_reference_t<decltype(*e.sample.f)>>>(e.sample.f) == val, "sample " #f ": %llx", (unsigned long long)*e.sample.f); }
	S(pid, s_tid, r.pid) S(tid, s_tid, r.tid) S(time, s_time, r.time) S(id, s_id, r.id) S(stream_id, s_stream, r.stream) S(cpu, s_cpu, r.cpu) S(identifier, s_ident, r.ident)
#undef S
	if (r.st & s_time) CHECK(e.sample.tsc == to_tsc(cf.c, r.time), "time %llx: tsc %llx, expected %llx (zero %llx shift %u mult %x)", (unsigned long long)r.time, (unsigned long long)e.sample.tsc, (unsigned long long)to_tsc(cf.c, r.time), (unsigned long long)cf.c.time_zero, cf.c.time_shift, cf.c.time_mult);
}
struct Mem { uint8_t *p; size_t n; Mem(size_t z) : p((uint8_t *)malloc(z ? z : 1)), n(z) { memset(p, 0xcd, z ? z : 1); } ~Mem() { free(p); } };

// --- a stream of records is written and read back ---
static void stream(Source &s, Ctx &c)
{
	Conf cf(s); std::vector<Rec> rs; size_t n = s.range(1, 8); for (size_t i = 0; i < n; ++i) rs.push_back(gen(s, cf)); c.describe([&] { std::string t; for (auto &r : rs) t += str(r) + "\n"; return t; });
	Bytes all; std::vector<Bytes> one; for (auto &r : rs) { one.push_back(layout(r)); bool big = payload(r).size() + 60 > 65535; if (!big) all.insert(all.end(), one.back().begin(), one.back().end()); }
	size_t room = s.chance(1, 3) ? s.below(all.size() + 1) : all.size() + (s.flip() ? 0 : s.below(20)); Mem m(room); size_t pos = 0, done = 0; std::vector<const Rec *> got;
	for (size_t i = 0; i < n; ++i) {
		Ev e(rs[i]); bool big = one[i].size() > 65535, skip = payload(rs[i]).size() + 60 > 65535; pev_event in = e.e;
		if (skip) { Mem x(70000); int st = pev_write(&e.e, x.p, x.p + x.n, &cf.c); CHECK(big ? st < 0 : st == (int)one[i].size(), "writing a record of %zu bytes: %d", one[i].size(), st); if (!big) CHECK(!memcmp(x.p, one[i].data(), one[i].size()), "record of %zu bytes", one[i].size()); if (!big) { pev_event g; st = pev_read(&g, x.p, x.p + x.n, &cf.c); CHECK(st == (int)one[i].size(), "reading a record of %zu bytes: %d", one[i].size(), st); compare(g, rs[i], cf, x.p, one[i].size()); } continue; }
		int st = pev_write(&e.e, m.p + pos, m.p + room, &cf.c); CHECK(!memcmp(&in, &e.e, sizeof(in)), "event changed");
		if (pos + one[i].size() > room) { CHECK(st == -pte_eos, "writing a record of %zu bytes into %zu bytes: %d", one[i].size(), room - pos, st); continue; }
		CHECK(st == (int)one[i].size(), "writing %s: %d, expected %zu", str(rs[i]).c_str(), st, one[i].size());
		CHECK(!memcmp(m.p + pos, one[i].data(), one[i].size()), "written: %s\nexpected: %s", hex(m.p + pos, one[i].size()).c_str(), hex(one[i].data(), one[i].size()).c_str());
		pos += one[i].size(); got.push_back(&rs[i]); done++;
	}
	size_t at = 0; for (auto *r : got) { Bytes w = layout(*r); pev_event e; memset(&e, 0xa5, sizeof(e)); size_t lim = s.flip() ? pos : s.flip() ? at + w.size() : room; int st = pev_read(&e, m.p + at, m.p + lim, &cf.c); CHECK(st == (int)w.size(), "reading %s: %d, expected %zu", str(*r).c_str(), st, w.size()); compare(e, *r, cf, m.p + at, w.size());
		// Write what we read.
		Mem x(w.size()); st = pev_write(&e, x.p, x.p + x.n, &cf.c); CHECK(st == (int)w.size() && !memcmp(x.p, w.data(), w.size()), "writing what was read: %d", st);
		at += w.size(); c.label(strf("type %u", r->type).c_str()); }
	if (done) c.nontrivial(fnv(m.p, pos)); c.label("records", done); if (!cf.types.empty()) c.label("several sample types");
}

// --- reading anything ---
// An independent parser: 0: accept, negative: reject
static bool parse(const Bytes &b, const Conf &cf, Rec &r, size_t &size, bool &opaque)
{
	opaque = false; if (b.size() < 8) return false; r.type = (uint32_t)get(b.data(), 4); r.misc = (uint16_t)get(&b[4], 2); size = (size_t)get(&b[6], 2); if (size < 8 || !r.type || size > b.size()) return false;
	const char *f = fields((int)r.type); if (!f || r.type > 15) { opaque = true; return true; }
	size_t p = 8; for (; *f; ++f) {
		if (*f == 's') { size_t q = p; while (q < size && b[q]) q++; if (q >= size) return false; r.str.assign((const char *)&b[p], q - p); p += (q - p + 1 + 7) & ~(size_t)7; }
		else { unsigned z = (unsigned)(*f - '0'); if (p + z > size) return false; r.v.push_back(get(&b[p], z)); p += z; }
	}
	if (p > size) return false;
	r.st = cf.def; if (cf.c.sample_config && size - p >= 8) r.st = cf.type(get(&b[size - 8], 8));
	for (unsigned bit : sbits) if (r.st & bit) { if (p + 8 > size) return false; uint64_t v = get(&b[p], 8); p += 8; switch (bit) { case s_tid: r.pid = (uint32_t)v; r.tid = (uint32_t)(v >> 32); break; case s_time: r.time = v; break; case s_id: r.id = v; break; case s_stream: r.stream = v; break; case s_cpu: r.cpu = (uint32_t)v; break; default: r.ident = v; } }
	return p == size;
}
static void reading(Source &s, Ctx &c)
{
	Conf cf(s); Rec g = gen(s, cf); if (g.str.size() > 1000) g.str.resize(20); Bytes b = layout(g); unsigned damage = (unsigned)s.below(4);
	for (unsigned i = 0; i < damage; ++i) switch (s.below(7)) {
	case 0: b[s.below(std::min<size_t>(b.size(), 8))] = s.byte(); break; case 1: if (b.size() >= 8) { uint16_t z = (uint16_t)(s.flip() ? get(&b[6], 2) + s.range(0, 32) - 16 : s.bits(16)); b[6] = (uint8_t)z; b[7] = (uint8_t)(z >> 8); } break;
	case 2: b[s.below(b.size())] = s.byte(); break; case 3: b.resize(s.range(1, b.size())); break; case 4: { size_t n = s.range(1, 40); for (size_t k = 0; k < n; ++k) b.push_back(s.byte()); break; }
	case 5: if (b.size() >= 8) { b[0] = (uint8_t)s.below(20); b[1] = b[2] = b[3] = 0; } break; default: { size_t a = s.below(b.size()), n = s.below(12); for (size_t k = a; k < a + n && k < b.size(); ++k) b[k] = s.flip() ? 1 : 0; } }
	Mem m(b.size()); memcpy(m.p, b.data(), b.size()); Rec r; size_t size = 0; bool opaque; bool ok = parse(b, cf, r, size, opaque); pev_event e; memset(&e, 0xa5, sizeof(e)); c.describe([&] { return strf("sample type %x, %zu types: ", cf.def, cf.types.size()) + hex(b.data(), b.size()); });
	int st = pev_read(&e, m.p, m.p + b.size(), &cf.c);
	if (!ok) { CHECK(st < 0, "malformed record accepted: %d", st); if (b.size() < 8 || (get(&b[6], 2) > b.size() && get(b.data(), 4))) CHECK(st == -pte_eos, "truncated record: %d", st); }
	else { CHECK(st == (int)size, "record: %d, expected %zu", st, size); if (!opaque) compare(e, r, cf, m.p, size); else CHECK(e.type == r.type && e.misc == r.misc, "type %u misc %x", e.type, e.misc); }
	CHECK(!memcmp(m.p, b.data(), b.size()), "buffer changed"); c.label(ok ? opaque ? "opaque" : "accepted" : "rejected"); if (damage) c.nontrivial(fnv(b.data(), b.size()));
}

// --- incomplete events and configurations ---
static void incomplete(Source &s, Ctx &c)
{
	Conf cf(s); Rec r = gen(s, cf); if (r.str.size() > 1000) r.str.resize(20); Bytes w = layout(r); Ev e(r); Mem m(w.size() + 64); pev_config k = cf.c; bool fail = false; std::string how; int want = 0;
	switch (s.below(5)) {
	case 0: { unsigned bit = sbits[s.below(6)]; bool had = r.st & bit; switch (bit) { case s_tid: if (had) e.e.sample.tid = nullptr; else { e.e.sample.pid = &r.pid; e.e.sample.tid = &r.tid; } break; case s_time: e.e.sample.time = had ? nullptr : &r.time; break; case s_id: e.e.sample.id = had ? nullptr : &r.id; break; case s_stream: e.e.sample.stream_id = had ? nullptr : &r.stream; break; case s_cpu: e.e.sample.cpu = had ? nullptr : &r.cpu; break; default: e.e.sample.identifier = had ? nullptr : &r.ident; }
		fail = true; how = strf("sample %x %s", bit, had ? "missing" : "added"); break; }
	case 1: if (r.st & s_tid) { e.e.sample.pid = nullptr; fail = true; how = "no pid"; } break;
	case 2: { static const uint32_t bad[] = {0, t_read, t_sample, 16, 17, 100, 0x10001}; e.e.type = s.flip() ? bad[s.below(7)] : (uint32_t)s.bits(32) | 0x1000; fail = true; want = -pte_bad_opc; how = strf("type %u", e.e.type); break; }
	case 3: k.size = s.below(sizeof(k.size) + 1) ; fail = true; want = -pte_bad_config; how = strf("configuration of %zu bytes", k.size); break;
	default: { k.size = offsetof(pev_config, sample_config); fail = !cf.types.empty() && cf.def != r.st; how = "old configuration"; break; }
	}
	c.describe([&] { return str(r) + ": " + how; }); size_t room = w.size() + 64; int st = pev_write(&e.e, m.p, m.p + room, &k);
	if (want) CHECK(st == want, "%s: %d, expected %d", how.c_str(), st, want); else if (fail) CHECK(st < 0, "%s: %d", how.c_str(), st); else { CHECK(st == (int)w.size() && !memcmp(m.p, w.data(), w.size()), "%s: %d", how.c_str(), st); }
	pev_event g; CHECK(pev_write(nullptr, m.p, m.p + room, &k) == -pte_internal && pev_write(&e.e, nullptr, m.p + room, &k) == -pte_internal && pev_read(nullptr, m.p, m.p + room, &k) == -pte_internal && pev_read(&g, nullptr, m.p + room, &k) == -pte_internal, "missing arguments");
	if (s.flip()) { // an older configuration when reading
		Mem x(w.size()); memcpy(x.p, w.data(), w.size()); static const size_t z[] = {offsetof(pev_config, time_shift), offsetof(pev_config, time_mult), offsetof(pev_config, time_zero), offsetof(pev_config, sample_config)}; pev_config o = cf.c; o.size = z[s.below(4)]; if (o.size < offsetof(pev_config, time_zero) + 8 && r.time == 0) r.time = 0; st = pev_read(&g, x.p, x.p + x.n, &o);
		if (o.size == z[3]) { if (cf.def == r.st) CHECK(st == (int)w.size(), "old configuration: %d", st); } else if (cf.def == r.st && (r.st & s_time) && r.time) CHECK(st == -pte_bad_config, "configuration of %zu bytes: %d", o.size, st); else if (cf.def == r.st) CHECK(st == (int)w.size(), "configuration of %zu bytes: %d", o.size, st); }
	if (fail) c.nontrivial(mix(fnv(w.data(), w.size()), fnv(how.data(), how.size())));
}

// --- time ---
static void times(Source &s, Ctx &c)
{
	Conf cf(s); pev_config k = cf.c; uint64_t t = s.interesting(64), x = 0, y = 0; if (s.flip()) t = s.bits((unsigned)s.range(1, 64)); 
	unsigned __int128 f = ((unsigned __int128)t * k.time_mult) >> k.time_shift; c.describe([&] { return strf("tsc %llx zero %llx shift %u mult %x", (unsigned long long)t, (unsigned long long)k.time_zero, k.time_shift, k.time_mult); });
	int st = pev_time_from_tsc(&x, t, &k); CHECK(st == 0, "from tsc: %d", st);
	if (!(f >> 64)) {
		CHECK(x == k.time_zero + (uint64_t)f, "time %llx, expected %llx", (unsigned long long)x, (unsigned long long)(k.time_zero + (uint64_t)f)); st = pev_time_to_tsc(&y, x, &k); CHECK(st == 0, "to tsc: %d", st);
		if (!x) CHECK(y == 0, "time zero: tsc %llx", (unsigned long long)y);
		else { uint64_t res = (uint64_t)(((1ull << k.time_shift) + k.time_mult - 1) / k.time_mult); CHECK(y <= t && t - y <= res, "tsc %llx to time %llx to tsc %llx, resolution %llx", (unsigned long long)t, (unsigned long long)x, (unsigned long long)y, (unsigned long long)res); uint64_t z = 0; pev_time_from_tsc(&z, y, &k); CHECK(x - z <= ((uint64_t)k.time_mult >> k.time_shift) + 1, "time %llx to tsc to time %llx", (unsigned long long)x, (unsigned long long)z); }
		c.nontrivial(mix(t, mix(k.time_zero, k.time_mult * 64ull + k.time_shift)));
	}
	uint64_t w = s.interesting(64); unsigned __int128 g = ((unsigned __int128)(w - k.time_zero) << k.time_shift) / k.time_mult; st = pev_time_to_tsc(&y, w, &k); CHECK(st == 0, "to tsc: %d", st); if (!w) CHECK(y == 0, "time zero"); else if (!(g >> 64)) CHECK(y == (uint64_t)g, "time %llx: tsc %llx, expected %llx", (unsigned long long)w, (unsigned long long)y, (unsigned long long)g);
	k.time_mult = 0; CHECK(pev_time_from_tsc(&x, t, &k) == -pte_bad_config && pev_time_to_tsc(&x, t | 1, &k) == -pte_bad_config, "no multiplier"); k = cf.c; k.size = s.below(offsetof(pev_config, sample_config)); CHECK(pev_time_from_tsc(&x, t, &k) == -pte_bad_config && pev_time_to_tsc(&x, t | 1, &k) == -pte_bad_config, "configuration of %zu bytes", k.size);
	CHECK(pev_time_from_tsc(nullptr, t, &cf.c) == -pte_internal && pev_time_to_tsc(nullptr, t, &cf.c) == -pte_internal && pev_time_from_tsc(&x, t, nullptr) == -pte_internal && pev_time_to_tsc(&x, t, nullptr) == -pte_internal, "missing arguments");
}

int main(int argc, char **argv)
{
	return run_main(argc, argv, "C16", {
		{"C16", "stream", "one to eight records written into a buffer that may be too small, compared with the documented layout, and read back; at least one record", stream, 500000, 20000000},
		{"C16", "reading", "a record, damaged, read from an exactly sized buffer and compared with an independent parser; damaged", reading, 1000000, 40000000},
		{"C16", "incomplete", "missing or additional samples, unknown types, smaller configurations", incomplete, 500000, 20000000},
		{"C16", "time", "conversions between perf time and TSC compared with 128-bit arithmetic; without overflow", times, 1000000, 40000000},
	});
}
