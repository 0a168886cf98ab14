// perf_event records and their layout.
#pragma once
#include "ptwire.hpp"
#include <cstdlib>
extern "C" {
#include "pevent.h"
}
using namespace pbt;
using wire::Bytes; using wire::put; using wire::get;

// The layout according to perf_event_open(2).
enum { t_mmap = 1, t_lost, t_comm, t_exit, t_throttle, t_unthrottle, t_fork, t_read, t_sample, t_mmap2, t_aux, t_itrace, t_lost_samples, t_switch, t_switch_wide };
enum { s_tid = 0x2, s_time = 0x4, s_id = 0x40, s_cpu = 0x80, s_stream = 0x200, s_ident = 0x10000 };
static const unsigned sbits[] = {s_tid, s_time, s_id, s_stream, s_cpu, s_ident};
static const int known[] = {t_mmap, t_lost, t_comm, t_exit, t_throttle, t_unthrottle, t_fork, t_mmap2, t_aux, t_itrace, t_lost_samples, t_switch, t_switch_wide};
static const char *fields(int t)   // sizes of the fields; s: string
{
	switch (t) {
	case t_mmap: return "44888s"; case t_lost: return "88"; case t_comm: return "44s"; case t_exit: case t_fork: return "44448"; case t_throttle: case t_unthrottle: return "888";
	case t_mmap2: return "448884488" "44s"; case t_aux: return "888"; case t_itrace: return "44"; case t_lost_samples: return "8"; case t_switch: return ""; case t_switch_wide: return "44"; default: return nullptr;
	}
}
struct Rec { uint32_t type; uint16_t misc; std::vector<uint64_t> v; std::string str; unsigned st = 0; uint32_t pid = 0, tid = 0, cpu = 0; uint64_t time = 0, id = 0, stream = 0, ident = 0; };

static Bytes payload(const Rec &r)
{
	Bytes b; size_t i = 0; for (const char *f = fields((int)r.type); *f; ++f) { if (*f == 's') { for (char ch : r.str) b.push_back((uint8_t)ch); b.push_back(0); while (b.size() % 8) b.push_back(0); } else put(b, r.v[i++], (unsigned)(*f - '0')); }
	return b;
}
static Bytes layout(const Rec &r)
{
	Bytes p = payload(r); if (r.st & s_tid) { put(p, r.pid, 4); put(p, r.tid, 4); } if (r.st & s_time) put(p, r.time, 8); if (r.st & s_id) put(p, r.id, 8); if (r.st & s_stream) put(p, r.stream, 8); if (r.st & s_cpu) { put(p, r.cpu, 4); put(p, 0, 4); } if (r.st & s_ident) put(p, r.ident, 8);
	Bytes b; put(b, r.type, 4); put(b, r.misc, 2); put(b, p.size() + 8, 2); b.insert(b.end(), p.begin(), p.end()); return b;
}
static std::string str(const Rec &r) { std::string s = strf("type %u misc %x", r.type, r.misc); for (auto v : r.v) s += strf(" %llx", (unsigned long long)v); if (r.str.size() < 80) s += " '" + hex((const uint8_t *)r.str.data(), r.str.size()) + "'"; else s += strf(" string of %zu", r.str.size()); return s + strf(" samples %x: %u/%u time %llx id %llx stream %llx cpu %u ident %llx", r.st, r.pid, r.tid, (unsigned long long)r.time, (unsigned long long)r.id, (unsigned long long)r.stream, r.cpu, (unsigned long long)r.ident); }

// How the sideband library prints a record; flags: enum pt_sb_dump_flags of libipt-sb.h.
static std::string dump_record(const Rec &r, const std::string &name, uint64_t off, uint64_t tsc, uint32_t fl)
{
	enum { ptsbp_compact = 1, ptsbp_verbose = 2, ptsbp_filename = 4, ptsbp_file_offset = 8, ptsbp_tsc = 16 }; typedef unsigned long long ull; std::string s; auto v = [&](size_t i) { return (ull)r.v[i]; };
	if (fl & ptsbp_filename) s += name + (fl & ptsbp_file_offset ? ":" : "  "); if (fl & ptsbp_file_offset) s += strf("%016llx  ", (ull)off); if ((fl & ptsbp_tsc) && (r.st & s_time)) s += strf("%016llx  ", (ull)tsc);
	bool out = r.misc & 1 << 13; std::string n; std::vector<std::pair<const char *, std::string>> f; auto x = [&](size_t i) { return strf("%llx", v(i)); }; std::string cs;	// name, fields in verbose mode, compact form
	switch (r.type) {
	case t_mmap: n = "MMAP"; f = {{"pid", x(0)}, {"tid", x(1)}, {"addr", x(2)}, {"len", x(3)}, {"pgoff", x(4)}, {"filename", r.str}}; break; case t_lost: n = "LOST"; f = {{"id", x(0)}, {"lost", x(1)}}; break;
	case t_comm: n = out ? "COMM.EXEC" : "COMM"; f = {{"pid", x(0)}, {"tid", x(1)}, {"comm", r.str}}; break; case t_exit: n = "EXIT"; f = {{"pid", x(0)}, {"ppid", x(1)}, {"tid", x(2)}, {"ptid", x(3)}, {"time", x(4)}}; cs = x(0) + "/" + x(2) + ", " + x(1) + "/" + x(3) + ", " + x(4); break;
	case t_fork: n = "FORK"; f = {{"pid", x(0)}, {"ppid", x(1)}, {"tid", x(2)}, {"ptid", x(3)}, {"time", x(4)}}; cs = x(0) + "/" + x(2) + ", " + x(1) + "/" + x(3) + ", " + x(4); break;
	case t_throttle: n = "THROTTLE"; f = {{"time", x(0)}, {"id", x(1)}, {"stream_id", x(2)}}; break; case t_unthrottle: n = "UNTHROTTLE"; f = {{"time", x(0)}, {"id", x(1)}, {"stream_id", x(2)}}; break;
	case t_mmap2: n = "MMAP2"; f = {{"pid", x(0)}, {"tid", x(1)}, {"addr", x(2)}, {"len", x(3)}, {"pgoff", x(4)}, {"maj", x(5)}, {"min", x(6)}, {"ino", x(7)}, {"ino_generation", x(8)}, {"prot", x(9)}, {"flags", x(10)}, {"filename", r.str}}; break;
	case t_aux: n = r.v[2] & 1 ? "AUX.TRUNCATED" : "AUX"; f = {{"aux offset", x(0)}, {"aux size", x(1)}, {"flags", x(2)}}; break; case t_itrace: n = "ITRACE_START"; f = {{"pid", x(0)}, {"tid", x(1)}}; break; case t_lost_samples: n = "LOST_SAMPLES"; f = {{"lost", x(0)}}; break;
	case t_switch: n = out ? "SWITCH.OUT" : "SWITCH.IN"; break; case t_switch_wide: n = out ? "SWITCH_CPU_WIDE.OUT" : "SWITCH_CPU_WIDE.IN"; f = {{out ? "next pid" : "prev pid", x(0)}, {out ? "next tid" : "prev tid", x(1)}}; break; default: break;
	}
	if (cs.empty()) { size_t i = 0; for (auto &y : f) { bool pt = i == 1 && (r.type == t_mmap || r.type == t_mmap2 || r.type == t_comm || r.type == t_itrace || r.type == t_switch_wide); cs += std::string(i ? pt ? "/" : ", " : "") + y.second; i++; } }
	n = "PERF_RECORD_" + n; if (fl & ptsbp_compact) s += n + (f.empty() ? "" : "  " + cs); if (fl & ptsbp_verbose) { s += n; for (auto &y : f) s += std::string("\n  ") + y.first + ": " + y.second; }
	if (fl & ptsbp_compact) { s += "  {"; if (r.st & s_tid) s += strf(" %x/%x", r.pid, r.tid); if (r.st & s_time) s += strf(" %llx", (ull)r.time); if (r.st & s_id) s += strf(" %llx", (ull)r.id); if (r.st & s_cpu) s += strf(" cpu-%x", r.cpu); if (r.st & s_stream) s += strf(" %llx", (ull)r.stream); if (r.st & s_ident) s += strf(" %llx", (ull)r.ident); s += " }"; }
	if (fl & ptsbp_verbose) { if (r.st & s_tid) s += strf("\n  pid: %x\n  tid: %x", r.pid, r.tid); if (r.st & s_time) s += strf("\n  time: %llx", (ull)r.time); if (r.st & s_id) s += strf("\n  id: %llx", (ull)r.id); if (r.st & s_cpu) s += strf("\n  cpu: %x", r.cpu); if (r.st & s_stream) s += strf("\n  stream id: %llx", (ull)r.stream); if (r.st & s_ident) s += strf("\n  identifier: %llx", (ull)r.ident); }
	if (fl) s += "\n"; return s;
}
