// An independent description of the Intel PT wire format (Intel SDM Vol. 3,
// "Intel Processor Trace", packet definitions), used as the reference.
//
// struct pt_packet of the public API is used as a plain value carrier.
#pragma once
#include "engine.hpp"
#include <intel-pt.h>
#include <string>
#include <vector>

namespace wire {
using pbt::strf;
typedef std::vector<uint8_t> Bytes;

inline void put(Bytes &b, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; ++i) b.push_back((uint8_t)(v >> (8 * i))); }
inline uint64_t get(const uint8_t *p, unsigned n) { uint64_t v = 0; for (unsigned i = n; i-- > 0;) v = (v << 8) | p[i]; return v; }

inline const char *type_name(int t)
{
	switch (t) {
	case ppt_invalid: return "invalid"; case ppt_unknown: return "unknown"; case ppt_pad: return "pad"; case ppt_psb: return "psb";
	case ppt_psbend: return "psbend"; case ppt_fup: return "fup"; case ppt_tip: return "tip"; case ppt_tip_pge: return "tip.pge";
	case ppt_tip_pgd: return "tip.pgd"; case ppt_tnt_8: return "tnt.8"; case ppt_tnt_64: return "tnt.64"; case ppt_mode: return "mode";
	case ppt_pip: return "pip"; case ppt_vmcs: return "vmcs"; case ppt_cbr: return "cbr"; case ppt_tsc: return "tsc"; case ppt_tma: return "tma";
	case ppt_mtc: return "mtc"; case ppt_cyc: return "cyc"; case ppt_stop: return "stop"; case ppt_ovf: return "ovf"; case ppt_mnt: return "mnt";
	case ppt_exstop: return "exstop"; case ppt_mwait: return "mwait"; case ppt_pwre: return "pwre"; case ppt_pwrx: return "pwrx"; case ppt_ptw: return "ptw";
	case ppt_cfe: return "cfe"; case ppt_evd: return "evd"; case ppt_trig: return "trig";
	}
	return "?";
}

// Canonical text of a packet: everything observable, nothing else.
inline std::string str(const pt_packet &p)
{
	std::string s = type_name(p.type);
	auto x = [](uint64_t v) { return (unsigned long long)v; };
	switch (p.type) {
	default: break;
	case ppt_fup: case ppt_tip: case ppt_tip_pge: case ppt_tip_pgd: s += strf(" ipc=%d ip=%llx", (int)p.payload.ip.ipc, x(p.payload.ip.ip)); break;
	case ppt_tnt_8: case ppt_tnt_64: s += strf(" n=%u bits=%llx", p.payload.tnt.bit_size, x(p.payload.tnt.payload)); break;
	case ppt_mode:
		if (p.payload.mode.leaf == pt_mol_exec) s += strf(".exec csl=%u csd=%u if=%u", p.payload.mode.bits.exec.csl, p.payload.mode.bits.exec.csd, p.payload.mode.bits.exec.iflag);
		else if (p.payload.mode.leaf == pt_mol_tsx) s += strf(".tsx intx=%u abrt=%u", p.payload.mode.bits.tsx.intx, p.payload.mode.bits.tsx.abrt);
		else s += strf(".leaf%x", (unsigned)p.payload.mode.leaf);
		break;
	case ppt_pip: s += strf(" cr3=%llx nr=%u", x(p.payload.pip.cr3), p.payload.pip.nr); break;
	case ppt_vmcs: s += strf(" base=%llx", x(p.payload.vmcs.base)); break;
	case ppt_cbr: s += strf(" ratio=%u", p.payload.cbr.ratio); break;
	case ppt_tsc: s += strf(" tsc=%llx", x(p.payload.tsc.tsc)); break;
	case ppt_tma: s += strf(" ctc=%x fc=%x", p.payload.tma.ctc, p.payload.tma.fc); break;
	case ppt_mtc: s += strf(" ctc=%x", p.payload.mtc.ctc); break;
	case ppt_cyc: s += strf(" cyc=%llx", x(p.payload.cyc.value)); break;
	case ppt_mnt: s += strf(" pl=%llx", x(p.payload.mnt.payload)); break;
	case ppt_exstop: s += strf(" ip=%u", p.payload.exstop.ip); break;
	case ppt_mwait: s += strf(" hints=%x ext=%x", p.payload.mwait.hints, p.payload.mwait.ext); break;
	case ppt_pwre: s += strf(" state=%x sub=%x hw=%u", p.payload.pwre.state, p.payload.pwre.sub_state, p.payload.pwre.hw); break;
	case ppt_pwrx: s += strf(" last=%x deep=%x int=%u st=%u hw=%u", p.payload.pwrx.last, p.payload.pwrx.deepest, p.payload.pwrx.interrupt, p.payload.pwrx.store, p.payload.pwrx.autonomous); break;
	case ppt_ptw: s += strf(" plc=%u pl=%llx ip=%u", p.payload.ptw.plc, x(p.payload.ptw.payload), p.payload.ptw.ip); break;
	case ppt_cfe: s += strf(" type=%x vec=%x ip=%u", (unsigned)p.payload.cfe.type, p.payload.cfe.vector, p.payload.cfe.ip); break;
	case ppt_evd: s += strf(" type=%x pl=%llx", (unsigned)p.payload.evd.type, x(p.payload.evd.payload)); break;
	case ppt_trig: s += strf(" trbv=%x ip=%u icntv=%u mult=%u icnt=%x", p.payload.trig.trbv, p.payload.trig.ip, p.payload.trig.icntv, p.payload.trig.mult, p.payload.trig.icntv ? p.payload.trig.icnt : 0); break;
	}
	return s;
}

inline int ip_bytes(unsigned ipc) { static const int n[8] = {0, 2, 4, 6, 6, -1, 8, -1}; return ipc < 8 ? n[ipc] : -1; }

// Reference encoding.  Returns false if the packet is not valid.
inline bool encode(Bytes &b, const pt_packet &p)
{
	auto ext = [&](uint8_t e) { b.push_back(0x02); b.push_back(e); };
	auto ip = [&](uint8_t opc) {
		int n = ip_bytes((unsigned)p.payload.ip.ipc);
		if (n < 0) return false;
		b.push_back((uint8_t)(opc | (p.payload.ip.ipc << 5)));
		put(b, p.payload.ip.ip, (unsigned)n);
		return true;
	};
	switch (p.type) {
	case ppt_pad: b.push_back(0); return true;
	case ppt_psb: for (int i = 0; i < 8; ++i) ext(0x82); return true;
	case ppt_psbend: ext(0x23); return true;
	case ppt_ovf: ext(0xf3); return true;
	case ppt_stop: ext(0x83); return true;
	case ppt_tip: return ip(0x0d);
	case ppt_tip_pge: return ip(0x11);
	case ppt_tip_pgd: return ip(0x01);
	case ppt_fup: return ip(0x1d);
	case ppt_tnt_8: {
		unsigned n = p.payload.tnt.bit_size;
		if (n < 1 || n > 6 || (p.payload.tnt.payload >> n)) return false;
		b.push_back((uint8_t)(((1u << n) | p.payload.tnt.payload) << 1));
		return true;
	}
	case ppt_tnt_64: {
		unsigned n = p.payload.tnt.bit_size;
		if (n < 1 || n > 47 || (p.payload.tnt.payload >> n)) return false;
		ext(0xa3); put(b, (1ull << n) | p.payload.tnt.payload, 6);
		return true;
	}
	case ppt_mode:
		if (p.payload.mode.leaf == pt_mol_exec) { b.push_back(0x99); b.push_back((uint8_t)(p.payload.mode.bits.exec.csl | p.payload.mode.bits.exec.csd << 1 | p.payload.mode.bits.exec.iflag << 2)); return true; }
		if (p.payload.mode.leaf == pt_mol_tsx) { b.push_back(0x99); b.push_back((uint8_t)(0x20 | p.payload.mode.bits.tsx.intx | p.payload.mode.bits.tsx.abrt << 1)); return true; }
		return false;
	case ppt_pip: ext(0x43); put(b, (p.payload.pip.cr3 >> 5 << 1) | (p.payload.pip.nr ? 1 : 0), 6); return true;
	case ppt_vmcs: ext(0xc8); put(b, p.payload.vmcs.base >> 12, 5); return true;
	case ppt_cbr: ext(0x03); b.push_back(p.payload.cbr.ratio); b.push_back(0); return true;
	case ppt_tsc: b.push_back(0x19); put(b, p.payload.tsc.tsc, 7); return true;
	case ppt_tma:
		if (p.payload.tma.fc > 0x1ff) return false;
		ext(0x73); put(b, p.payload.tma.ctc, 2); b.push_back(0); put(b, p.payload.tma.fc, 2); return true;
	case ppt_mtc: b.push_back(0x59); b.push_back(p.payload.mtc.ctc); return true;
	case ppt_cyc: {
		uint64_t v = p.payload.cyc.value;
		if (v >> 61) return false;
		uint8_t o = (uint8_t)(0x03 | (v & 0x1f) << 3); v >>= 5;
		if (v) o |= 0x04;
		b.push_back(o);
		while (v) { uint8_t e = (uint8_t)((v & 0x7f) << 1); v >>= 7; if (v) e |= 1; b.push_back(e); }
		return true;
	}
	case ppt_mnt: ext(0xc3); b.push_back(0x88); put(b, p.payload.mnt.payload, 8); return true;
	case ppt_exstop: ext(p.payload.exstop.ip ? 0xe2 : 0x62); return true;
	case ppt_mwait: ext(0xc2); put(b, p.payload.mwait.hints, 4); put(b, p.payload.mwait.ext, 4); return true;
	case ppt_pwre: ext(0x22); b.push_back(p.payload.pwre.hw ? 0x08 : 0); b.push_back((uint8_t)((p.payload.pwre.state & 0xf) << 4 | (p.payload.pwre.sub_state & 0xf))); return true;
	case ppt_pwrx: ext(0xa2); b.push_back((uint8_t)((p.payload.pwrx.last & 0xf) << 4 | (p.payload.pwrx.deepest & 0xf))); b.push_back((uint8_t)((p.payload.pwrx.interrupt ? 1 : 0) | (p.payload.pwrx.store ? 4 : 0) | (p.payload.pwrx.autonomous ? 8 : 0))); put(b, 0, 3); return true;
	case ppt_ptw:
		if (p.payload.ptw.plc > 1) return false;
		ext((uint8_t)(0x12 | p.payload.ptw.plc << 5 | (p.payload.ptw.ip ? 0x80 : 0))); put(b, p.payload.ptw.payload, p.payload.ptw.plc ? 8 : 4); return true;
	case ppt_cfe: ext(0x13); b.push_back((uint8_t)((p.payload.cfe.type & 0x1f) | (p.payload.cfe.ip ? 0x80 : 0))); b.push_back(p.payload.cfe.vector); return true;
	case ppt_evd: ext(0x53); b.push_back((uint8_t)(p.payload.evd.type & 0x1f)); put(b, p.payload.evd.payload, 8); return true;
	case ppt_trig: b.push_back(0xd9); b.push_back((uint8_t)((p.payload.trig.ip ? 0x80 : 0) | (p.payload.trig.icntv ? 0x40 : 0) | (p.payload.trig.mult ? 0x20 : 0))); b.push_back(p.payload.trig.trbv); if (p.payload.trig.icntv) put(b, p.payload.trig.icnt, 2); return true;
	default: return false;
	}
}

enum { R_EOS = -1, R_UNKNOWN = -2, R_BAD = -3 };

// Reference decoding of the packet at p with n bytes available.
// Returns its size or one of the R_ codes.
inline int decode(pt_packet &k, const uint8_t *p, size_t n)
{
	memset(&k, 0, sizeof(k));
	if (!n) return R_EOS;
	auto need = [&](size_t m) { return n >= m; };
	auto ip = [&](pt_packet_type t) {
		unsigned ipc = p[0] >> 5; int m = ip_bytes(ipc);
		if (m < 0) return (int)R_BAD;
		if (!need(1 + (size_t)m)) return (int)R_EOS;
		k.type = t; k.payload.ip.ipc = (pt_ip_compression)ipc; k.payload.ip.ip = get(p + 1, (unsigned)m);
		return 1 + m;
	};
	auto tnt = [&](pt_packet_type t, uint64_t v, int size) {
		if (v < 2) return (int)R_BAD; // no stop bit or no payload bit
		unsigned b = 63; while (!(v >> b & 1)) b--;
		k.type = t; k.payload.tnt.bit_size = (uint8_t)b; k.payload.tnt.payload = v ^ (1ull << b);
		return size;
	};
	uint8_t o = p[0];
	if (o == 0x00) { k.type = ppt_pad; return 1; }
	if (o == 0x02) {
		if (!need(2)) return R_EOS;
		uint8_t e = p[1]; const uint8_t *q = p + 2;
		switch (e) {
		case 0x82:
			if (!need(16)) return R_EOS;
			for (int i = 0; i < 16; ++i) if (p[i] != (i & 1 ? 0x82 : 0x02)) return R_BAD;
			k.type = ppt_psb; return 16;
		case 0x23: k.type = ppt_psbend; return 2;
		case 0xf3: k.type = ppt_ovf; return 2;
		case 0x83: k.type = ppt_stop; return 2;
		case 0xa3: if (!need(8)) return R_EOS; return tnt(ppt_tnt_64, get(q, 6), 8);
		case 0x43: { if (!need(8)) return R_EOS; uint64_t v = get(q, 6); k.type = ppt_pip; k.payload.pip.nr = v & 1; k.payload.pip.cr3 = (v >> 1) << 5; return 8; }
		case 0xc8: if (!need(7)) return R_EOS; k.type = ppt_vmcs; k.payload.vmcs.base = get(q, 5) << 12; return 7;
		case 0x03: if (!need(4)) return R_EOS; k.type = ppt_cbr; k.payload.cbr.ratio = q[0]; return 4;
		case 0x73:
			if (!need(7)) return R_EOS;
			if (q[2] || q[4] > 1) return R_BAD;
			k.type = ppt_tma; k.payload.tma.ctc = (uint16_t)get(q, 2); k.payload.tma.fc = (uint16_t)get(q + 3, 2); return 7;
		case 0xc3:
			if (!need(3)) return R_EOS;
			if (p[2] != 0x88) return R_UNKNOWN;
			if (!need(11)) return R_EOS;
			k.type = ppt_mnt; k.payload.mnt.payload = get(p + 3, 8); return 11;
		case 0x62: case 0xe2: k.type = ppt_exstop; k.payload.exstop.ip = e >> 7; return 2;
		case 0xc2: if (!need(10)) return R_EOS; k.type = ppt_mwait; k.payload.mwait.hints = (uint32_t)get(q, 4); k.payload.mwait.ext = (uint32_t)get(q + 4, 4); return 10;
		case 0x22: if (!need(4)) return R_EOS; k.type = ppt_pwre; k.payload.pwre.hw = q[0] >> 3 & 1; k.payload.pwre.state = q[1] >> 4; k.payload.pwre.sub_state = q[1] & 15; return 4;
		case 0xa2: if (!need(7)) return R_EOS; k.type = ppt_pwrx; k.payload.pwrx.last = q[0] >> 4; k.payload.pwrx.deepest = q[0] & 15; k.payload.pwrx.interrupt = q[1] & 1; k.payload.pwrx.store = q[1] >> 2 & 1; k.payload.pwrx.autonomous = q[1] >> 3 & 1; return 7;
		case 0x13: if (!need(4)) return R_EOS; k.type = ppt_cfe; k.payload.cfe.type = (pt_cfe_type)(q[0] & 31); k.payload.cfe.ip = q[0] >> 7; k.payload.cfe.vector = q[1]; return 4;
		case 0x53: if (!need(11)) return R_EOS; k.type = ppt_evd; k.payload.evd.type = (pt_evd_type)(q[0] & 31); k.payload.evd.payload = get(q + 1, 8); return 11;
		default:
			if ((e & 0x1f) == 0x12) {
				unsigned plc = e >> 5 & 3; if (plc > 1) return R_BAD;
				unsigned m = plc ? 8 : 4; if (!need(2 + m)) return R_EOS;
				k.type = ppt_ptw; k.payload.ptw.plc = (uint8_t)plc; k.payload.ptw.ip = e >> 7; k.payload.ptw.payload = get(q, m);
				return 2 + (int)m;
			}
			return R_UNKNOWN;
		}
	}
	if (!(o & 1)) return tnt(ppt_tnt_8, o >> 1, 1);
	if ((o & 3) == 3) {
		uint64_t v = o >> 3; unsigned sh = 5; size_t i = 1; bool x = o & 4;
		while (x) {
			if (!need(i + 1)) return R_EOS;
			if (sh + 7 > 64) return R_BAD;
			v |= (uint64_t)(p[i] >> 1) << sh; sh += 7; x = p[i] & 1; i++;
		}
		k.type = ppt_cyc; k.payload.cyc.value = v; return (int)i;
	}
	switch (o & 0x1f) {
	case 0x0d: return ip(ppt_tip);
	case 0x11: return ip(ppt_tip_pge);
	case 0x01: return ip(ppt_tip_pgd);
	case 0x1d: return ip(ppt_fup);
	}
	switch (o) {
	case 0x99:
		if (!need(2)) return R_EOS;
		if ((p[1] & 0xe0) == 0) { k.type = ppt_mode; k.payload.mode.leaf = pt_mol_exec; k.payload.mode.bits.exec.csl = p[1] & 1; k.payload.mode.bits.exec.csd = p[1] >> 1 & 1; k.payload.mode.bits.exec.iflag = p[1] >> 2 & 1; return 2; }
		if ((p[1] & 0xe0) == 0x20) { k.type = ppt_mode; k.payload.mode.leaf = pt_mol_tsx; k.payload.mode.bits.tsx.intx = p[1] & 1; k.payload.mode.bits.tsx.abrt = p[1] >> 1 & 1; return 2; }
		return R_BAD;
	case 0x19: if (!need(8)) return R_EOS; k.type = ppt_tsc; k.payload.tsc.tsc = get(p + 1, 7); return 8;
	case 0x59: if (!need(2)) return R_EOS; k.type = ppt_mtc; k.payload.mtc.ctc = p[1]; return 2;
	case 0xd9: {
		if (!need(3)) return R_EOS;
		int sz = 3;
		if (p[1] & 0x40) { if (!need(5)) return R_EOS; k.payload.trig.icnt = (uint16_t)get(p + 3, 2); sz = 5; }
		k.type = ppt_trig; k.payload.trig.ip = p[1] >> 7; k.payload.trig.icntv = p[1] >> 6 & 1; k.payload.trig.mult = p[1] >> 5 & 1; k.payload.trig.trbv = p[2];
		return sz;
	}
	}
	return R_UNKNOWN;
}

inline const std::vector<pt_packet_type> &all_types()
{
	static const std::vector<pt_packet_type> t = {ppt_pad, ppt_psb, ppt_psbend, ppt_fup, ppt_tip, ppt_tip_pge, ppt_tip_pgd, ppt_tnt_8, ppt_tnt_64, ppt_mode, ppt_pip, ppt_vmcs, ppt_cbr, ppt_tsc, ppt_tma, ppt_mtc, ppt_cyc, ppt_stop, ppt_ovf, ppt_mnt, ppt_exstop, ppt_mwait, ppt_pwre, ppt_pwrx, ppt_ptw, ppt_cfe, ppt_evd, ppt_trig};
	return t;
}

// A packet with arbitrary field values.  If valid, only values every encoder
// accepts and that survive a round trip.
inline pt_packet gen_packet(pbt::Source &s, bool valid, pt_packet_type type)
{
	pt_packet p; memset(&p, 0, sizeof(p));
	p.type = type;
	static const unsigned ipcs[6] = {0, 1, 2, 3, 4, 6};
	switch (type) {
	default: break;
	case ppt_fup: case ppt_tip: case ppt_tip_pge: case ppt_tip_pgd: {
		unsigned ipc = valid ? ipcs[s.below(6)] : (unsigned)s.below(9);
		p.payload.ip.ipc = (pt_ip_compression)ipc;
		p.payload.ip.ip = s.interesting(64);
		if (valid) { int n = ip_bytes(ipc); if (n < 8) p.payload.ip.ip &= (n ? (1ull << (8 * n)) - 1 : 0); }
		break;
	}
	case ppt_tnt_8: case ppt_tnt_64: {
		unsigned mx = type == ppt_tnt_8 ? 6 : 47;
		unsigned n = valid ? (unsigned)s.range(1, mx) : (unsigned)(s.flip() ? s.range(0, mx + 2) : s.below(256));
		p.payload.tnt.bit_size = (uint8_t)n;
		uint64_t v = s.bits(64);
		if (valid || s.chance(7, 8)) v &= n < 64 ? (1ull << n) - 1 : ~0ull;
		p.payload.tnt.payload = v;
		break;
	}
	case ppt_mode: {
		static const unsigned leafs[] = {pt_mol_exec, pt_mol_tsx, 0x40, 0xe0, 0x01};
		p.payload.mode.leaf = (pt_mode_leaf)leafs[s.below(valid ? 2 : 5)];
		if (p.payload.mode.leaf == pt_mol_exec) { p.payload.mode.bits.exec.csl = s.flip(); p.payload.mode.bits.exec.csd = s.flip(); p.payload.mode.bits.exec.iflag = s.flip(); }
		else { p.payload.mode.bits.tsx.intx = s.flip(); p.payload.mode.bits.tsx.abrt = s.flip(); }
		break;
	}
	case ppt_pip: p.payload.pip.cr3 = s.interesting(64); if (valid) p.payload.pip.cr3 &= 0xfffffffffffe0ull; p.payload.pip.nr = s.flip(); break;
	case ppt_vmcs: p.payload.vmcs.base = s.interesting(64); if (valid) p.payload.vmcs.base &= 0xffffffffff000ull; break;
	case ppt_cbr: p.payload.cbr.ratio = s.byte(); break;
	case ppt_tsc: p.payload.tsc.tsc = s.interesting(valid ? 56 : 64); break;
	case ppt_tma: p.payload.tma.ctc = (uint16_t)s.interesting(16); p.payload.tma.fc = (uint16_t)s.interesting(valid ? 9 : 16); break;
	case ppt_mtc: p.payload.mtc.ctc = s.byte(); break;
	case ppt_cyc: p.payload.cyc.value = s.interesting(valid ? 61 : 64); break;
	case ppt_mnt: p.payload.mnt.payload = s.interesting(64); break;
	case ppt_exstop: p.payload.exstop.ip = s.flip(); break;
	case ppt_mwait: p.payload.mwait.hints = (uint32_t)s.interesting(32); p.payload.mwait.ext = (uint32_t)s.interesting(32); break;
	case ppt_pwre: p.payload.pwre.state = (uint8_t)s.bits(valid ? 4 : 8); p.payload.pwre.sub_state = (uint8_t)s.bits(valid ? 4 : 8); p.payload.pwre.hw = s.flip(); break;
	case ppt_pwrx: p.payload.pwrx.last = (uint8_t)s.bits(valid ? 4 : 8); p.payload.pwrx.deepest = (uint8_t)s.bits(valid ? 4 : 8); p.payload.pwrx.interrupt = s.flip(); p.payload.pwrx.store = s.flip(); p.payload.pwrx.autonomous = s.flip(); break;
	case ppt_ptw: p.payload.ptw.plc = (uint8_t)s.below(valid ? 2 : 6); p.payload.ptw.payload = s.interesting(64); if (valid && !p.payload.ptw.plc) p.payload.ptw.payload &= 0xffffffff; p.payload.ptw.ip = s.flip(); break;
	case ppt_cfe: p.payload.cfe.type = (pt_cfe_type)s.bits(valid ? 5 : 7); p.payload.cfe.vector = s.byte(); p.payload.cfe.ip = s.flip(); break;
	case ppt_evd: p.payload.evd.type = (pt_evd_type)s.bits(valid ? 5 : 7); p.payload.evd.payload = s.interesting(64); break;
	case ppt_trig: p.payload.trig.trbv = s.byte(); p.payload.trig.icntv = s.flip(); p.payload.trig.icnt = (uint16_t)s.interesting(16); p.payload.trig.ip = s.flip(); p.payload.trig.mult = s.flip(); break;
	}
	return p;
}
inline pt_packet gen_packet(pbt::Source &s, bool valid) { return gen_packet(s, valid, s.pick(all_types())); }

// A heap buffer of exactly n bytes at a chosen misalignment, so that the
// address sanitizer sees the first byte beyond it.
struct Buf {
	uint8_t *base, *p; size_t n;
	Buf(size_t n_, unsigned misalign) : base(new uint8_t[n_ + misalign]), p(base + misalign), n(n_) { if (misalign) memset(base, 0xa5, misalign); }
	Buf(const Bytes &b, unsigned misalign) : Buf(b.size(), misalign) { if (n) memcpy(p, b.data(), n); }
	~Buf() { delete[] base; }
	Buf(const Buf &) = delete; Buf &operator=(const Buf &) = delete;
};

inline pt_config mkconfig(uint8_t *begin, size_t n)
{
	pt_config c; memset(&c, 0, sizeof(c)); c.size = sizeof(c); c.begin = begin; c.end = begin + n; return c;
}

} // namespace wire
