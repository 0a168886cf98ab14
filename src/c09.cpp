// C09: instruction length and class decode, against LLVM's x86 disassembler.
#include <llvm/MC/MCDisassembler/MCDisassembler.h>
#include <llvm/MC/MCContext.h>
#include <llvm/MC/MCInst.h>
#include <llvm/MC/MCInstrInfo.h>
#include <llvm/MC/MCRegisterInfo.h>
#include <llvm/MC/MCAsmInfo.h>
#include <llvm/MC/MCSubtargetInfo.h>
#include <llvm/MC/MCTargetOptions.h>
#include <llvm/MC/TargetRegistry.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm-c/Target.h>
#include "ptwire.hpp"
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "pt_ild.h"
#include "pt_insn.h"
}
using namespace pbt;
using wire::Bytes; using wire::Buf;

struct MC {
	llvm::MCRegisterInfo *ri; llvm::MCAsmInfo *ai; llvm::MCSubtargetInfo *st; llvm::MCInstrInfo *ii; llvm::MCContext *cx; llvm::MCDisassembler *d;
	explicit MC(const char *tr)
	{
		std::string e; auto *t = llvm::TargetRegistry::lookupTarget(tr, e); if (!t) abort();
		llvm::MCTargetOptions o; ri = t->createMCRegInfo(tr); ai = t->createMCAsmInfo(*ri, tr, o); st = t->createMCSubtargetInfo(tr, "", ""); ii = t->createMCInstrInfo();
		cx = new llvm::MCContext(llvm::Triple(tr), ai, ri, st); d = t->createMCDisassembler(*st, *cx); if (!d) abort();
	}
};
static MC *mc[3];
static void init()
{
	LLVMInitializeX86TargetInfo(); LLVMInitializeX86TargetMC(); LLVMInitializeX86Disassembler();
	const char *tr[3] = {"i386-unknown-linux-code16", "i386-unknown-linux", "x86_64-unknown-linux"};
	for (int i = 0; i < 3; ++i) mc[i] = new MC(tr[i]);
}

// The reference's view of an instruction.
struct Ref {
	unsigned len = 0; int cls = ptic_other; int pti = PTI_INST_INVALID; bool direct = false; int64_t disp = 0; bool anyclass = false, anypti = false; std::string name;
};

struct Pfx { unsigned n = 0, n66 = 0; bool f0 = false, f2 = false, f3 = false, a67 = false, seg = false; uint8_t rex = 0; };
static Pfx prefixes(const uint8_t *b, int m)
{
	Pfx p;
	for (; p.n < 15; ++p.n) {
		uint8_t x = b[p.n];
		if (x == 0x66) p.n66++; else if (x == 0x67) p.a67 = true; else if (x == 0xf0) p.f0 = true; else if (x == 0xf2) p.f2 = true; else if (x == 0xf3) p.f3 = true;
		else if (x == 0x26 || x == 0x2e || x == 0x36 || x == 0x3e || x == 0x64 || x == 0x65) p.seg = true;
		else if (m == 2 && (x & 0xf0) == 0x40) { p.rex = x; continue; }
		else break;
		p.rex = 0;
	}
	return p;
}

static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }

static bool reference(const uint8_t *raw, int m, Ref &r, bool strip = false)
{
	uint8_t b[32] = {0}; memcpy(b, raw, 15);
	Pfx p = prefixes(b, m); if (p.n >= 15) return false;
	const uint8_t *o = b + p.n;
	// Near branches ignore the operand size prefix in 64-bit mode; LLVM follows AMD.
	if (!strip && m == 2 && p.n66 && (o[0] == 0xe8 || o[0] == 0xe9 || (o[0] == 0x0f && (o[1] & 0xf0) == 0x80) || o[0] == 0xc2 || o[0] == 0xc3)) {
		uint8_t c[32] = {0}; unsigned n = 0; for (unsigned i = 0; i < 15; ++i) if (i >= p.n || b[i] != 0x66) c[n++] = b[i];
		
		if (!reference(c, m, r, true)) return false;
		r.len += p.n66; return r.len <= 15;
	}
	if (o[0] == 0xf1) { r.len = p.n + 1; r.cls = ptic_far_call; r.pti = PTI_INST_INT1; r.name = "INT1"; return true; }
	bool vex = m == 2 || (o[1] & 0xc0) == 0xc0, rex2 = m == 2 && o[0] == 0xd5;
	if (o[0] == 0x0f && o[1] == 0x0f) return false;	// 3DNow
	if (o[0] == 0x0f && (o[1] == 0x78 || o[1] == 0x79) && (p.n66 || p.f2 || p.f3)) return false;	// SSE4a
	if (o[0] == 0x8f && (o[1] & 0x38)) return false;	// XOP
	if (o[0] == 0x62 && vex && ((o[1] & 8) || !(o[2] & 4) || (o[1] & 7) == 4)) return false;	// APX
	if (p.f0 && o[0] == 0x0f && (o[1] == 0x20 || o[1] == 0x22)) return false;	// AMD's encoding of CR8
	if (m == 1 && p.n66 && (p.f2 || p.f3) && o[0] == 0x0f && (o[1] & 0xf0) == 0x80) return false;
	if (rex2) {
		unsigned row = o[2] & 0xf0;
		if (p.rex || o[2] == 0x0f) return false;
		if ((o[1] & 0x80) && (o[2] == 0x78 || o[2] == 0x79) && (p.n66 || p.f2 || p.f3)) return false;	// SSE4a
		if (o[1] & 0x80) { if (row == 0x30 || row == 0x80) return false; } else if (row == 0x40 || row == 0x70 || (row == 0xa0 && o[2] != 0xa1) || row == 0xe0) return false;
		if (o[2] == 0xa1 && !(o[1] & 0x80) && (p.n66 || p.a67 || p.f2 || p.f3 || p.f0 || (o[1] & 0x08))) return false;
		if ((o[3] & 0xc7) == 0x04 && (o[4] & 7) == 5) return false;	// LLVM drops the displacement
	}
	llvm::MCInst i; uint64_t sz = 0; MC &d = *mc[m];
	if (d.d->getInstruction(i, sz, llvm::ArrayRef<uint8_t>(b, 15), 0, llvm::nulls()) != llvm::MCDisassembler::Success || !sz) return false;
	r.name = d.ii->getName(i.getOpcode()).str(); r.len = (unsigned)sz;
	const std::string &n = r.name;
	if (n.size() > 7 && n.compare(n.size() - 7, 7, "_PREFIX") == 0) return false;
	if (m == 0 && n == "XBEGIN_4") return false;
	// Prefixes that select another instruction or none at all.
	if (rex2 && (o[1] & 0x80) && (o[2] == 0xae || o[2] == 0x01 || o[2] == 0xc7) && (p.n66 || p.f2 || p.f3 || p.f0)) {
		if (p.f2 + p.f3 + (p.n66 ? 1 : 0) > 1 || p.f0 || starts(n, "XSAVE") || n == "CLAC") r.anyclass = r.anypti = true;
	}
	if (o[0] == 0x0f && (o[1] == 0xae || o[1] == 0x01 || o[1] == 0xc7) && (p.n66 || p.f2 || p.f3 || p.f0)) {
		if (p.f2 + p.f3 + (p.n66 ? 1 : 0) > 1 || p.f0) r.anyclass = r.anypti = true;
		if (o[1] == 0x01 && o[2] == 0xca) { r.anypti = true; if (p.f2 != p.f3 && !p.n66 && m == 2) { r.cls = ptic_far_return; r.anyclass = p.f0; r.pti = p.f2 ? PTI_INST_ERETS : PTI_INST_ERETU; r.anypti = p.f0; } else r.anyclass = true; return true; }
		if (n == "XSAVE" || n == "XSAVE64") r.anyclass = r.anypti = true;
	}
	auto cls = [&](int c, int t) { r.cls = c; r.pti = t; };
	auto imm = [&]() { r.direct = true; for (unsigned k = 0; k < i.getNumOperands(); ++k) if (i.getOperand(k).isImm()) { r.disp = i.getOperand(k).getImm(); break; } };
	auto sx = [&](unsigned bits) { r.disp = (int64_t)((uint64_t)r.disp << (64 - bits)) >> (64 - bits); };
	if (starts(n, "JCC_")) { cls(ptic_cond_jump, PTI_INST_JCC); imm(); sx(n == "JCC_1" ? 8 : n == "JCC_2" ? 16 : 32); }
	else if (n == "JCXZ" || n == "JECXZ" || n == "JRCXZ") { cls(ptic_cond_jump, PTI_INST_JrCXZ); imm(); sx(8); }
	else if (n == "LOOP" || n == "LOOPE" || n == "LOOPNE") { cls(ptic_cond_jump, n == "LOOP" ? PTI_INST_LOOP : n == "LOOPE" ? PTI_INST_LOOPE : PTI_INST_LOOPNE); imm(); sx(8); }
	else if (starts(n, "CALL") && n.find("pcrel") != n.npos) { cls(ptic_call, PTI_INST_CALL_E8); imm(); sx(n == "CALLpcrel16" ? 16 : 32); }
	else if (starts(n, "CALL")) cls(ptic_call, PTI_INST_CALL_FFr2);
	else if (starts(n, "FARCALL")) cls(ptic_far_call, n[9] == 'i' ? PTI_INST_CALL_9A : PTI_INST_CALL_FFr3);
	else if (starts(n, "FARJMP")) cls(ptic_far_jump, n[8] == 'i' ? PTI_INST_JMP_EA : PTI_INST_JMP_FFr5);
	else if (n == "JMP_1") { cls(ptic_jump, PTI_INST_JMP_EB); imm(); sx(8); }
	else if (n == "JMP_2" || n == "JMP_4") { cls(ptic_jump, PTI_INST_JMP_E9); imm(); sx(n == "JMP_2" ? 16 : 32); }
	else if (n == "JMPABS64i") cls(ptic_jump, PTI_INST_JMPABS);
	else if (starts(n, "JMP")) cls(ptic_jump, PTI_INST_JMP_FFr4);
	else if (starts(n, "RETI")) cls(ptic_return, PTI_INST_RET_C2);
	else if (starts(n, "RET")) cls(ptic_return, PTI_INST_RET_C3);
	else if (starts(n, "LRETI")) cls(ptic_far_return, PTI_INST_RET_CA);
	else if (starts(n, "LRET")) cls(ptic_far_return, PTI_INST_RET_CB);
	else if (starts(n, "IRET")) cls(ptic_far_return, PTI_INST_IRET);
	else if (n == "INT") cls(ptic_far_call, PTI_INST_INT);
	else if (n == "INT3") cls(ptic_far_call, PTI_INST_INT3);
	else if (n == "INTO") cls(ptic_far_call, PTI_INST_INTO);
	else if (n == "SYSCALL") cls(ptic_far_call, PTI_INST_SYSCALL);
	else if (n == "SYSENTER") cls(ptic_far_call, PTI_INST_SYSENTER);
	else if (starts(n, "SYSEXIT")) cls(ptic_far_return, PTI_INST_SYSEXIT);
	else if (starts(n, "SYSRET")) cls(ptic_far_return, PTI_INST_SYSRET);
	else if (n == "VMCALL") cls(ptic_far_call, PTI_INST_VMCALL);
	else if (n == "VMLAUNCH") cls(ptic_far_return, PTI_INST_VMLAUNCH);
	else if (n == "VMRESUME") cls(ptic_far_return, PTI_INST_VMRESUME);
	else if (n == "UIRET") cls(ptic_far_return, PTI_INST_UIRET);
	else if (starts(n, "PTWRITE")) cls(ptic_ptwrite, PTI_INST_PTWRITE);
	else if (n == "VMPTRLDm") r.pti = PTI_INST_VMPTRLD;
	else if (n == "VMCLEARm" || n == "VMXON") r.anypti = true;	// internally treated like VMPTRLD
	else if (n == "MOV32cr" || n == "MOV64cr") { if (i.getOperand(0).isReg() && i.getOperand(0).getReg() < d.ri->getNumRegs() && !strcmp(d.ri->getName(i.getOperand(0).getReg()), "CR3")) r.pti = PTI_INST_MOV_CR3; }
	return true;
}

struct Ild { int e; unsigned size; int cls, pti; bool direct; int64_t disp; };
static Ild ild(const uint8_t *b, unsigned size, int m, uint8_t junk)
{
	struct pt_insn *in = (struct pt_insn *)calloc(1, sizeof(*in)); struct pt_insn_ext ie; memset(&ie, 0xcc, sizeof(ie));
	in->mode = (enum pt_exec_mode)(ptem_16bit + m); in->size = (uint8_t)size; memset(in->raw, junk, sizeof(in->raw)); memcpy(in->raw, b, size);
	Ild r; memset(&r, 0, sizeof(r)); r.e = pt_ild_decode(in, &ie);
	if (r.e >= 0) { r.size = in->size; r.cls = in->iclass; r.pti = ie.iclass; r.direct = ie.variant.branch.is_direct; r.disp = r.direct ? ie.variant.branch.displacement : 0; }
	free(in); return r;
}
static std::string str(const Ild &i) { return i.e < 0 ? strf("error %d", i.e) : strf("size %u, class %d/%d%s", i.size, i.cls, i.pti, i.direct ? strf(", displacement %lld", (long long)i.disp).c_str() : ""); }
static bool same(const Ild &a, const Ild &b) { return a.e == b.e && a.size == b.size && a.cls == b.cls && a.pti == b.pti && a.direct == b.direct && a.disp == b.disp; }
static const char *const modes[] = {"16-bit", "32-bit", "64-bit"};

// Returns true if the reference had an opinion.
static bool compare(const uint8_t *b, int m, Ref &r)
{
	if (!reference(b, m, r)) return false;
	Ild i = ild(b, 15, m, 0);
	CHECK(i.e >= 0, "%s %s: got error %d, expected %s, %u bytes", modes[m], hex(b, 15).c_str(), i.e, r.name.c_str(), r.len);
	CHECK(i.size == r.len, "%s %s: got %u bytes, expected %s, %u bytes", modes[m], hex(b, 15).c_str(), i.size, r.name.c_str(), r.len);
	if (!r.anyclass) CHECK(i.cls == r.cls, "%s %s: %s: got class %d, expected %d", modes[m], hex(b, r.len).c_str(), r.name.c_str(), i.cls, r.cls);
	if (!r.anypti) CHECK(i.pti == r.pti, "%s %s: %s: got internal class %d, expected %d", modes[m], hex(b, r.len).c_str(), r.name.c_str(), i.pti, r.pti);
	if (!r.anyclass && i.pti != PTI_INST_JMPABS) CHECK(i.direct == r.direct && i.disp == r.disp, "%s %s: %s: got %s, expected displacement %s%lld", modes[m], hex(b, r.len).c_str(), r.name.c_str(), str(i).c_str(), r.direct ? "" : "none ", (long long)r.disp);
	return true;
}

// Properties of the decode of any bytes.
static void relations(Source &s, const uint8_t *b, int m)
{
	Ild i = ild(b, 15, m, 0); unsigned len = i.e < 0 ? 16 : i.size;
	CHECK(i.e == 0 || i.e == -pte_bad_insn, "%s %s: error %d", modes[m], hex(b, 15).c_str(), i.e);
	CHECK(i.e < 0 || (i.size >= 1 && i.size <= 15), "%s %s: size %u", modes[m], hex(b, 15).c_str(), i.size);
	for (unsigned n = 0; n < 15; ++n) {
		Ild j = ild(b, n, m, s.byte());
		if (n < len) CHECK(j.e == -pte_bad_insn, "%s %s: %u bytes suffice for an instruction of %u bytes: %s", modes[m], hex(b, 15).c_str(), n, len, str(j).c_str());
		else CHECK(same(i, j), "%s %s: with %u bytes: got %s, expected %s", modes[m], hex(b, 15).c_str(), n, str(j).c_str(), str(i).c_str());
	}
	if (i.e < 0) return;
	// A segment override (or, in front of a legacy prefix, a stray REX) only adds a byte.
	static const uint8_t seg[] = {0x26, 0x2e, 0x36, 0x3e, 0x64, 0x65};
	Pfx p = prefixes(b, m); uint8_t c[16]; bool legacy = p.n && !(m == 2 && (b[0] & 0xf0) == 0x40);
	c[0] = legacy && m == 2 && s.flip() ? (uint8_t)(0x40 | s.below(16)) : seg[s.below(6)]; memcpy(c + 1, b, 15);
	Ild j = ild(c, 15, m, 0);
	if (len == 15) CHECK(j.e == -pte_bad_insn, "%s %s: instruction of 16 bytes: %s", modes[m], hex(c, 16).c_str(), str(j).c_str());
	else { Ild k = i; k.size++; CHECK(same(j, k), "%s %s: with an additional prefix %02x: got %s, expected %s", modes[m], hex(b, 15).c_str(), c[0], str(j).c_str(), str(k).c_str()); }
}

static void tail(Source &s, uint8_t *b, unsigned l) { while (l < 15) b[l++] = s.chance(1, 3) ? (uint8_t)((s.flip() ? 0x05 : 0x04) | (s.byte() & 0xf8)) : s.byte(); }

static const uint8_t pfx[] = {0x26, 0x2e, 0x36, 0x3e, 0x64, 0x65, 0x66, 0x67, 0xf0, 0xf2, 0xf3, 0x66, 0x66, 0x67, 0xf2, 0xf3};
static void gen_insn(Source &s, int m, uint8_t *b)
{
	static const uint8_t branch[] = {0xe8, 0xe9, 0xeb, 0xe0, 0xe1, 0xe2, 0xe3, 0xff, 0xff, 0xc2, 0xc3, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0x9a, 0xea, 0xf1, 0x70, 0x75, 0x7f};
	static const uint8_t branch0f[] = {0x80, 0x85, 0x8f, 0x05, 0x07, 0x34, 0x35, 0x01, 0xae, 0x22, 0xc7, 0x20};
	unsigned l = 0, np = s.chance(1, 3) ? (unsigned)s.range(1, 4) : 0; if (s.chance(1, 3)) np++; if (s.chance(1, 40)) np += (unsigned)s.below(11);
	while (np--) b[l++] = pfx[s.below(16)];
	if (m == 2 && s.chance(1, 3)) b[l++] = (uint8_t)(0x40 | s.below(16));
	bool v = m == 2;
	switch (s.below(9)) {
	case 0: case 1: b[l++] = s.byte(); break;
	case 2: b[l++] = 0x0f; b[l++] = s.byte(); break;
	case 3: b[l++] = 0x0f; b[l++] = s.flip() ? 0x38 : 0x3a; b[l++] = s.byte(); break;
	case 4: b[l++] = 0xc5; b[l++] = (uint8_t)(s.byte() | (v ? 0 : 0xc0)); b[l++] = s.byte(); break;
	case 5: b[l++] = 0xc4; b[l++] = (uint8_t)((s.byte() & ~0x1f) | (v ? 0 : 0xc0) | (s.chance(7, 8) ? 1 + s.below(3) : s.below(32))); b[l++] = s.byte(); b[l++] = s.byte(); break;
	case 6: b[l++] = 0x62; b[l++] = (uint8_t)((s.byte() & ~0xf) | (v ? 0 : 0xc0) | (s.chance(7, 8) ? 1 + s.below(6) : s.below(16))); b[l++] = (uint8_t)(s.byte() | 4); b[l++] = s.byte(); b[l++] = s.byte(); break;
	case 7: b[l++] = v ? 0xd5 : s.byte(); b[l++] = s.byte(); if (v && s.chance(1, 6)) { b[l - 1] &= 0x77; b[l++] = 0xa1; } else b[l++] = s.byte(); break;
	default: if (s.flip()) b[l++] = branch[s.below(sizeof(branch))]; else { b[l++] = 0x0f; b[l++] = branch0f[s.below(sizeof(branch0f))]; } if (s.chance(1, 6)) b[l++] = (uint8_t)(0xc0 | s.below(64)); break;
	}
	if (l < 15 && s.chance(1, 3)) b[l++] = s.byte();
	if (l > 15) l = 15;
	tail(s, b, l);
}

static void diff(Source &s, Ctx &c)
{
	unsigned n = (unsigned)s.range(1, 24), acc = 0, cls = 0; uint64_t h = n;
	while (n--) {
		int m = (int)s.below(3); uint8_t b[32] = {0}; gen_insn(s, m, b);
		c.describe([&] { return strf("%s: %s\n", modes[m], hex(b, 15).c_str()); });
		Ref r; if (compare(b, m, r)) { acc++; h = mix(h, fnv(b, r.len)); c.label(modes[m]); if (r.cls != ptic_other) { c.label("branch"); cls++; } }
		relations(s, b, m);
	}
	c.label("instructions compared", acc);
	if (acc) c.nontrivial(h);
}

// All modrm bytes for one combination of mode, prefixes, and opcode.
static void sweep(Source &s, Ctx &c)
{
	static const std::vector<Bytes> pre = {{}, {0x66}, {0x67}, {0xf2}, {0xf3}, {0x66, 0x67}, {0x66, 0xf2}, {0xf3, 0x66}, {0xf0}, {0x2e}, {0x67, 0xf3}, {0xf2, 0x67}, {0x66, 0x66}, {0xf3, 0xf2}};
	int m = (int)s.below(3); uint8_t b[32]; unsigned l = 0, acc = 0; const Bytes &p = pre[s.below(pre.size())]; for (uint8_t x : p) b[l++] = x;
	if (m == 2 && s.flip()) b[l++] = (uint8_t)(0x40 | s.below(16));
	bool v = m == 2; unsigned map = (unsigned)s.below(7), op = s.byte(); bool one = false;
	switch (map) {
	case 0: break;
	case 1: b[l++] = 0x0f; break;
	case 2: b[l++] = 0x0f; b[l++] = 0x38; break;
	case 3: b[l++] = 0x0f; b[l++] = 0x3a; break;
	case 4: b[l++] = 0xc5; b[l++] = (uint8_t)(s.byte() | (v ? 0 : 0xc0) | (s.flip() ? 0x78 : 0)); break;
	case 5: b[l++] = 0xc4; b[l++] = (uint8_t)((s.byte() & ~0x1f) | (v ? 0 : 0xc0) | (1 + s.below(3))); b[l++] = (uint8_t)(s.byte() | (s.flip() ? 0x78 : 0)); break;
	case 6: b[l++] = 0x62; b[l++] = (uint8_t)((s.byte() & ~0xf) | (v ? 0 : 0xc0) | (1 + s.below(6))); b[l++] = (uint8_t)(s.byte() | 4 | (s.flip() ? 0x78 : 0)); b[l++] = (uint8_t)(s.byte() | (s.flip() ? 8 : 0)); break;
	}
	b[l++] = (uint8_t)op; (void)one;
	uint8_t t[16]; tail(s, t, 0); uint8_t t2[16]; tail(s, t2, 0); uint64_t rel = s.below(256);
	c.describe([&] { return strf("%s: %s followed by any modrm byte and %s or %s\n", modes[m], hex(b, l).c_str(), hex(t, 10).c_str(), hex(t2, 10).c_str()); });
	for (unsigned k = 0; k < 256; ++k) {
		b[l] = (uint8_t)k; memcpy(b + l + 1, (k ^ (k >> 3)) & 1 ? t : t2, 15 - l - 1);
		Ref r; if (compare(b, m, r)) acc++;
		if (k == rel) relations(s, b, m);
	}
	c.label("instructions compared", acc); c.label(strf("map %u", map).c_str());
	if (acc) c.nontrivial(mix(fnv(b, l), (uint64_t)m));
}

// Straight-line runs of generated instructions through the public decoders.
struct Exp { uint64_t ip; Ref r; uint8_t raw[16]; bool trunc; int isid; };
struct Seg { uint64_t base; Bytes code; };
static void exec(Source &s, Ctx &c)
{
	int m = (int)s.below(3);
	std::vector<Exp> x; std::vector<Seg> segs; Bytes file; std::string desc;
	Bytes pt; auto emit = [&](pt_packet p) { CHECK(wire::encode(pt, p), "encode"); };
	auto pk = [](int t) { pt_packet p; memset(&p, 0, sizeof(p)); p.type = (pt_packet_type)t; return p; };
	auto ip = [&](int t, uint64_t a) { pt_packet p = pk(t); p.payload.ip.ipc = pt_ipc_full; p.payload.ip.ip = a; emit(p); };
	uint64_t lim = m == 0 ? 0xffff : m == 1 ? 0xffffffff : 0x7fffffffffffull;
	auto place = [&]() { return m == 0 ? s.range(0x100, 0xf000) : m == 1 ? s.range(0x1000, 0xf0000000) : s.flip() ? s.range(0x1000, 0x7ff000000000ull) : 0xffff800000000000ull + s.below(0x7ff000000000ull); };
	auto high = [&](uint64_t a) { return m == 2 && a >> 63; };
	auto fits = [&](uint64_t a, uint64_t n) { for (auto &g : segs) if (a < g.base + g.code.size() + 16 && g.base < a + n + 16) return false; if (high(a)) return a >= 0xffff800000000000ull && a + n > a; return a + n <= lim; };
	uint64_t cur = place(); emit(pk(ppt_psb)); { pt_packet p = pk(ppt_mode); p.payload.mode.leaf = pt_mol_exec; p.payload.mode.bits.exec.csl = m == 2; p.payload.mode.bits.exec.csd = m == 1; emit(p); } ip(ppt_fup, cur); emit(pk(ppt_psbend));
	unsigned nseg = (unsigned)s.range(1, 5), branches = 0; bool shortend = false; int enderr = 0; std::vector<bool> bits;
	auto flush = [&]() { while (!bits.empty()) { pt_packet p = pk(ppt_tnt_8); unsigned n = bits.size() < 6 ? (unsigned)bits.size() : 6; p.payload.tnt.bit_size = (uint8_t)n; for (unsigned i = 0; i < n; ++i) p.payload.tnt.payload = p.payload.tnt.payload << 1 | (bits[i] ? 1 : 0); bits.erase(bits.begin(), bits.begin() + n); emit(p); } };
	for (unsigned k = 0; k < nseg; ++k) {
		Seg g; g.base = cur; unsigned want = (unsigned)s.range(1, 12); size_t first = x.size(); bool done = false, end = false;
		if (!fits(cur, 15 * want + 15)) { enderr = 0; break; }
		while (!done && want) {
			uint8_t b[32] = {0}; gen_insn(s, m, b);
			Exp e; if (!reference(b, m, e.r) || e.r.anyclass || e.r.anypti || e.r.pti == PTI_INST_JMPABS) { if (s.chance(1, 30)) want--; continue; }
			if (want == 1 && e.r.cls == ptic_other && !s.chance(1, 6)) { if (s.chance(1, 30)) want--; continue; }
			want--; e.ip = cur; memcpy(e.raw, b, 16); e.trunc = false; e.isid = 0; uint64_t next = cur + e.r.len, tgt = next + (uint64_t)e.r.disp;
			g.code.insert(g.code.end(), b, b + e.r.len); x.push_back(e);
			switch (e.r.cls) {
			case ptic_other: case ptic_ptwrite: cur = next; break;
			case ptic_cond_jump: branches++; if (s.flip()) { bits.push_back(true); cur = tgt; done = true; } else { bits.push_back(false); cur = next; } break;
			case ptic_jump: case ptic_call: branches++; done = true; if (e.r.direct) { cur = tgt; break; }	// fallthrough
			default: branches++; done = true; cur = place(); flush(); ip(ppt_tip, cur); break;
			}
			if (e.r.cls != ptic_other && e.r.cls != ptic_ptwrite && e.r.direct && (m < 2) && (tgt > lim || tgt < 0x10)) { end = true; if (done) { x.pop_back(); g.code.resize(g.code.size() - e.r.len); if (e.r.cls == ptic_cond_jump) bits.pop_back(); cur = e.ip; } }
			// A wrap around is not modelled.
			if (end) break;
		}
		if (end) { if (x.size() > first) { segs.push_back(g); } enderr = -pte_nomap; shortend = true; break; }
		if (!done) {
			// Falls off the end of the segment, possibly in the middle of an instruction.
			uint8_t b[32] = {0}; gen_insn(s, m, b); Ref r;
			if (s.flip() && reference(b, m, r) && r.len > 1) { g.code.insert(g.code.end(), b, b + s.range(1, r.len - 1)); enderr = -pte_bad_insn; } else enderr = -pte_nomap;
			segs.push_back(g); shortend = true; break;
		}
		segs.push_back(g); if (k + 1 == nseg) enderr = fits(cur, 1) ? -pte_nomap : 0;
	}
	flush(); if (x.empty() || segs.empty()) throw Discard{};
	(void)shortend;
	// Lay the segments out in sections.
	struct Sec { uint64_t va, off, n; int isid; }; std::vector<Sec> secs;
	for (auto &g : segs) {
		uint64_t o = 0; bool cut = s.flip();
		while (o < g.code.size()) { uint64_t n = cut ? s.range(1, g.code.size() - o < 20 ? g.code.size() - o : 20) : g.code.size() - o; for (unsigned k = (unsigned)s.below(3); k; --k) file.push_back(0xcc); secs.push_back({g.base + o, file.size(), n, 0}); file.insert(file.end(), g.code.begin() + (long)o, g.code.begin() + (long)(o + n)); o += n; }
	}
	struct Fd { int fd; ~Fd() { close(fd); } } fd{memfd_create("c09", 0)}; CHECK(fd.fd >= 0 && write(fd.fd, file.data(), file.size()) == (ssize_t)file.size(), "memfd");
	std::string name = strf("/proc/self/fd/%d", fd.fd);
	struct Cache { pt_image_section_cache *c; ~Cache() { pt_iscache_free(c); } } ic{pt_iscache_alloc("c09")}; struct Img { pt_image *i; ~Img() { pt_image_free(i); } } img{pt_image_alloc("c09")};
	for (auto &q : secs) { q.isid = pt_iscache_add_file(ic.c, name.c_str(), q.off, q.n, q.va); CHECK(q.isid > 0, "pt_iscache_add_file: %d", q.isid); int e = pt_image_add_cached(img.i, ic.c, q.isid, nullptr); CHECK(e == 0, "pt_image_add_cached: %d", e); }
	unsigned ntrunc = 0;
	for (auto &e : x) for (auto &q : secs) if (e.ip >= q.va && e.ip < q.va + q.n) { e.isid = q.isid; e.trunc = e.ip + e.r.len > q.va + q.n; ntrunc += e.trunc; }
	c.describe([&] { std::string d = strf("%s mode, trace %s\n", modes[m], hex(pt).c_str()); for (auto &e : x) d += strf("  %llx: %-24s %s%s\n", (unsigned long long)e.ip, e.r.name.c_str(), hex(e.raw, e.r.len).c_str(), e.trunc ? " (crosses sections)" : ""); return d + strf("  then %d at %llx\n", enderr, (unsigned long long)cur); });
	Buf buf(pt, (unsigned)s.below(8)); pt_config cfg = wire::mkconfig(buf.p, pt.size());
	{
		struct G { pt_insn_decoder *d; ~G() { pt_insn_free_decoder(d); } } d{pt_insn_alloc_decoder(&cfg)}; CHECK(d.d, "alloc"); CHECK(pt_insn_set_image(d.d, img.i) == 0, "set_image");
		int st = pt_insn_sync_forward(d.d); size_t i = 0;
		for (;; ++i) {
			while (st >= 0 && (st & pts_event_pending)) { pt_event ev; st = pt_insn_event(d.d, &ev, sizeof(ev)); }
			if (st < 0) break;
			pt_insn in; memset(&in, 0xee, sizeof(in)); st = pt_insn_next(d.d, &in, sizeof(in)); if (st < 0) break;
			if (i >= x.size()) { if (!enderr) break; fail("insn: got an instruction at %llx behind the end", (unsigned long long)in.ip); }
			Exp &e = x[i];
			CHECK(in.ip == e.ip, "insn %zu: got ip %llx, expected %llx (%s)", i, (unsigned long long)in.ip, (unsigned long long)e.ip, e.r.name.c_str());
			CHECK(in.size == e.r.len, "insn %zu at %llx: got size %u, expected %u (%s)", i, (unsigned long long)e.ip, in.size, e.r.len, e.r.name.c_str());
			CHECK(!memcmp(in.raw, e.raw, e.r.len), "insn %zu at %llx: got %s, expected %s", i, (unsigned long long)e.ip, hex(in.raw, in.size).c_str(), hex(e.raw, e.r.len).c_str());
			CHECK(in.iclass == e.r.cls, "insn %zu at %llx: got class %d, expected %d (%s)", i, (unsigned long long)e.ip, in.iclass, e.r.cls, e.r.name.c_str());
			CHECK(in.mode == (pt_exec_mode)(ptem_16bit + m), "insn %zu: got mode %d", i, in.mode);
			CHECK(in.truncated == e.trunc, "insn %zu at %llx: got truncated=%u, expected %u", i, (unsigned long long)e.ip, in.truncated, e.trunc);
			CHECK(in.isid == e.isid, "insn %zu at %llx: got isid %d, expected %d", i, (unsigned long long)e.ip, in.isid, e.isid);
		}
		CHECK(i == x.size(), "insn: got %zu instructions and %d, expected %zu", i, st, x.size());
		if (enderr) CHECK(st == enderr || st == -pte_eos, "insn: got %d at the end, expected %d", st, enderr);
	}
	{
		struct G { pt_block_decoder *d; ~G() { pt_blk_free_decoder(d); } }; cfg.flags.variant.block.end_on_call = s.flip(); cfg.flags.variant.block.end_on_jump = s.flip();
		G d{pt_blk_alloc_decoder(&cfg)}; CHECK(d.d, "alloc"); CHECK(pt_blk_set_image(d.d, img.i) == 0, "set_image");
		int st = pt_blk_sync_forward(d.d); size_t i = 0;
		for (;;) {
			while (st >= 0 && (st & pts_event_pending)) { pt_event ev; st = pt_blk_event(d.d, &ev, sizeof(ev)); }
			if (st < 0) break;
			pt_block b; memset(&b, 0, sizeof(b)); st = pt_blk_next(d.d, &b, sizeof(b));
			if (!b.ninsn) { if (st < 0) break; continue; }
			if (!enderr && i + b.ninsn > x.size()) { i = x.size(); break; }
			CHECK(i + b.ninsn <= x.size(), "block %llx..%llx: got %u instructions, expected at most %zu", (unsigned long long)b.ip, (unsigned long long)b.end_ip, b.ninsn, x.size() - i);
			Exp &f = x[i], &e = x[i + b.ninsn - 1];
			CHECK(b.ip == f.ip && b.end_ip == e.ip, "block at instruction %zu with %u instructions: got %llx..%llx, expected %llx..%llx", i, b.ninsn, (unsigned long long)b.ip, (unsigned long long)b.end_ip, (unsigned long long)f.ip, (unsigned long long)e.ip);
			for (size_t k = i; k + 1 < i + b.ninsn; ++k) CHECK(x[k].r.cls != ptic_cond_jump && x[k].r.cls != ptic_return && (x[k].r.direct || x[k].r.cls == ptic_other || x[k].r.cls == ptic_ptwrite), "block %llx..%llx contains %s", (unsigned long long)b.ip, (unsigned long long)b.end_ip, x[k].r.name.c_str());
			CHECK(b.iclass == ptic_unknown || b.iclass == e.r.cls || (b.iclass == ptic_indirect && !e.r.direct && e.r.cls != ptic_other), "block %llx..%llx: got class %d, expected %d (%s)", (unsigned long long)b.ip, (unsigned long long)b.end_ip, b.iclass, e.r.cls, e.r.name.c_str());
			CHECK(b.isid == f.isid, "block %llx..%llx: got isid %d, expected %d", (unsigned long long)b.ip, (unsigned long long)b.end_ip, b.isid, f.isid);
			CHECK(b.truncated == e.trunc, "block %llx..%llx: got truncated=%u, expected %u", (unsigned long long)b.ip, (unsigned long long)b.end_ip, b.truncated, e.trunc);
			if (b.truncated) CHECK(b.size == e.r.len && !memcmp(b.raw, e.raw, b.size), "block %llx..%llx: got truncated instruction %s, expected %s", (unsigned long long)b.ip, (unsigned long long)b.end_ip, hex(b.raw, b.size < 16 ? b.size : 16).c_str(), hex(e.raw, e.r.len).c_str());
			i += b.ninsn; if (st < 0) break;
		}
		CHECK(i == x.size(), "block: got %zu instructions and %d, expected %zu", i, st, x.size());
		if (enderr) CHECK(st == enderr || st == -pte_eos, "block: got %d at the end, expected %d", st, enderr);
	}
	c.label("instructions executed", x.size()); c.label("branches", branches); c.label("instructions crossing sections", ntrunc); c.label(enderr == -pte_bad_insn ? "ends within an instruction" : enderr ? "ends at unmapped memory" : "other end");
	if (x.size() >= 2) c.nontrivial(mix(fnv(pt.data(), pt.size()), fnv(file.data(), file.size())));
}

int main(int argc, char **argv)
{
	init();
	return run_main(argc, argv, "C09", {
		{"C09", "diff", "one to 24 byte strings of 15 bytes with random prefixes, opcode maps and tails in a random mode; at least one of them an instruction for the reference disassembler", diff, 2400000, 80000000},
		{"C09", "sweep", "a mode, prefix combination and opcode (legacy maps, VEX, EVEX) with all 256 modrm bytes; at least one of them an instruction for the reference disassembler", sweep, 240000, 12000000},
		{"C09", "exec", "1-5 straight-line runs of up to 12 generated instructions, linked by their branches and scattered over sections, decoded by the instruction and block decoder; at least two instructions", exec, 240000, 12000000},
	});
}
