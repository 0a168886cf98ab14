#!/usr/bin/env python3
# Generates MANIFEST.json.  CLAIMED lists the properties with a check.
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 "C01": ("model-based PBT of encoder histories vs reference wire encoder; round trip", "2 reference suites; trusts src/ptwire.hpp (written from the SDM)"),
 "C02": ("differential PBT of packet decoder vs reference decoder", "trusts src/ptwire.hpp; payload values are sampled, opcodes are covered densely"),
 "C03": ("stateful PBT of synchronization vs pattern scan", "PSB defined as the last 16 bytes of a maximal pattern run"),
 "C05": ("model-based PBT: a tracer model generates packets and the events they encode", "trusts src/tracer.hpp and src/evgen.hpp; timestamps compared only for TSC-only traces (estimates are C12's)"),
 "C06": ("stateful model-based PBT: matching and mismatching query histories vs a cursor over the encoded events", "trusts src/tracer.hpp and src/evgen.hpp; query order is sampled"),
 "C07": ("model-based PBT: a simulated processor executes generated programs and traces itself; the decoder must replay the execution", "trusts src/sim.hpp and src/tracer.hpp; ambiguous traces (a disable without IP behind MOV CR3) are not generated"),
 "C08": ("model-based PBT: blocks are expanded with the generated program and compared with the simulated execution, with cold and warm caches", "as C07; block boundaries are only checked where a flag, event, section or trace need determines them"),
 "C13": ("stateful model-based PBT: random histories of synchronization and (partial, failing) decode on every layer, each compared with the simulated execution from that synchronization point", "generated traces have complete PSB+ headers; broken segments end in an unknown opcode"),
 "C12": ("simulation-based PBT: a clock model emits timing packets; reported time vs true time with derived error bounds", "frequency changes, dropped MTCs, CYC spans, overflows, SKL168, missing configuration; bounds derived from rounding of the calibration ratio"),
 "C04": ("structure-aware fuzzing of all decoder layers under AddressSanitizer, UBSan and MemorySanitizer (mutated simulated traces, packet soup, arbitrary bytes, API call histories), coverage-guided with libFuzzer in the thorough tier", "quick: 1.3 million cases; thorough: 25 million and ten minutes of libFuzzer on eight cores; loops are cut off after 300000 instructions or 1000 calls at one offset; unaligned loads (deliberate on x86) are not reported"),
 "C09": ("property-based testing: differential against LLVM's x86 disassembler plus truncation/extension relations; generated code run through the public decoders", "Generated byte strings in all three modes; length, class, displacement compared with LLVM 18 where it accepts them; AMD-only and APX encodings LLVM gets wrong are not compared (see DESIGN.md)."),
 "C10": ("property-based testing: model-based operation histories on images, section cache and decoders against an address-space indexed byte map", "Random histories of up to 40 operations over up to 3 files and two images; internal pt_image_read plus instruction/block decoders as readers. Sections ending beyond 2^64 are not generated; reads that match several sections through unknown address-space fields accept any of them."),
 "C11": ("model-based property testing of section cache histories (wrapped mmap/malloc as observers, injected mmap failures), growth, big and changing files, and generated multi-threaded histories", "Complete model of identifiers, contents, sharing, memory limit, LRU order and leaks; threads free-running under ASan; schedules and races in C22."),
 "C22": ("generated executions decoded by several threads under ThreadSanitizer with perturbed lock operations, and controlled schedules (the generated test case picks the thread at every lock operation)", "Race detection depends on the schedules reached; controlled schedules interleave at lock operations only. Cache clearing/freeing while in use by other threads is not generated."),
 "C14": ("property-based testing: generated configurations, CPU identifiers and filters against a table/interval reference model", "All structure sizes 0..full+200 around every field boundary through all six allocation functions; errata against an independent table; filter evaluation against an interval model; cpu strings against a strict parser model. ASan/UBSan."),
 "C15": ("property-based testing: twin decoders (differential), one with generated output sizes, omitted optional and invalid arguments", "All five decoder layers on simulated, random and damaged trace; all output sizes 0..full+320 in exactly sized heap objects under ASan; state compared after every call; images with asid objects of any size."),
 "C16": ("property-based testing: round trip, independent layout encoder and parser (differential), 128-bit arithmetic oracle", "All record types and sample configurations; streams into bounded buffers; damaged records in exactly sized heap buffers under ASan against an independent parser; old configuration sizes; time conversion for shifts 0..32."),
 "C17": ("property-based testing: stateful model-based generation (sessions, perf event histories), fault injection into sideband files", "Session protocol against a model with generated callbacks; histories of perf event records on up to four channels written with an independent encoder, trace events and user operations against a model of processes and image contents, notifier calls and printed text; damaged files under ASan with leak checks"),
 "C18": ("differential property-based testing of ptdump, run in-process on generated traces, perf event files and command lines, against a reference printer", "quick: 1.3M generated command lines and traces; the time columns rely on libipt's time tracking, decided by C12"),
 "C19": ("property-based testing of pttc compiled into the harness: generated annotated assembly files (code, sections, includes, macros, labels, packet and sideband directives, expected-output text) against reference encoders and the generator's own layout; a catalogue of mistakes; damaged comments", "sources assembled by the real yasm; mistakes limited to documented constraints; damage only in comments"),
 "C20": ("property-based testing with generated traces and command lines against a scan for the synchronization pattern", "ptseg is compiled into the harness and run on whole, cut, overlong and look-alike PSB packets; expected range from an independent scan; exit status, output and leaks checked"),
 "C21": ("fault injection: property-based testing of histories with a failing n-th resource operation against the same history without it", "memory, file, mapping and lock creation calls are failed one at a time (or from one on) via link wrapping in generated histories over images, sections, caches, decoders and sideband; result, later behaviour and leaks compared with an undisturbed twin"),
}
checks = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"./run.sh {i} --thorough", "technique": t, "level": "exploration", "level_note": n})
na = [{"property": json.loads(l)["id"], "reason": "check not built yet"} for l in open(os.path.join(ROOT, "properties.jsonl")) if json.loads(l)["id"] not in CLAIMED]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
