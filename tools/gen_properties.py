#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property list is here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

L = "libipt/src/"
prop("C01", "Packet encoder writes the documented wire format and round-trips",
  "For every packet the encoder accepts, the bytes written are the Intel PT wire encoding of that packet, and decoding them yields the same packet type, payload and size. A packet that is invalid or does not fit into the remaining buffer is rejected with an error, and then neither the buffer nor the encoder position changes. Encoding never writes outside the configured buffer.",
  ["inputs", "histories"], "every packet type, every payload field value and compression, every sequence of encoder calls and repositionings, every buffer size",
  "Tests encode one or two payloads per packet type into an empty large buffer; they do not vary all payload fields or check rejected packets, near-full buffers and call histories.",
  [L+"pt_encoder.c", L+"pt_packet.c", L+"pt_packet_decoder.c", "libipt/internal/include/pt_opcodes.h"],
  [("space check before writing", L+"pt_encoder.c: pt_reserve"), ("per-type encoding", L+"pt_encoder.c: pt_enc_next")],
  observe=["pt_enc_next", "pt_enc_get_offset", "pt_enc_sync_set", "pt_pkt_next"])
prop("C02", "Packet decoder agrees with the wire format on arbitrary bytes",
  "From any position in any byte buffer, decoding a packet either returns the packet that the Intel PT wire format assigns to these bytes, with its exact size, and advances by that size, or fails with the documented error (end of stream, unknown opcode, bad payload) and leaves the position unchanged. Bytes at or beyond the end of the buffer never influence the result. Unknown opcodes are handed to the user's callback with the correct position, and its result decides what is returned.",
  ["inputs", "histories"], "all byte strings, all start offsets, all buffer lengths including truncated packets, with and without an unknown-packet callback",
  "Tests decode well-formed packets produced by the encoder; reserved bits, truncation at each byte and arbitrary byte patterns are not sampled.",
  [L+"pt_packet_decoder.c", L+"pt_packet.c", "libipt/internal/include/pt_opcodes.h"],
  [("opcode dispatch", L+"pt_packet_decoder.c: pt_pkt_decode"), ("bounds checks", L+"pt_packet.c: pt_pkt_read_*")],
  observe=["pt_pkt_next", "pt_pkt_get_offset"])
prop("C03", "Synchronization finds exactly the synchronization points",
  "Repeated forward (backward) synchronization visits every PSB packet of the trace buffer in increasing (decreasing) order, regardless of alignment and surrounding bytes, and then reports end of stream; it never reports a position where there is no PSB. Setting the synchronization point explicitly succeeds exactly where the layer's contract allows it. The reported offsets of position and synchronization point always match the synchronization performed.",
  ["inputs", "histories"], "all placements and alignments of PSB packets and near-PSB patterns in buffers of any size, all interleavings of sync calls and packet decoding, on all five decoder layers",
  "Tests place one or two PSB packets at fixed offsets in aligned buffers.",
  [L+"pt_sync.c", L+"pt_packet_decoder.c", L+"pt_event_decoder.c", L+"pt_query_decoder.c", L+"pt_insn_decoder.c", L+"pt_block_decoder.c"],
  [("PSB search", L+"pt_sync.c: pt_sync_forward, pt_sync_backward, pt_find_psb")],
  observe=["pt_*_sync_forward", "pt_*_sync_backward", "pt_*_sync_set", "pt_*_get_offset", "pt_*_get_sync_offset"])
prop("C04", "Decoders are memory safe and terminate on arbitrary traces",
  "For any trace bytes, configuration, memory image and sequence of API calls, every decoder layer finishes each call, stays inside the objects it was given (no out-of-bounds access, no result depending on uninitialised memory, no undefined behaviour, no leak), and does not modify the trace or the image. Every call returns success or a documented error code. A user who takes pending events before proceeding and who synchronizes again after a decode error never sees an internal error (-pte_internal), whatever the trace. A decode loop that follows the documentation reaches the end of the trace after a bounded number of calls.",
  ["inputs", "histories", "configurations"], "all trace byte strings (valid, mutated, arbitrary), all configurations, images and call sequences on the packet, event, query, instruction flow and block layers",
  "Unit tests hand the upper-layer decoders hardly any trace (the instruction and block decoders decode none at all) and never malformed traces.",
  [L+"pt_event_decoder.c", L+"pt_query_decoder.c", L+"pt_insn_decoder.c", L+"pt_block_decoder.c", L+"pt_packet_decoder.c", L+"pt_time.c"],
  [("error propagation and sync state", L+"pt_event_decoder.c"), ("bounded queues", L+"pt_event_queue.c")])
prop("C05", "Event layer reports exactly the events encoded in the trace",
  "For every packet sequence that is legal for Intel PT, the event decoder delivers exactly the events that the sequence encodes, in trace order, with the correct type, IP, payload, binding and status-update flag. Compressed IPs are reconstructed exactly from the preceding IP packets. Overflow, synchronization-point headers and the configured processor errata are taken into account.",
  ["inputs", "histories", "configurations"], "all legal sequences of packets (branches, modes, paging, VMCS, TSX, power, PTWRITE, event tracing, triggers, overflow, PSB+ headers), all IP compressions, all errata settings",
  "Existing tests check a fixed list of short packet sequences for some packet types, mostly one event at a time.",
  [L+"pt_event_decoder.c", L+"pt_event_queue.c", L+"pt_last_ip.c"],
  [("binding of packets to events", L+"pt_event_decoder.c: pt_evt_decode_*"), ("last-ip", L+"pt_last_ip.c")],
  observe=["pt_evt_next"])
prop("C06", "Query layer answers branch queries and events consistently with the trace",
  "Driving the query decoder along an execution yields, in order, exactly the taken/not-taken outcomes, indirect branch targets and events recorded in the trace. The returned status always announces a pending event, a suppressed IP and the end of the trace correctly. A query that does not match the trace fails with the documented error and does not lose trace contents.",
  ["inputs", "histories"], "all legal packet sequences and all interleavings of conditional, indirect, event and time queries, including mismatched ones",
  "Existing tests issue a handful of queries against hand-written packet sequences.",
  [L+"pt_query_decoder.c", L+"pt_event_decoder.c", L+"pt_tnt_cache.c"],
  [("query dispatch", L+"pt_query_decoder.c")],
  observe=["pt_qry_cond_branch", "pt_qry_indirect_branch", "pt_qry_event", "pt_qry_sync_*", "pt_qry_time"])
prop("C07", "Instruction flow decoder reconstructs the executed instructions",
  "For every program, every execution of it and the Intel PT trace of that execution, the instruction flow decoder delivers exactly the executed instructions in execution order, with correct address, size, raw bytes, class, execution mode and speculation state. Asynchronous and synchronous events are delivered at exactly the instruction at which they occurred, with the correct addresses. Returns may be compressed or not, tracing may be enabled and disabled, and the address space may change at any point.",
  ["programs", "inputs", "histories", "configurations"], "all programs in 16, 32 and 64 bit mode, all executions with interrupts, mode changes, transactions, paging, overflows, trace stops, address filters, power events and triggers",
  "The instruction flow decoder's unit tests check NULL arguments and configuration only; no trace is decoded by the test suite.",
  [L+"pt_insn_decoder.c", L+"pt_insn.c", L+"pt_ild.c", L+"pt_retstack.c", L+"pt_event_decoder.c", L+"pt_image.c"],
  [("proceed and event processing", L+"pt_insn_decoder.c"), ("return compression", L+"pt_retstack.c")],
  observe=["pt_insn_next", "pt_insn_event", "pt_insn_sync_*"])
prop("C08", "Block decoder reconstructs the same execution as the instruction flow",
  "Expanding the blocks delivered by the block decoder gives exactly the executed instructions in execution order, with correct first and last address, instruction count, class, mode, speculation state and section identifier. Events are delivered between the same instructions and with the same contents as by the instruction flow decoder. This holds for every cache state, repeated decode, self-overlapping sections, truncated instructions at section borders and every block configuration flag.",
  ["programs", "inputs", "histories", "configurations"], "all programs, executions, memory image layouts and block decoder flags; cold and warm block caches",
  "The block decoder's unit tests check NULL arguments and configuration only; no trace is decoded by the test suite.",
  [L+"pt_block_decoder.c", L+"pt_block_cache.c", L+"pt_msec_cache.c", L+"pt_insn.c", L+"pt_ild.c"],
  [("block cache lookup and fill", L+"pt_block_decoder.c, "+L+"pt_block_cache.c"), ("section cache", L+"pt_msec_cache.c")],
  observe=["pt_blk_next", "pt_blk_event"])
prop("C09", "Instruction length and class decode is correct for x86",
  "For every valid x86 instruction in 16, 32 and 64 bit mode, the decoders determine its exact length, its branch class, and for direct branches its exact target. Bytes beyond the instruction do not influence the result. Bytes that are too short or not decodable are reported as such and never cause out-of-bounds reads.",
  ["inputs"], "all byte sequences of up to 15 bytes in each execution mode, including all prefix combinations, VEX/EVEX, modrm/sib/displacement/immediate forms",
  "Existing tests check about a hundred fixed encodings.",
  [L+"pt_ild.c", L+"pt_insn.c", "libipt/internal/include/pti-modrm.h", "libipt/internal/include/pti-imm.h", "libipt/internal/include/pti-disp.h", "libipt/internal/include/pti-sib.h", "libipt/internal/include/pti-disp_default.h"],
  [("length decode", L+"pt_ild.c"), ("tables", "libipt/internal/include/pti-*.h")],
  observe=["pt_insn_next", "pt_ild_decode"])
prop("C10", "Traced memory image behaves like an address-space indexed memory",
  "After any sequence of adding, overlapping, copying and removing sections in any address spaces, reading memory from the image returns exactly the bytes of the most recently added section that covers the address in a matching address space, and the read callback is used where no section matches. Return values and counts of the operations are as documented. Reads never cross into unrelated memory and never return bytes of removed sections.",
  ["histories", "inputs"], "all sequences of image operations with arbitrary section layouts, offsets, sizes, address-space identifiers and callbacks",
  "Existing tests use two to three sections at fixed overlapping positions.",
  [L+"pt_image.c", L+"pt_section.c", L+"pt_asid.c", L+"posix/pt_section_posix.c", L+"pt_section_file.c", "libipt/internal/include/pt_mapped_section.h"],
  [("overlap handling", L+"pt_image.c: pt_image_add"), ("address space matching", L+"pt_asid.c")],
  observe=["pt_image_add_file", "pt_image_add_cached", "pt_image_copy", "pt_image_remove_by_filename", "pt_image_remove_by_asid", "pt_image_set_callback", "pt_image_read"])
prop("C11", "Image section cache returns correct bytes and identifiers for any history",
  "After any sequence of adding sections, reading, changing the cache limit and clearing, every section identifier still denotes the same file contents at the same address, adding an identical section returns the same identifier, and reads return exactly the file's bytes within the section. Memory kept mapped by the cache stays within the configured limit. Concurrent use from several threads gives the same results without data races.",
  ["histories", "schedules", "inputs"], "all operation sequences over overlapping sections of several files, limits and read ranges; concurrent threads sharing the cache",
  "Existing tests use one or two fixed sections and a fixed thread workload.",
  [L+"pt_image_section_cache.c", L+"pt_section.c", L+"posix/pt_section_posix.c", L+"pt_section_file.c"],
  [("section lookup and LRU", L+"pt_image_section_cache.c"), ("attach/map counting", L+"pt_section.c")],
  observe=["pt_iscache_add_file", "pt_iscache_read", "pt_iscache_set_limit", "pt_iscache_free"])
prop("C12", "Time is reconstructed from timing packets",
  "For every sequence of timing packets generated by a clock, the reported time equals the TSC at TSC packets, follows the crystal clock exactly at calibrated MTC packets including counter wrap-around, and approximates the clock within the cycle-count resolution in between. The core:bus ratio is the last one recorded, and the number of lost timing packets is reported as documented. Missing configuration or calibration degrades the estimate but is reported as lost packets and never as an error.",
  ["inputs", "histories", "configurations"], "all clock configurations (CTC ratio, MTC frequency, nominal frequency, core:bus ratios) and all legal sequences of TSC, TMA, MTC, CYC and CBR packets with PSB+ and overflows",
  "Existing tests check single packet updates and a few fixed sequences.",
  [L+"pt_time.c", L+"pt_event_decoder.c", L+"pt_query_decoder.c"],
  [("time update", L+"pt_time.c: pt_time_update_*"), ("calibration", L+"pt_time.c: pt_tcal_*")],
  observe=["pt_qry_time", "pt_qry_core_bus_ratio", "pt_insn_time", "pt_blk_time", "pt_event.tsc"])
prop("C13", "Decode is independent of where and how decoding starts",
  "Decoding a trace segment by segment from each synchronization point gives the same instructions as decoding the whole trace from the beginning. Decoding is a function of trace, configuration and image only: repeating it, re-synchronizing after an earlier decode or error, or decoding with another decoder object gives identical results. After an error, re-synchronizing resumes correct decode at the next synchronization point.",
  ["histories", "inputs"], "all traces with several synchronization points, all orders of visiting them, all prior decoder histories including errors",
  "The test suite decodes each trace once from its first synchronization point.",
  [L+"pt_event_decoder.c", L+"pt_query_decoder.c", L+"pt_insn_decoder.c", L+"pt_block_decoder.c"],
  [("state reset on sync", L+"pt_*_decoder.c: pt_*_reset, pt_*_start")],
  observe=["pt_insn_sync_*", "pt_blk_sync_*", "pt_qry_sync_*", "pt_evt_sync_*"])
prop("C14", "Configurations are interpreted compatibly and errata are selected per CPU",
  "A configuration of any supported structure size is accepted with missing fields treated as zero and excess fields ignored, and inconsistent ones are rejected by every encoder and decoder allocation. Errata flags are determined from the CPU exactly as documented and unknown CPUs are reported. Address filter ranges are evaluated inclusively, and stop ranges take precedence.",
  ["configurations", "inputs"], "all structure sizes, buffer pointers, CPU identifiers, filter configurations and addresses",
  "Existing tests use a few sizes, CPUs and filter ranges.",
  [L+"pt_config.c", L+"pt_cpu.c", L+"pt_insn_decoder.c"],
  [("config copy", L+"pt_config.c: pt_config_from_user"), ("errata table", L+"pt_config.c: pt_cpu_errata"), ("filter check", L+"pt_config.c: pt_filter_addr_check")],
  observe=["pt_alloc_encoder", "pt_*_alloc_decoder", "pt_*_get_config", "pt_cpu_errata"])
prop("C15", "Output structures of any size and invalid arguments are handled safely",
  "Every API function rejects missing mandatory arguments with the documented error and leaves its state unchanged. Functions that take the size of the output structure fill at most that many bytes with a prefix of the full result, zero additional bytes, and otherwise behave identically for every size. Optional arguments may be omitted without changing any other result.",
  ["inputs", "histories"], "all API functions, all output sizes (smaller and larger than the current structures), at every point of a decode",
  "Existing tests check NULL arguments on fresh decoders and a few sizes for some calls.",
  [L+"pt_packet_decoder.c", L+"pt_event_decoder.c", L+"pt_query_decoder.c", L+"pt_insn_decoder.c", L+"pt_block_decoder.c", L+"pt_asid.c", L+"pt_image.c"],
  [("copy to user", L+"pt_*_decoder.c: *_to_user")])
prop("C16", "perf_event records are read and written faithfully",
  "Any perf event record that is written can be read back with identical type, payload and samples, for every supported record and sample configuration, and the bytes follow the Linux perf_event format. Truncated or malformed records are rejected without reading or writing outside the given range. Conversions between perf time and TSC are mutually inverse up to the resolution of the conversion.",
  ["inputs", "configurations"], "all record types, payloads, string lengths, sample types and sample identifiers, buffer sizes, time conversion parameters",
  "Existing tests write and read one record of each type with two sample configurations.",
  ["pevent/src/pevent.c", "pevent/include/pevent.h"],
  [("record parsing", "pevent/src/pevent.c: pev_read"), ("record writing", "pevent/src/pevent.c: pev_write")],
  observe=["pev_read", "pev_write", "pev_time_to_tsc", "pev_time_from_tsc"])
prop("C17", "Sideband correlation selects the right process image at the right time",
  "For every history of mmap, exec, fork, exit and context switch records on primary and secondary channels and every sequence of trace events, the memory image in use is that of the process executing at that time, containing exactly the mappings recorded up to that time. Records are applied in timestamp order across channels. Lost or malformed sideband is reported through the notifier and never corrupts memory or stops correct channels.",
  ["histories", "inputs"], "all interleavings of sideband records on several channels with trace events, any sample configuration, malformed sideband files",
  "There are no unit tests for the sideband library; eleven fixed records are printed by the pevent ptt tests.",
  ["sideband/src/pt_sb_session.c", "sideband/src/pt_sb_pevent.c", "sideband/src/pt_sb_context.c", "sideband/src/pt_sb_file.c"],
  [("time ordered application", "sideband/src/pt_sb_session.c: pt_sb_event"), ("record semantics", "sideband/src/pt_sb_pevent.c")],
  observe=["pt_sb_event", "pt_sb_dump", "pt_sb_get_context_by_pid", "pt_sb_ctx_image"])
prop("C18", "ptdump prints exactly the packets in the trace",
  "For every trace, ptdump prints one line per packet with its offset, type and payload, in order, re-synchronizing after errors as the packet library does, and its derived columns (last IP, execution mode, time) match their definition. Options that only select or format output do not change the remaining output. ptdump never crashes or accesses memory out of bounds on any file.",
  ["inputs", "configurations"], "all trace files and all combinations of display options and ranges",
  "About two hundred hand-written short traces are compared with expected output, mostly with default options.",
  ["ptdump/src/ptdump.c"],
  [("packet printing", "ptdump/src/ptdump.c: print_packet"), ("tracking", "ptdump/src/ptdump.c: track_*")],
  observe=["ptdump stdout and exit status"])
prop("C19", "pttc assembles directives into the packets they describe",
  "For every test source, the trace file that pttc produces consists of exactly the packets its directives describe, with labels resolved to the addresses assigned by the assembler, expected-output sections are extracted with their label references replaced, and sideband directives give the raw bytes or perf event records they describe. Directives with bad arguments are diagnosed and fail. pttc never crashes or corrupts memory on any input.",
  ["inputs", "programs"], "all sequences of packet directives with any operand values, label references and compression forms; malformed sources",
  "The ptt tests use a fixed set of hand-written sources with a few operand values.",
  ["pttc/src/parse.c", "pttc/src/yasm.c", "pttc/src/file.c", "pttc/src/util.c"],
  [("directive parsing", "pttc/src/parse.c"), ("label resolution", "pttc/src/yasm.c")],
  observe=["generated .pt, .bin, .exp files and exit status"])
prop("C20", "ptseg reports the segment surrounding an offset",
  "For every trace and offset, ptseg prints the range from the synchronization point preceding the offset to the next one following it, using the buffer's begin and end where there is none, together with the offset and size relative to it. Bad files, offsets and arguments are diagnosed with a non-zero exit status. It never crashes on any input.",
  ["inputs"], "all trace files and offsets, including offsets at and beyond the end",
  "There are no tests for ptseg.",
  ["ptseg/src/ptseg.c", L+"pt_packet_decoder.c"],
  [("segment search", "ptseg/src/ptseg.c: ptseg_pkt_find_seg")],
  observe=["ptseg stdout and exit status"])
prop("C21", "Resource failures are reported and do not corrupt or leak",
  "When a memory allocation, file or mapping operation fails at any point, the affected call reports an error or degrades as documented. Nothing is leaked or freed twice, and all objects remain usable: repeating the operation once resources are available, or continuing without it, gives the same result as if the failed call had not been made; a decode interrupted by a failure has produced a correct prefix and ends with an error.",
  ["fault_sequences", "histories"], "failure of the n-th allocation or system call, for every n, in workloads over every part of the library",
  "No existing test injects failures.",
  [L+"pt_image.c", L+"pt_image_section_cache.c", L+"pt_section.c", L+"posix/pt_section_posix.c", L+"pt_section_file.c", L+"pt_block_cache.c", L+"pt_insn_decoder.c", L+"pt_block_decoder.c", "sideband/src/pt_sb_session.c", "sideband/src/pt_sb_pevent.c"],
  [("error paths", "goto-style cleanup in the listed files")])
prop("C22", "Decoders in different threads do not interfere",
  "Decoding in several threads at the same time, each with its own decoder and image but sharing an image section cache and its sections, gives in every thread the same result as decoding alone. There are no data races or deadlocks under any interleaving of mapping, unmapping, block caching, reading and cache limit changes.",
  ["schedules", "programs"], "all interleavings of several threads decoding instructions and blocks, reading and modifying a shared section cache",
  "Existing thread tests cover the section and the section cache with a fixed workload; none runs decoders concurrently.",
  [L+"pt_image_section_cache.c", L+"pt_section.c", L+"pt_block_cache.c", L+"pt_block_decoder.c", L+"pt_image.c", "include/posix/pt_threads.h"],
  [("section and cache locks", L+"pt_section.c, "+L+"pt_image_section_cache.c"), ("lock-free block cache entries", L+"pt_block_cache.c")])
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
