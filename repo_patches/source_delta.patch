From 8a289d7f3a314bde0350d2bdc368d852ff8c02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 01/50] fix: encoder: reject tnt-8 packets with no or with
 excess payload bits

A tnt-8 packet with a bit size of zero cannot be represented; the encoder
wrote the extended opcode byte instead.  Payload bits at or above the stop
bit were merged into the packet, changing its size.
---
 libipt/src/pt_encoder.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libipt/src/pt_encoder.c b/libipt/src/pt_encoder.c
index a84f0d6..9b9d0a7 100644
--- a/libipt/src/pt_encoder.c
+++ b/libipt/src/pt_encoder.c
@@ -328,6 +328,13 @@ int pt_enc_next(struct pt_encoder *encoder, const struct pt_packet *packet)
 		if (packet->payload.tnt.bit_size >= 7)
 			return -pte_bad_packet;
 
+		if (!packet->payload.tnt.bit_size)
+			return -pte_bad_packet;
+
+		/* The payload must not reach into or beyond the stop bit. */
+		if (packet->payload.tnt.payload >> packet->payload.tnt.bit_size)
+			return -pte_bad_packet;
+
 		errcode = pt_reserve(encoder, ptps_tnt_8);
 		if (errcode < 0)
 			return errcode;
-- 
2.43.0


From 79c42411b3086b0f61468a370c8cfaa56245c502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:50 +0000
Subject: [PATCH 02/50] fix: encoder: reject cyc payloads that do not fit into
 61 bits

The packet decoder reports a bad packet for such payloads.
---
 libipt/internal/include/pt_opcodes.h | 7 +++++++
 libipt/src/pt_encoder.c              | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/libipt/internal/include/pt_opcodes.h b/libipt/internal/include/pt_opcodes.h
index bcaeb39..f959188 100644
--- a/libipt/internal/include/pt_opcodes.h
+++ b/libipt/internal/include/pt_opcodes.h
@@ -247,6 +247,13 @@ enum pt_payload {
 	/* The maximal payload size in bytes of a CYC packet. */
 	pt_pl_cyc_max_size	= 15,
 
+	/* The maximal number of payload bits in a CYC packet we can decode.
+	 *
+	 * There are five bits in the opcode byte and seven bits in each
+	 * extension byte.
+	 */
+	pt_pl_cyc_max_bits	= 5 + 8 * 7,
+
 	/* The size of a VMCS packet's payload in bytes. */
 	pt_pl_vmcs_size		= 5,
 
diff --git a/libipt/src/pt_encoder.c b/libipt/src/pt_encoder.c
index 9b9d0a7..a7b895b 100644
--- a/libipt/src/pt_encoder.c
+++ b/libipt/src/pt_encoder.c
@@ -500,6 +500,10 @@ int pt_enc_next(struct pt_encoder *encoder, const struct pt_packet *packet)
 		uint8_t byte[pt_pl_cyc_max_size], index, end;
 		uint64_t ctc;
 
+		/* Check if the CYC payload is too big to be decoded again. */
+		if (packet->payload.cyc.value >> pt_pl_cyc_max_bits)
+			return -pte_bad_packet;
+
 		ctc = (uint8_t) packet->payload.cyc.value;
 		ctc <<= pt_opm_cyc_shr;
 
-- 
2.43.0


From 502bcec1eb98b48cd39ae2687cc378a85bdba5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 03/50] fix: sync: do not find the same PSB again when
 searching backward

Payload preceding a PSB may look like the PSB payload pattern.  Searching
backward from that PSB would find it again and backward synchronization
would never make progress.
---
 libipt/src/pt_sync.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_sync.c b/libipt/src/pt_sync.c
index 59a8892..279fe83 100644
--- a/libipt/src/pt_sync.c
+++ b/libipt/src/pt_sync.c
@@ -210,11 +210,12 @@ int pt_sync_forward(const uint8_t **sync, const uint8_t *pos,
 int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
 		    const struct pt_config *config)
 {
-	const uint8_t *begin, *end;
+	const uint8_t *begin, *end, *start;
 
 	if (!sync || !pos || !config)
 		return -pte_internal;
 
+	start = pos;
 	begin = config->begin;
 	end = config->end;
 
@@ -243,6 +244,12 @@ int pt_sync_backward(const uint8_t **sync, const uint8_t *pos,
 		if (!next)
 			continue;
 
+		/* If the payload preceding a PSB looks like a PSB payload, we
+		 * may find the PSB at @start again.  Ignore it.
+		 */
+		if (start <= next)
+			continue;
+
 		*sync = next;
 		return 0;
 	}
-- 
2.43.0


From 4c26793653fbf1474c14a329df31ab78ddca5ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 04/50] fix: packet decoder: synchronizing forward at the end
 of the trace

After pt_pkt_sync_set() to the end of the trace, pt_pkt_sync_forward()
returned -pte_internal instead of -pte_eos.
---
 libipt/src/pt_packet_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index bdabb03..78e25ec 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -116,6 +116,10 @@ int pt_pkt_sync_forward(struct pt_packet_decoder *decoder)
 
 	pos -= space;
 
+	/* We may have been synchronized onto the very end of the trace. */
+	if (decoder->config.end < pos)
+		return -pte_eos;
+
 	errcode = pt_sync_forward(&sync, pos, &decoder->config);
 	if (errcode < 0)
 		return errcode;
-- 
2.43.0


From 8bd70f974cacd0c68afc2337f181f5b935fc7e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 05/50] fix: event decoder: deliver the disable event before
 other events bound to TIP.PGD

---
 libipt/src/pt_event_decoder.c | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index ba4b338..2833cd9 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -3084,11 +3084,13 @@ static int pt_evt_decode_tip_pgd(struct pt_event_decoder *decoder,
 	if (errcode < 0)
 		return errcode;
 
-	ev = pt_evq_dequeue(&decoder->evq, evb_tip);
-	if (!ev) {
-		if (decoder->bound)
-			return 1;
-
+	/* We send the disable event first.  Other events that are bound to this
+	 * packet apply when tracing has already been disabled.
+	 *
+	 * If we find an async branch, we turn that into an async disable.
+	 */
+	if (!decoder->bound &&
+	    !pt_evq_find(&decoder->evq, evb_tip, ptev_async_branch)) {
 		decoder->event = ev = pt_evq_standalone(&decoder->evq);
 		if (!ev)
 			return -pte_internal;
@@ -3106,9 +3108,22 @@ static int pt_evt_decode_tip_pgd(struct pt_event_decoder *decoder,
 
 		decoder->enabled = 0;
 
-		return pt_evt_fetch_packet(decoder);
+		errcode = pt_evq_pending(&decoder->evq, evb_tip);
+		if (errcode < 0)
+			return errcode;
+
+		if (!errcode)
+			return pt_evt_fetch_packet(decoder);
+
+		decoder->bound = 1;
+
+		return 0;
 	}
 
+	ev = pt_evq_dequeue(&decoder->evq, evb_tip);
+	if (!ev)
+		return 1;
+
 	decoder->event = ev;
 
 	switch (ev->type) {
@@ -3140,6 +3155,7 @@ static int pt_evt_decode_tip_pgd(struct pt_event_decoder *decoder,
 
 		fallthrough;
 	case ptev_exec_mode:
+	case ptev_iflags:
 		/* The MODE.EXEC might come with a standalone TIP.PGD or with a
 		 * FUP + TIP.PGD pair.  In both cases, we won't really reach
 		 * the IP in the TIP.PGD's payload since tracing is disabled as
@@ -3164,6 +3180,11 @@ static int pt_evt_decode_tip_pgd(struct pt_event_decoder *decoder,
 		ev->ip_suppressed = 1;
 		break;
 
+	case ptev_ignore:
+		decoder->event = NULL;
+
+		return pt_evt_decode_tip_pgd(decoder, packet);
+
 	default:
 		errcode = -pte_bad_context;
 		break;
-- 
2.43.0


From ee83e9a84349988a35aa9649061f546b04f5bf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 06/50] fix: backward synchronization in event, query, insn and
 block decoders

An event decoder that was not synchronized ignored a PSB+ that ends at the
end of the trace and failed on an incomplete PSB+.

The query and block decoders discarded the status flags and thus always
claimed that there is no event pending and that tracing is enabled.

The insn and block decoders may find the same PSB+ over and over again or
skip one as they read ahead.

Forward synchronization in the event decoder skipped a PSB that was already
fetched.
---
 libipt/src/pt_block_decoder.c | 46 +++++++++++++++--------------
 libipt/src/pt_event_decoder.c | 32 +++++++++++++++++----
 libipt/src/pt_insn_decoder.c  | 54 ++++++++++++++++++++++++++++++++---
 libipt/src/pt_query_decoder.c | 30 ++++++-------------
 4 files changed, 109 insertions(+), 53 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index a02378b..be2bf37 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -508,24 +508,18 @@ int pt_blk_sync_forward(struct pt_block_decoder *decoder)
 int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 {
 	const uint8_t *start, *sync, *pos;
-	int errcode;
+	uint64_t osync, nsync;
+	int errcode, status;
 
 	if (!decoder)
 		return -pte_invalid;
 
-	start = pt_blk_pos(decoder);
-	if (!start) {
-		const struct pt_config *config;
-
-		config = pt_blk_config(decoder);
-		if (!config)
-			return -pte_internal;
-
-		start = config->end;
-		if (!start)
-			return -pte_bad_config;
-	}
+	/* We were not synchronized if this fails. */
+	errcode = pt_blk_get_sync_offset(decoder, &osync);
+	if (errcode < 0)
+		osync = 0ull;
 
+	start = pt_blk_pos(decoder);
 	sync = start;
 	for (;;) {
 		errcode = pt_blk_reset(decoder);
@@ -538,30 +532,38 @@ int pt_blk_sync_backward(struct pt_block_decoder *decoder)
 				return errcode;
 
 			pos = pt_blk_pos(decoder);
-		} while (sync <= pos);
+		} while (sync && sync <= pos);
 
 		sync = pos;
 
-		errcode = pt_blk_start(decoder);
-		if (errcode < 0) {
+		status = pt_blk_start(decoder);
+		if (status < 0) {
 			/* Ignore incomplete trace segments at the end.  We
 			 * need a full PSB+ to start decoding.
 			 */
-			if (errcode != -pte_eos)
-				return errcode;
+			if (status != -pte_eos)
+				return status;
 
 			continue;
 		}
 
 		/* When starting inside or right after PSB+, we may end up at
 		 * the same PSB again.  Skip it.
+		 *
+		 * We read ahead and may have reached our start position also
+		 * from a preceding PSB.
 		 */
 		pos = pt_blk_pos(decoder);
-		if (pos < start)
-			break;
-	}
+		if (!start || pos < start)
+			return status;
 
-	return 0;
+		errcode = pt_blk_get_sync_offset(decoder, &nsync);
+		if (errcode < 0)
+			return errcode;
+
+		if (nsync < osync)
+			return status;
+	}
 }
 
 int pt_blk_sync_set(struct pt_block_decoder *decoder, uint64_t offset)
diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 2833cd9..d8766c5 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -1465,11 +1465,24 @@ static int pt_evt_start(struct pt_event_decoder *decoder)
 
 int pt_evt_sync_forward(struct pt_event_decoder *decoder)
 {
+	uint64_t offset;
 	int errcode;
 
 	if (!decoder)
 		return -pte_invalid;
 
+	/* We may have fetched the next PSB without having processed it, yet.
+	 *
+	 * Our packet decoder is already past it.
+	 */
+	if (decoder->packet.type == ppt_psb) {
+		errcode = pt_evt_get_offset(decoder, &offset);
+		if (errcode < 0)
+			return errcode;
+
+		return pt_evt_sync_set(decoder, offset);
+	}
+
 	errcode = pt_evt_reset(decoder);
 	if (errcode < 0)
 		return errcode;
@@ -1490,13 +1503,13 @@ int pt_evt_sync_backward(struct pt_event_decoder *decoder)
 		return -pte_invalid;
 
 	start = pt_evt_pos(decoder);
-	if (!start) {
-		start = pt_evt_end(decoder);
-		if (!start)
+	sync = start;
+	if (!sync) {
+		sync = pt_evt_end(decoder);
+		if (!sync)
 			return -pte_bad_config;
 	}
 
-	sync = start;
 	for (;;) {
 		errcode = pt_evt_reset(decoder);
 		if (errcode < 0)
@@ -1514,8 +1527,17 @@ int pt_evt_sync_backward(struct pt_event_decoder *decoder)
 
 		errcode = pt_evt_start(decoder);
 
+		/* Ignore incomplete trace segments at the end.  We need a full
+		 * PSB+ to start decoding.
+		 */
+		if (errcode == -pte_eos)
+			continue;
+
+		/* When starting inside or right after PSB+, we may end up at
+		 * the same PSB again.  Skip it.
+		 */
 		pos = pt_evt_pos(decoder);
-		if (pos < start)
+		if (!start || pos < start)
 			return errcode;
 	}
 }
diff --git a/libipt/src/pt_insn_decoder.c b/libipt/src/pt_insn_decoder.c
index 762a2a2..ded3cfa 100644
--- a/libipt/src/pt_insn_decoder.c
+++ b/libipt/src/pt_insn_decoder.c
@@ -348,16 +348,62 @@ int pt_insn_sync_forward(struct pt_insn_decoder *decoder)
 
 int pt_insn_sync_backward(struct pt_insn_decoder *decoder)
 {
-	int status;
+	const uint8_t *start, *sync, *pos;
+	uint64_t osync, nsync;
+	int errcode, status;
 
 	if (!decoder)
 		return -pte_invalid;
 
-	pt_insn_reset(decoder);
+	/* We were not synchronized if this fails. */
+	errcode = pt_insn_get_sync_offset(decoder, &osync);
+	if (errcode < 0)
+		osync = 0ull;
 
-	status = pt_qry_sync_backward(&decoder->query, &decoder->ip);
+	start = pt_qry_pos(&decoder->query);
+	sync = start;
+	for (;;) {
+		do {
+			pt_insn_reset(decoder);
 
-	return pt_insn_start(decoder, status);
+			status = pt_qry_sync_backward(&decoder->query,
+						      &decoder->ip);
+			if (status < 0)
+				return status;
+
+			pos = pt_qry_pos(&decoder->query);
+		} while (sync && sync <= pos);
+
+		sync = pos;
+
+		status = pt_insn_start(decoder, status);
+		if (status < 0) {
+			/* Ignore incomplete trace segments at the end.  We
+			 * need a full PSB+ to start decoding.
+			 */
+			if (status != -pte_eos)
+				return status;
+
+			continue;
+		}
+
+		/* When starting inside or right after PSB+, we may end up at
+		 * the same PSB again.  Skip it.
+		 *
+		 * We read ahead and may have reached our start position also
+		 * from a preceding PSB.
+		 */
+		pos = pt_qry_pos(&decoder->query);
+		if (!start || pos < start)
+			return status;
+
+		errcode = pt_insn_get_sync_offset(decoder, &nsync);
+		if (errcode < 0)
+			return errcode;
+
+		if (nsync < osync)
+			return status;
+	}
 }
 
 int pt_insn_sync_set(struct pt_insn_decoder *decoder, uint64_t offset)
diff --git a/libipt/src/pt_query_decoder.c b/libipt/src/pt_query_decoder.c
index 11b2b66..a807fdd 100644
--- a/libipt/src/pt_query_decoder.c
+++ b/libipt/src/pt_query_decoder.c
@@ -297,24 +297,12 @@ int pt_qry_sync_forward(struct pt_query_decoder *decoder, uint64_t *ip)
 int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 {
 	const uint8_t *start, *sync, *pos;
-	int errcode;
+	int errcode, status;
 
 	if (!decoder)
 		return -pte_invalid;
 
 	start = pt_qry_pos(decoder);
-	if (!start) {
-		const struct pt_config *config;
-
-		config = pt_qry_config(decoder);
-		if (!config)
-			return -pte_internal;
-
-		start = config->end;
-		if (!start)
-			return -pte_bad_config;
-	}
-
 	sync = start;
 	for (;;) {
 		errcode = pt_qry_reset(decoder);
@@ -327,17 +315,17 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 				return errcode;
 
 			pos = pt_qry_pos(decoder);
-		} while (sync <= pos);
+		} while (sync && sync <= pos);
 
 		sync = pos;
 
-		errcode = pt_qry_start(decoder, ip);
-		if (errcode < 0) {
+		status = pt_qry_start(decoder, ip);
+		if (status < 0) {
 			/* Ignore incomplete trace segments at the end.  We
 			 * need a full PSB+ to start decoding.
 			 */
-			if (errcode != -pte_eos)
-				return errcode;
+			if (status != -pte_eos)
+				return status;
 
 			continue;
 		}
@@ -346,11 +334,9 @@ int pt_qry_sync_backward(struct pt_query_decoder *decoder, uint64_t *ip)
 		 * the same PSB again.  Skip it.
 		 */
 		pos = pt_qry_pos(decoder);
-		if (pos < start)
-			break;
+		if (!start || pos < start)
+			return status;
 	}
-
-	return 0;
 }
 
 int pt_qry_sync_set(struct pt_query_decoder *decoder, uint64_t *ip,
-- 
2.43.0


From 9e9f917f6cfdf4acf6dd5d501675ce991c16499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 07/50] fix: do not fail synchronization on an error behind the
 PSB+

The query and block decoders look for the enabled status event in the initial
PSB+.  If tracing is disabled, that search fails on an error in the packets
that follow the PSB+ instead of deferring it until decode gets there.
---
 libipt/src/pt_block_decoder.c | 6 +++---
 libipt/src/pt_query_decoder.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index be2bf37..88e344f 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -454,9 +454,9 @@ static int pt_blk_start(struct pt_block_decoder *decoder)
 
 		errcode = pt_evt_next(&evdec, &ev, sizeof(ev));
 		if (errcode < 0) {
-			if (errcode != -pte_eos)
-				return errcode;
-
+			/* We will diagnose errors when we get there.  They do
+			 * not affect the initial PSB+.
+			 */
 			break;
 		}
 
diff --git a/libipt/src/pt_query_decoder.c b/libipt/src/pt_query_decoder.c
index a807fdd..7c38dc7 100644
--- a/libipt/src/pt_query_decoder.c
+++ b/libipt/src/pt_query_decoder.c
@@ -237,9 +237,9 @@ static int pt_qry_start(struct pt_query_decoder *decoder, uint64_t *ip)
 
 		errcode = pt_evt_next(&evdec, &ev, sizeof(ev));
 		if (errcode < 0) {
-			if (errcode != -pte_eos)
-				return errcode;
-
+			/* We will diagnose errors when we get there.  They do
+			 * not affect the initial PSB+.
+			 */
 			break;
 		}
 
-- 
2.43.0


From 3631cc0d7b51550821676981e451d8d7db9797cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:08 +0000
Subject: [PATCH 08/50] fix: insn decoder: do not use synchronous vmcs events
 as TRIG anchor

---
 libipt/src/pt_insn_decoder.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_insn_decoder.c b/libipt/src/pt_insn_decoder.c
index ded3cfa..adb5ff9 100644
--- a/libipt/src/pt_insn_decoder.c
+++ b/libipt/src/pt_insn_decoder.c
@@ -2023,7 +2023,8 @@ static int pt_insn_process_vmcs(struct pt_insn_decoder *decoder)
 		decoder->asid.vmcs = vmcs;
 	}
 
-	if (!decoder->event.ip_suppressed) {
+	if (decoder->event.type == ptev_async_vmcs &&
+	    !decoder->event.ip_suppressed) {
 		/* This event provides a TRIG anchor IP. */
 		decoder->has_icnt = 1;
 		decoder->icnt = 0u;
-- 
2.43.0


From f4900980ced83ebcfc717cad34dbb47ffdf87f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:28 +0000
Subject: [PATCH 09/50] fix: block decoder: indicate the end of the trace as
 -pte_eos

---
 libipt/src/pt_block_decoder.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 88e344f..ede5dcf 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -3053,8 +3053,13 @@ static int pt_blk_proceed(struct pt_block_decoder *decoder,
 			return -pte_eos;
 
 		status = pt_blk_proceed_no_event(decoder, block);
-		if (status < 0)
+		if (status < 0) {
+			/* We would need trace to proceed. */
+			if (status == -pte_bad_query)
+				status = -pte_eos;
+
 			return status;
+		}
 
 		return pts_eos;
 	}
-- 
2.43.0


From 4619fd195edd3bcd574a9efc8242136d7302c5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:48 +0000
Subject: [PATCH 10/50] fix: block decoder: end blocks on jumps also when the
 block cache is shared

---
 libipt/src/pt_block_decoder.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index ede5dcf..1fb3d63 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2364,6 +2364,12 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 	 *     postpone it to the next iteration.  Make sure to end the block if
 	 *     @decoder->flags.variant.block.end_on_call is set, though.
 	 *
+	 *   - at near direct jumps to end the block for users that set
+	 *     @decoder->flags.variant.block.end_on_jump
+	 *
+	 *     The block cache may be shared with other decoders that use
+	 *     different flags so we need to stop independent of our own flags.
+	 *
 	 *   - at near direct backwards jumps to detect section splits
 	 *
 	 *     In case the current section is split underneath us, we must take
@@ -2414,11 +2420,8 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 		    (iext.iclass == PTI_INST_JMPABS))
 			return -pte_internal;
 
-		if (iext.variant.branch.displacement < 0 ||
-		    decoder->flags.variant.block.end_on_jump)
-			return pt_blk_add_decode(bcache, ioff, insn.mode);
+		return pt_blk_add_decode(bcache, ioff, insn.mode);
 
-		fallthrough;
 	default:
 		if (!pt_blk_is_in_section(msec, nip) || block->truncated)
 			return pt_blk_add_decode(bcache, ioff, insn.mode);
-- 
2.43.0


From 7be3ca3c86241e28350d136b04754b671cc592d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 11/50] fix: block decoder: bind iret, vmentry, and uiret
 events with IP after other bound events

---
 libipt/src/pt_block_decoder.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 1fb3d63..56c87e4 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -3648,8 +3648,10 @@ static int pt_blk_proceed_trailing_event(struct pt_block_decoder *decoder,
 		 * instruction.  We will process the event on the normal event
 		 * flow in the next iteration.
 		 */
-		if (!ev->ip_suppressed ||
-		    !pt_insn_is_iret(&decoder->insn, &decoder->iext))
+		if (ev->ip_suppressed) {
+			if (!pt_insn_is_iret(&decoder->insn, &decoder->iext))
+				break;
+		} else if (decoder->insn.ip != ev->variant.iret.ip)
 			break;
 
 		/* We bound an iret event.  Make sure we do not bind further
@@ -3723,8 +3725,10 @@ static int pt_blk_proceed_trailing_event(struct pt_block_decoder *decoder,
 		 * instruction.  We will process the event on the normal event
 		 * flow in the next iteration.
 		 */
-		if (!ev->ip_suppressed ||
-		    !pt_insn_is_vmentry(&decoder->insn, &decoder->iext))
+		if (ev->ip_suppressed) {
+			if (!pt_insn_is_vmentry(&decoder->insn, &decoder->iext))
+				break;
+		} else if (decoder->insn.ip != ev->variant.vmentry.ip)
 			break;
 
 		/* We bound a vmentry event.  Make sure we do not bind further
@@ -3788,8 +3792,10 @@ static int pt_blk_proceed_trailing_event(struct pt_block_decoder *decoder,
 		 * instruction.  We will process the event on the normal event
 		 * flow in the next iteration.
 		 */
-		if (!ev->ip_suppressed ||
-		    !pt_insn_is_uiret(&decoder->insn, &decoder->iext))
+		if (ev->ip_suppressed) {
+			if (!pt_insn_is_uiret(&decoder->insn, &decoder->iext))
+				break;
+		} else if (decoder->insn.ip != ev->variant.uiret.ip)
 			break;
 
 		/* We bound an uiret event.  Make sure we do not bind further
-- 
2.43.0


From 14b449d93928db68b5d4794e54ba56aede8814f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:46 +0000
Subject: [PATCH 12/50] fix: block decoder: end blocks on calls and jumps also
 before bound events

---
 libipt/src/pt_block_decoder.c | 44 +++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 56c87e4..2d47155 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1014,6 +1014,26 @@ static int pt_blk_proceed_to_insn(struct pt_block_decoder *decoder,
 	}
 }
 
+/* Check whether the user asked us to end blocks after @insn.
+ *
+ * We only need to take care about direct near branches.  Indirect and far
+ * branches require trace and will naturally end a block.
+ *
+ * Returns non-zero if @block ends with @insn, zero otherwise.
+ */
+static int pt_blk_end_block(const struct pt_block_decoder *decoder,
+			    const struct pt_block *block,
+			    const struct pt_insn *insn)
+{
+	if (pt_blk_block_is_empty(block))
+		return 0;
+
+	return ((decoder->flags.variant.block.end_on_call &&
+		 (insn->iclass == ptic_call)) ||
+		(decoder->flags.variant.block.end_on_jump &&
+		 (insn->iclass == ptic_jump)));
+}
+
 /* Proceed to a particular IP without using trace.
  *
  * Proceed until we reach @ip or until:
@@ -1317,6 +1337,12 @@ static int pt_blk_proceed_to_ptwrite(struct pt_block_decoder *decoder,
 	if (status <= 0)
 		return status;
 
+	/* The instruction goes into the next block if the user asked us to end
+	 * this block.
+	 */
+	if (pt_blk_end_block(decoder, block, insn))
+		return 0;
+
 	/* We reached the PTWRITE instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1375,6 +1401,12 @@ static int pt_blk_proceed_to_iret(struct pt_block_decoder *decoder,
 	if (status <= 0)
 		return status;
 
+	/* The instruction goes into the next block if the user asked us to end
+	 * this block.
+	 */
+	if (pt_blk_end_block(decoder, block, insn))
+		return 0;
+
 	/* We reached the IRET instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1433,6 +1465,12 @@ static int pt_blk_proceed_to_vmentry(struct pt_block_decoder *decoder,
 	if (status <= 0)
 		return status;
 
+	/* The instruction goes into the next block if the user asked us to end
+	 * this block.
+	 */
+	if (pt_blk_end_block(decoder, block, insn))
+		return 0;
+
 	/* We reached the vmentry instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
@@ -1491,6 +1529,12 @@ static int pt_blk_proceed_to_uiret(struct pt_block_decoder *decoder,
 	if (status <= 0)
 		return status;
 
+	/* The instruction goes into the next block if the user asked us to end
+	 * this block.
+	 */
+	if (pt_blk_end_block(decoder, block, insn))
+		return 0;
+
 	/* We reached the UIRET instruction and @decoder->ip points to it;
 	 * @insn/@iext still contain the preceding instruction.
 	 *
-- 
2.43.0


From 417cdf08986480de965c986f429d472cf10ddc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:39 +0000
Subject: [PATCH 13/50] fix: block decoder: proceed to the location of trig
 events with IP

---
 libipt/src/pt_block_decoder.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 2d47155..49fc8b2 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -3870,13 +3870,9 @@ static int pt_blk_proceed_trailing_event(struct pt_block_decoder *decoder,
 		 *
 		 * We will proceed to the TRIG location in the next iteraion.
 		 */
-		if (ev->variant.trig.icnt)
+		if (ev->variant.trig.icnt || ev->variant.trig.ip != decoder->ip)
 			break;
 
-		/* If this is the TRIG location, it better be right here. */
-		if (ev->variant.trig.ip != decoder->ip)
-			return -pte_bad_packet;
-
 		return pt_blk_status(decoder, pts_event_pending);
 	}
 
-- 
2.43.0


From 0e653f7b705752f87b1560bfa00054fa32cfa9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 14/50] fix: block decoder: expect tracing to resume behind a
 MOV CR3 that disabled it

---
 libipt/src/pt_block_decoder.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 49fc8b2..5a8cf43 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1831,6 +1831,13 @@ static int pt_blk_proceed_event(struct pt_block_decoder *decoder,
 			status = pt_blk_set_disable_resume_ip(decoder, &insn);
 			if (status < 0)
 				return status;
+		} else if (ev->ip_suppressed) {
+			/* The event binds to @insn.  We expect tracing to
+			 * resume at the next instruction.
+			 */
+			status = pt_insn_next_ip(&decoder->ip, &insn, &iext);
+			if (status < 0)
+				return status;
 		}
 
 		break;
@@ -3354,8 +3361,17 @@ static int pt_blk_proceed_trailing_event(struct pt_block_decoder *decoder,
 
 		/* A sync disable may bind to a CR3 changing instruction. */
 		if (ev->ip_suppressed &&
-		    pt_insn_changes_cr3(&decoder->insn, &decoder->iext))
+		    pt_insn_changes_cr3(&decoder->insn, &decoder->iext)) {
+			/* We expect tracing to resume at the next
+			 * instruction.
+			 */
+			status = pt_insn_next_ip(&decoder->ip, &decoder->insn,
+						 &decoder->iext);
+			if (status < 0)
+				return status;
+
 			return pt_blk_status(decoder, pts_event_pending);
+		}
 
 		/* Or it binds to the next branch that would require trace.
 		 *
-- 
2.43.0


From e087473a02a7cb77ce2c027f769fffed707aebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 15/50] fix: block decoder: end blocks on calls and jumps on
 the way to a trig event

---
 libipt/src/pt_block_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 5a8cf43..2f93d16 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1638,6 +1638,10 @@ static int pt_blk_proceed_to_trig(struct pt_block_decoder *decoder,
 	 * way when @block runs full.
 	 */
 	while (ev->variant.trig.icnt) {
+		/* End the block if the user asked us to. */
+		if (pt_blk_end_block(decoder, block, insn))
+			return 0;
+
 		status = pt_blk_proceed_one_insn(decoder, block, insn, iext);
 		if (status <= 0)
 			return status;
-- 
2.43.0


From 7b71552b4f7c9a231a9e29d110b16471a9b9479e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 16/50] fix: block decoder: do not end a block on a block cache
 trampoline

---
 libipt/src/pt_block_decoder.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 2f93d16..53e1723 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2718,6 +2718,28 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 	if (ninsn < binsn)
 		return 0;
 
+	/* A trampoline does not tell us the IP of the last instruction before
+	 * the next block cache entry.  We must not end the block there.
+	 *
+	 * Switch to the slow path if we would not be able to proceed further.
+	 */
+	if (pt_bce_qualifier(bce) == ptbq_again) {
+		struct pt_bcache_entry next;
+		uint16_t nninsn;
+
+		status = pt_bcache_lookup(&next, bcache,
+					  pt_msec_unmap(msec, nip));
+		if (status < 0)
+			return status;
+
+		nninsn = UINT8_MAX;
+		if (pt_bce_is_valid(next))
+			nninsn = (uint16_t) next.ninsn;
+
+		if ((uint16_t) (ninsn + nninsn) < ninsn)
+			return pt_blk_proceed_no_event_uncached(decoder, block);
+	}
+
 	/* Update the instruction counter from the last anchor IP. */
 	if (decoder->has_icnt) {
 		uint32_t icnt, nicnt;
-- 
2.43.0


From 36e3663eea9731d89a6bca3f3a328c65a94b9c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:41 +0000
Subject: [PATCH 17/50] fix: event decoder: do not report stale offsets after
 failing to synchronize

---
 libipt/src/pt_event_decoder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index d8766c5..e8470ce 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -56,6 +56,7 @@ static int pt_evt_reset(struct pt_event_decoder *decoder)
 		return -pte_internal;
 
 	decoder->packet.type = ppt_invalid;
+	decoder->packet.size = 0;
 	decoder->status = -pte_nosync;
 	decoder->event = NULL;
 	decoder->enabled = 0;
-- 
2.43.0


From 5cdaa161dd5ec20f00794c0c499566d831a2fdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 18/50] fix: event decoder: apply the SKL168 workaround

Timing calibration needs to know about PSB packets to work around SKL168.  The
event decoder did not tell it.
---
 libipt/src/pt_event_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index e8470ce..9ad02f0 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -1310,6 +1310,10 @@ static int pt_evt_decode_psb(struct pt_event_decoder *decoder)
 	if (pt_evq_pending(&decoder->evq, UINT32_MAX))
 		return -pte_bad_context;
 
+	errcode = pt_tcal_update_psb(&decoder->tcal, pt_evt_config(decoder));
+	if (errcode < 0)
+		return errcode;
+
 	pt_last_ip_init(&decoder->ip);
 	decoder->enabled = 0;
 
-- 
2.43.0


From 1569a410ee8d1d2ad1f0b9185a7bfd7dc84cae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 19/50] fix: time: account for skipped MTC periods only once

When a CYC packet that spans multiple MTC periods is adjusted to zero, the
following CYC packets in the same MTC period were adjusted again and dropped.
---
 libipt/src/pt_time.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libipt/src/pt_time.c b/libipt/src/pt_time.c
index 511f27c..c8f7321 100644
--- a/libipt/src/pt_time.c
+++ b/libipt/src/pt_time.c
@@ -428,6 +428,11 @@ int pt_time_update_cyc(struct pt_time *time,
 		errcode = pt_time_adjust_cyc(&cyc, time, config, fcr);
 		if (errcode < 0)
 			return errcode;
+
+		/* We accounted for previous MTC periods.  Don't do that again
+		 * for the next CYC in case @fc remains zero.
+		 */
+		time->ctc_cyc = time->ctc;
 	}
 
 	fc += (cyc * fcr) >> pt_tcal_fcr_shr;
-- 
2.43.0


From 3c574c96ac8920008aa77de4b7dd8ffc38daa71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:16 +0000
Subject: [PATCH 20/50] fix: time: count MTC packets that are dropped due to
 missing configuration

Without cpuid[0x15] information, MTC packets cannot be used.  They were not
counted as lost and they discarded the cycles accounted so far, causing time to
go backwards.
---
 libipt/src/pt_time.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libipt/src/pt_time.c b/libipt/src/pt_time.c
index c8f7321..12c4c9b 100644
--- a/libipt/src/pt_time.c
+++ b/libipt/src/pt_time.c
@@ -257,6 +257,12 @@ int pt_time_update_mtc(struct pt_time *time,
 	if (have_tsc && !have_tma)
 		return 0;
 
+	/* Without the CTC to TSC ratio, we cannot use this MTC. */
+	if (!config->cpuid_0x15_eax || !config->cpuid_0x15_ebx) {
+		time->lost_mtc += 1;
+		return -pte_bad_config;
+	}
+
 	base = time->base;
 	last_ctc = time->ctc;
 	mtc_freq = config->mtc_freq;
-- 
2.43.0


From cffba202028bc7b1c31fc66492e0270b62d9eb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 21/50] fix: time: remember that a CYC was seen even if it did
 not advance time

A CYC packet that amounts to zero time was not recognized when adjusting the
next CYC packet for skipped MTC periods, which was then attributed to a previous
MTC period.  This was perpetuated to the following MTC periods.
---
 libipt/internal/include/pt_time.h |  7 +++++++
 libipt/src/pt_time.c              | 12 +++++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/libipt/internal/include/pt_time.h b/libipt/internal/include/pt_time.h
index 3b8ba0b..a2fa417 100644
--- a/libipt/internal/include/pt_time.h
+++ b/libipt/internal/include/pt_time.h
@@ -77,6 +77,13 @@ struct pt_time {
 
 	/* A flag saying whether we have seen a MTC packet. */
 	uint32_t have_mtc:1;
+
+	/* A flag saying whether we have seen a CYC packet since the last TSC or
+	 * MTC packet.
+	 *
+	 * Its contribution to @fc may be zero.
+	 */
+	uint32_t have_cyc:1;
 };
 
 /* Initialize (or reset) the time. */
diff --git a/libipt/src/pt_time.c b/libipt/src/pt_time.c
index 12c4c9b..62f42e8 100644
--- a/libipt/src/pt_time.c
+++ b/libipt/src/pt_time.c
@@ -140,6 +140,7 @@ int pt_time_update_tsc(struct pt_time *time,
 	time->have_tsc = 1;
 	time->have_tma = 0;
 	time->have_mtc = 0;
+	time->have_cyc = 0;
 	time->tsc = time->base = packet->tsc;
 	time->ctc = 0;
 	time->fc = 0ull;
@@ -270,11 +271,12 @@ int pt_time_update_mtc(struct pt_time *time,
 	ctc = (uint32_t) packet->ctc << mtc_freq;
 
 	/* Store our CTC value if we have or would have reset FC. */
-	if (time->fc || time->lost_cyc || !have_mtc)
+	if (time->fc || time->have_cyc || time->lost_cyc || !have_mtc)
 		time->ctc_cyc = ctc;
 
 	/* Prepare for the next packet in case we error out below. */
 	time->have_mtc = 1;
+	time->have_cyc = 0;
 	time->fc = 0ull;
 	time->ctc = ctc;
 
@@ -428,21 +430,17 @@ int pt_time_update_cyc(struct pt_time *time,
 
 	cyc = packet->value;
 	fc = time->fc;
-	if (!fc) {
+	if (!fc && !time->have_cyc) {
 		int errcode;
 
 		errcode = pt_time_adjust_cyc(&cyc, time, config, fcr);
 		if (errcode < 0)
 			return errcode;
-
-		/* We accounted for previous MTC periods.  Don't do that again
-		 * for the next CYC in case @fc remains zero.
-		 */
-		time->ctc_cyc = time->ctc;
 	}
 
 	fc += (cyc * fcr) >> pt_tcal_fcr_shr;
 
+	time->have_cyc = 1;
 	time->fc = fc;
 	time->tsc = time->base + fc;
 
-- 
2.43.0


From 91b9152fa507ef86e027f0a445f6b7aed7fac2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 22/50] fix: do not recurse in the block decoder

Code that loops without needing trace, e.g. a spin loop at the end of the
trace, made pt_blk_proceed_no_event_cached() recurse until the block overflowed
or the stack did.
---
 libipt/src/pt_block_decoder.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 53e1723..ec55b8c 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2669,6 +2669,8 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 	if (!decoder || !block)
 		return -pte_internal;
 
+	/* We may need many steps to fill @block.  Do not recurse. */
+again:
 	offset = pt_msec_unmap(msec, decoder->ip);
 	status = pt_bcache_lookup(&bce, bcache, offset);
 	if (status < 0)
@@ -2780,8 +2782,7 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 		 */
 		block->iclass = ptic_unknown;
 
-		return pt_blk_proceed_no_event_cached(decoder, block, bcache,
-						      msec);
+		goto again;
 
 	case ptbq_cond:
 		/* We're at a conditional branch. */
@@ -2904,8 +2905,7 @@ static int pt_blk_proceed_no_event_cached(struct pt_block_decoder *decoder,
 		if (!pt_blk_is_in_section(msec, decoder->ip))
 			return 0;
 
-		return pt_blk_proceed_no_event_cached(decoder, block, bcache,
-						      msec);
+		goto again;
 	}
 
 	case ptbq_ind_call: {
-- 
2.43.0


From 43409c042d69f552cc47a1b34d91ee0da9570422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 23/50] fix: handle malformed event sequences gracefully

Two FUP before a TIP, an EVD followed by an unknown CFE, and an EVD that is not
followed by a CFE made the event decoder fail with an internal error.  For the
last one, dequeuing the first event invalidated the async branch event.
---
 libipt/src/pt_event_decoder.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 9ad02f0..88d5c37 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -2915,11 +2915,15 @@ static int pt_evt_decode_tip_event(struct pt_event_decoder *decoder)
 
 	async = pt_evq_find(&decoder->evq, evb_tip, ptev_async_branch);
 	if (async) {
-		ev = pt_evq_dequeue(&decoder->evq, evb_tip);
+		ev = pt_evq_peek(&decoder->evq, evb_tip);
 		if (!ev)
 			return -pte_internal;
 
-		/* Swap the asynchronous branch event with the first event. */
+		/* Swap the asynchronous branch event with the first event.
+		 *
+		 * We need to do this before we dequeue the first event as that
+		 * may move events in the queue.
+		 */
 		if (ev != async) {
 			struct pt_event tmp;
 
@@ -2928,6 +2932,10 @@ static int pt_evt_decode_tip_event(struct pt_event_decoder *decoder)
 			*ev = tmp;
 		}
 
+		ev = pt_evq_dequeue(&decoder->evq, evb_tip);
+		if (!ev)
+			return -pte_internal;
+
 		if (ev->type != ptev_async_branch)
 			return -pte_internal;
 
@@ -2988,7 +2996,8 @@ static int pt_evt_decode_tip(struct pt_event_decoder *decoder,
 
 	switch (ev->type) {
 	case ptev_async_branch:
-		return -pte_internal;
+		/* There must only be one FUP. */
+		return -pte_bad_context;
 
 	case ptev_exec_mode:
 		errcode = pt_evt_event_ip(&ev->variant.exec_mode.ip, ev,
@@ -3629,9 +3638,9 @@ static int pt_evt_decode_cfe(struct pt_event_decoder *decoder,
 		return pt_evt_fetch_packet(decoder);
 	}
 
-	/* Decoding EVD is supposed to only enqueue supported CFE types. */
+	/* Decoding EVD only enqueues supported CFE types. */
 	if (ev)
-		return -pte_internal;
+		return -pte_bad_context;
 
 	/* Ignore unknown CFE types.
 	 *
-- 
2.43.0


From 17ed081f329a6e5f212bb9765172fce38f73ebc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 24/50] fix: packet decoder: do not skip past the end of the
 trace

Erratum SKZ84 skips a byte behind a corrupted TMA packet, which may not be
there.
---
 libipt/src/pt_packet_decoder.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_packet_decoder.c b/libipt/src/pt_packet_decoder.c
index 78e25ec..7180bf4 100644
--- a/libipt/src/pt_packet_decoder.c
+++ b/libipt/src/pt_packet_decoder.c
@@ -524,6 +524,10 @@ static int pt_pkt_decode_tma(struct pt_packet_decoder *decoder,
 		    && (size == -pte_bad_packet)) {
 			size = ptps_tma + 1;
 
+			/* The corrupted packet may not fit. */
+			if ((decoder->config.end - decoder->pos) < size)
+				return -pte_eos;
+
 			packet->type = ppt_invalid;
 			packet->size = (uint8_t) size;
 		}
-- 
2.43.0


From e62dc264b3876e0534f42aebd732afc0a10e4459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 25/50] fix: do not report internal errors on malformed or
 unusual trace

- block decoder: a cached section may be mapped into address spaces that use
  different execution modes; do not use block cache entries that were added
  for a different mode.
- block decoder: diagnose a missing IP when processing the event.
- block decoder: the TNT bits may be used up by a postponed instruction.
- block decoder: correct the check for imprecise TRIG when tracing is disabled.
- event decoder: a corrupted TMA packet is not a PSB.
- insn decoder: TRIG behind an event that binds to the instruction at the TRIG
  IP.
---
 libipt/src/pt_block_decoder.c | 36 +++++++++++++++++++++++++++++------
 libipt/src/pt_event_decoder.c |  6 ++++--
 libipt/src/pt_insn_decoder.c  |  8 ++++++--
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index ec55b8c..e7b2b43 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -116,8 +116,9 @@ static int pt_blk_find_trig_anchor(struct pt_block_decoder *decoder,
 	case ptev_async_branch:
 	case ptev_tip:
 	case ptev_tnt:
+		/* We diagnose a missing IP when we process the event. */
 		if (ev->ip_suppressed)
-			return -pte_internal;
+			return 0;
 
 		return pt_blk_set_trig_anchor(decoder);
 
@@ -1614,8 +1615,8 @@ static int pt_blk_proceed_to_trig(struct pt_block_decoder *decoder,
 	/* With tracing disabled, the TRIG IP must already be precise. */
 	if (!decoder->enabled) {
 		/* The event decoder must have guaranteed that. */
-		if (!ev->variant.trig.icnt)
-			return -pte_internal;
+		if (ev->variant.trig.icnt)
+			return -pte_bad_query;
 
 		return 1;
 	}
@@ -2528,12 +2529,13 @@ pt_blk_proceed_no_event_fill_cache(struct pt_block_decoder *decoder,
 			return 0;
 	}
 
-	/* We must not have switched execution modes.
+	/* The cache entry may have been added for a different execution mode.
 	 *
-	 * This would require an event and we're on the no-event flow.
+	 * The same section may be mapped into address spaces that use different
+	 * execution modes.  We can't extend such an entry.
 	 */
 	if (pt_bce_exec_mode(bce) != insn.mode)
-		return -pte_internal;
+		return 0;
 
 	/* The decision point IP and the displacement from @insn.ip. */
 	dip = nip + (uint64_t) (int64_t) bce.displacement;
@@ -2682,6 +2684,16 @@ again:
 							  bcache, msec,
 							  bcache_fill_steps);
 
+	/* The cache entry may have been added for a different execution mode.
+	 *
+	 * The same section may be mapped into address spaces that use different
+	 * execution modes.
+	 *
+	 * Switch to the slow path since we can't use such an entry.
+	 */
+	if (pt_bce_exec_mode(bce) != decoder->mode)
+		return pt_blk_proceed_no_event_uncached(decoder, block);
+
 	/* If we switched sections, the original section must have been split
 	 * underneath us.  A split preserves the block cache of the original
 	 * section.
@@ -3325,6 +3337,18 @@ static int pt_blk_proceed_trailing_event(struct pt_block_decoder *decoder,
 	ev = &decoder->event;
 	switch (ev->type) {
 	case ptev_tnt:
+		/* This event does not bind to an instruction.
+		 *
+		 * Proceeding past it may use up the TNT bits.
+		 */
+		if (decoder->process_insn) {
+			status = pt_blk_proceed_postponed_insn(decoder);
+			if (status < 0)
+				return status;
+
+			return pt_blk_proceed_trailing_event(decoder, block);
+		}
+
 		/* Synthesize a tick event on the first used TNT bit.
 		 *
 		 * We do not actually need to track whether this is the first
diff --git a/libipt/src/pt_event_decoder.c b/libipt/src/pt_event_decoder.c
index 88d5c37..d8514eb 100644
--- a/libipt/src/pt_event_decoder.c
+++ b/libipt/src/pt_event_decoder.c
@@ -1456,10 +1456,12 @@ static int pt_evt_start(struct pt_event_decoder *decoder)
 		return 0;
 
 	case ppt_invalid:
-		/* We should have an error. */
+		/* We should have an error, unless the packet is corrupted due
+		 * to an erratum, e.g. SKZ84.
+		 */
 		errcode = decoder->status;
 		if (0 <= errcode)
-			errcode = -pte_internal;
+			errcode = -pte_nosync;
 
 		return errcode;
 
diff --git a/libipt/src/pt_insn_decoder.c b/libipt/src/pt_insn_decoder.c
index adb5ff9..f273608 100644
--- a/libipt/src/pt_insn_decoder.c
+++ b/libipt/src/pt_insn_decoder.c
@@ -602,9 +602,13 @@ static int pt_insn_update_trig(struct pt_insn_decoder *decoder, uint64_t ip)
 
 		ev = &decoder->event;
 		if ((ev->type == ptev_trig) && (ev->variant.trig.ip == ip)) {
-			/* We should not have proceeded past the TRIG IP. */
+			/* We should not have proceeded past the TRIG IP.
+			 *
+			 * We would if the TRIG was preceded by another event
+			 * that binds to the instruction at the TRIG IP.
+			 */
 			if (!ev->variant.trig.icnt)
-				return -pte_internal;
+				return -pte_bad_query;
 
 			ev->variant.trig.icnt -= 1;
 			ev->variant.trig.ip = decoder->ip;
-- 
2.43.0


From 632c0cfcca37da54bcf91cfa0f5e9b5494c663ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 26/50] fix: copy only the visible part of a section when
 copying an image

---
 libipt/src/pt_image.c | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index bcc1e58..0297c60 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -133,21 +133,23 @@ const char *pt_image_name(const struct pt_image *image)
 	return image->name;
 }
 
-int pt_image_add(struct pt_image *image, struct pt_section *section,
-		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+/* Add @size bytes of @section starting at @offset to @image. */
+static int pt_image_add_range(struct pt_image *image,
+			      struct pt_section *section,
+			      const struct pt_asid *asid, uint64_t vaddr,
+			      uint64_t offset, uint64_t size, int isid)
 {
 	struct pt_section_list **list, *next, *removed, *new;
-	uint64_t size, begin, end;
+	uint64_t begin, end;
 	int errcode;
 
 	if (!image || !section)
 		return -pte_internal;
 
-	size = pt_section_size(section);
 	begin = vaddr;
 	end = begin + size;
 
-	next = pt_mk_section_list(section, asid, begin, 0ull, size, isid);
+	next = pt_mk_section_list(section, asid, begin, offset, size, isid);
 	if (!next)
 		return -pte_nomem;
 
@@ -245,6 +247,16 @@ int pt_image_add(struct pt_image *image, struct pt_section *section,
 	return 0;
 }
 
+int pt_image_add(struct pt_image *image, struct pt_section *section,
+		 const struct pt_asid *asid, uint64_t vaddr, int isid)
+{
+	if (!image || !section)
+		return -pte_internal;
+
+	return pt_image_add_range(image, section, asid, vaddr, 0ull,
+				  pt_section_size(section), isid);
+}
+
 int pt_image_remove(struct pt_image *image, struct pt_section *section,
 		    const struct pt_asid *asid, uint64_t vaddr)
 {
@@ -337,12 +349,19 @@ int pt_image_copy(struct pt_image *image, const struct pt_image *src)
 
 	ignored = 0;
 	for (list = src->sections; list; list = list->next) {
+		const struct pt_mapped_section *msec;
 		int errcode;
 
-		errcode = pt_image_add(image, list->section.section,
-				       &list->section.asid,
-				       list->section.vaddr,
-				       list->isid);
+		msec = &list->section;
+
+		/* Parts of the section may have been overwritten so we must
+		 * only add the part that is still visible in @src.
+		 */
+		errcode = pt_image_add_range(image, pt_msec_section(msec),
+					     pt_msec_asid(msec),
+					     pt_msec_begin(msec),
+					     pt_msec_offset(msec),
+					     pt_msec_size(msec), list->isid);
 		if (errcode < 0)
 			ignored += 1;
 	}
-- 
2.43.0


From 010d0c564b3136c2b24c5fcc00cc0d9d9b8c4aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:26 +0000
Subject: [PATCH 27/50] fix: block cache: slow path if a split cuts the
 instruction at the decision point

---
 libipt/src/pt_block_decoder.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index e7b2b43..6f595b5 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -2718,6 +2718,13 @@ again:
 	if (!pt_blk_is_in_section(msec, nip))
 		return pt_blk_proceed_no_event_uncached(decoder, block);
 
+	/* The original section may also have been split within the instruction
+	 * at @nip.  In case we need to decode that instruction, we will detect
+	 * this.  If we already know its size, we might not.
+	 */
+	if (bce.isize && !pt_blk_is_in_section(msec, nip + bce.isize - 1))
+		return pt_blk_proceed_no_event_uncached(decoder, block);
+
 	/* We have a valid cache entry.  Let's first check if the way to the
 	 * decision point still fits into @block.
 	 *
-- 
2.43.0


From 5e1765a34792411acf7b51d413ed4bac3671ca2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:33 +0000
Subject: [PATCH 28/50] fix: section cache lookup: report isids beyond the
 maximum as not contained

---
 libipt/src/pt_image_section_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index 4310313..afb97ee 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -767,7 +767,7 @@ int pt_iscache_lookup(struct pt_image_section_cache *iscache,
 
 	isid -= 1;
 	if (isid > UINT16_MAX)
-		return -pte_internal;
+		return -pte_bad_image;
 
 	index = (uint16_t) isid;
 
-- 
2.43.0


From 5d463f6b72863ee567774fab41ce6a5d2909856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:49 +0000
Subject: [PATCH 29/50] fix: libipt, block: make pt_blk_time()'s lost packet
 arguments optional

---
 libipt/src/pt_block_decoder.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 6f595b5..3429474 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -634,12 +634,15 @@ pt_blk_get_config(const struct pt_block_decoder *decoder)
 int pt_blk_time(struct pt_block_decoder *decoder, uint64_t *time,
 		uint32_t *lost_mtc, uint32_t *lost_cyc)
 {
-	if (!decoder || !time || !lost_mtc || !lost_cyc)
+	if (!decoder || !time)
 		return -pte_invalid;
 
 	*time = decoder->tsc;
-	*lost_mtc = decoder->lost_mtc;
-	*lost_cyc = decoder->lost_cyc;
+
+	if (lost_mtc)
+		*lost_mtc = decoder->lost_mtc;
+	if (lost_cyc)
+		*lost_cyc = decoder->lost_cyc;
 
 	return 0;
 }
-- 
2.43.0


From 8daf8d660a28587b68883483258e9d8a3287d6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:35 +0000
Subject: [PATCH 30/50] fix: libipt, block: report missing time and core:bus
 ratio

---
 libipt/src/pt_block_decoder.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 3429474..5b3f1c2 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -644,6 +644,9 @@ int pt_blk_time(struct pt_block_decoder *decoder, uint64_t *time,
 	if (lost_cyc)
 		*lost_cyc = decoder->lost_cyc;
 
+	if (!decoder->has_tsc)
+		return -pte_no_time;
+
 	return 0;
 }
 
@@ -654,6 +657,9 @@ int pt_blk_core_bus_ratio(struct pt_block_decoder *decoder, uint32_t *cbr)
 
 	*cbr = decoder->cbr;
 
+	if (!decoder->cbr)
+		return -pte_no_cbr;
+
 	return 0;
 }
 
-- 
2.43.0


From 1c0d0dc267443c30bb50e5274741c8a1feae4de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 31/50] fix: pevent: clear the reserved part of the CPU sample

---
 pevent/src/pevent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pevent/src/pevent.c b/pevent/src/pevent.c
index 48a003f..b843bd3 100644
--- a/pevent/src/pevent.c
+++ b/pevent/src/pevent.c
@@ -512,7 +512,7 @@ static int write_samples(uint8_t **stream, const struct pev_event *event,
 			return -pte_bad_packet;
 
 		write(stream, event->sample.cpu, sizeof(*event->sample.cpu));
-		*stream += sizeof(uint32_t);
+		clear(stream, sizeof(uint32_t));
 	}
 
 	if (sample_type & PERF_SAMPLE_IDENTIFIER) {
-- 
2.43.0


From 037e770e04e07495a8582d2ec2e7bb6aa15f6e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:38 +0000
Subject: [PATCH 32/50] fix: sideband: report offsets into the sideband file

Errors and printed records gave the offset from the configured beginning of
the sideband data instead of the offset into the sideband file.
---
 sideband/internal/include/pt_sb_pevent.h | 3 +++
 sideband/src/pt_sb_pevent.c              | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sideband/internal/include/pt_sb_pevent.h b/sideband/internal/include/pt_sb_pevent.h
index 328e2e6..1ff9746 100644
--- a/sideband/internal/include/pt_sb_pevent.h
+++ b/sideband/internal/include/pt_sb_pevent.h
@@ -100,6 +100,9 @@ struct pt_sb_pevent_priv {
 	/* The begin and end of the sideband data in memory. */
 	uint8_t *begin, *end;
 
+	/* The offset of the sideband data in @filename. */
+	uint64_t offset;
+
 	/* The position of the current and the next record in the sideband
 	 * buffer.
 	 *
diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 83dac5e..9948774 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -155,7 +155,7 @@ static int pt_sb_pevent_error(const struct pt_sb_session *session, int errcode,
 			return -pte_internal;
 
 		filename = priv->filename;
-		offset = (uint64_t) (int64_t) (pos - begin);
+		offset = priv->offset + (uint64_t) (int64_t) (pos - begin);
 	}
 
 	return pt_sb_error(session, errcode, filename, offset);
@@ -310,6 +310,7 @@ int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 	priv->begin = (uint8_t *) buffer;
 	priv->end = (uint8_t *) buffer + size;
 	priv->next = (uint8_t *) buffer;
+	priv->offset = config->begin;
 
 	errcode = pt_sb_pevent_init_path(&priv->filename, filename);
 	if (errcode < 0) {
@@ -862,7 +863,7 @@ static int pt_sb_pevent_print(struct pt_sb_pevent_priv *priv, FILE *stream,
 	switch (flags & (ptsbp_filename | ptsbp_file_offset)) {
 	case ptsbp_filename | ptsbp_file_offset:
 		fprintf(stream, "%s:%016" PRIx64 "  ", filename,
-			(uint64_t) (int64_t) (pos - begin));
+			priv->offset + (uint64_t) (int64_t) (pos - begin));
 		break;
 
 	case ptsbp_filename:
@@ -871,7 +872,7 @@ static int pt_sb_pevent_print(struct pt_sb_pevent_priv *priv, FILE *stream,
 
 	case ptsbp_file_offset:
 		fprintf(stream, "%016" PRIx64 "  ",
-			(uint64_t) (int64_t) (pos - begin));
+			priv->offset + (uint64_t) (int64_t) (pos - begin));
 		break;
 	}
 
-- 
2.43.0


From 10238cdab37fe8c847d4d0e8aca5032ff0560dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 33/50] fix: sideband: do not map a file with a truncated name

If the sysroot and the name of the mapped file did not fit into the buffer, we
used the truncated name, which may refer to a different file.
---
 sideband/src/pt_sb_pevent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 9948774..056ff4e 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -1240,7 +1240,7 @@ static int pt_sb_pevent_map(struct pt_sb_session *session,
 		/* Prepend the sysroot to normal files. */
 		errcode = snprintf(buffer, sizeof(buffer), "%s%s", sysroot,
 				   filename);
-		if (errcode < 0)
+		if ((errcode < 0) || (sizeof(buffer) <= (size_t) errcode))
 			return -pte_overflow;
 
 		filename = buffer;
-- 
2.43.0


From 7a503879ab0842eddb712df9752236d271f470bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 34/50] fix: sideband: reject offsets beyond the end of the
 file

We computed a negative size, tried to allocate that much memory, and
diagnosed an out-of-memory error.
---
 sideband/src/pt_sb_file.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sideband/src/pt_sb_file.c b/sideband/src/pt_sb_file.c
index 4591bcc..5f3a94d 100644
--- a/sideband/src/pt_sb_file.c
+++ b/sideband/src/pt_sb_file.c
@@ -76,6 +76,11 @@ int pt_sb_file_load(void **pbuffer, size_t *psize, const char *filename,
 			fend = fsize;
 	}
 
+	if (fend < fbegin) {
+		fclose(file);
+		return -pte_invalid;
+	}
+
 	size = (size_t) (fend - fbegin);
 
 	errcode = fseek(file, fbegin, SEEK_SET);
-- 
2.43.0


From a043c87a3cc49f4b6b50174934006cd30c52a041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 35/50] fix: sideband: free buffers if we fail to add the
 pevent decoder

---
 sideband/src/pt_sb_pevent.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 056ff4e..613720a 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -1799,7 +1799,7 @@ int pt_sb_alloc_pevent_decoder(struct pt_sb_session *session,
 
 	errcode = pt_sb_alloc_decoder(session, &config);
 	if (errcode < 0)
-		free(priv);
+		pt_sb_pevent_dtor(priv);
 
 	return errcode;
 }
-- 
2.43.0


From 7c141b7bc3a357cf7e06fafd7eb79f81186ac12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 36/50] fix: sideband: do not free the pevent decoder twice

If we failed to copy one of the configured paths, pt_sb_pevent_init() had
already freed the decoder its caller frees on errors.
---
 sideband/src/pt_sb_pevent.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 613720a..6bdab1a 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -225,12 +225,10 @@ static int pt_sb_pevent_find_vdso(const char **pvdso,
 	return 0;
 }
 
-static void pt_sb_pevent_dtor(void *priv_arg)
+static void pt_sb_pevent_fini(struct pt_sb_pevent_priv *priv)
 {
-	struct pt_sb_pevent_priv *priv;
 	struct pt_sb_context *context;
 
-	priv = (struct pt_sb_pevent_priv *) priv_arg;
 	if (!priv)
 		return;
 
@@ -248,6 +246,11 @@ static void pt_sb_pevent_dtor(void *priv_arg)
 	free(priv->vdso_x32);
 	free(priv->vdso_ia32);
 	free(priv->begin);
+}
+
+static void pt_sb_pevent_dtor(void *priv)
+{
+	pt_sb_pevent_fini((struct pt_sb_pevent_priv *) priv);
 	free(priv);
 }
 
@@ -314,31 +317,31 @@ int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 
 	errcode = pt_sb_pevent_init_path(&priv->filename, filename);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->sysroot, config->sysroot);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_x64, config->vdso_x64);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_x32, config->vdso_x32);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
 	errcode = pt_sb_pevent_init_path(&priv->vdso_ia32, config->vdso_ia32);
 	if (errcode < 0) {
-		pt_sb_pevent_dtor(priv);
+		pt_sb_pevent_fini(priv);
 		return errcode;
 	}
 
-- 
2.43.0


From c1ff7d5600dad3201cc2015e5d13ff92b842b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:24 +0000
Subject: [PATCH 37/50] fix: sideband: do not wrap around when adding a
 negative tsc offset

A timestamp that is, as unsigned number, bigger than the negative offset
wrapped around.
---
 sideband/src/pt_sb_pevent.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 6bdab1a..7a4325c 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -407,17 +407,16 @@ static int pt_sb_pevent_fetch(uint64_t *ptsc, struct pt_sb_pevent_priv *priv)
 	 */
 	offset = priv->tsc_offset;
 	tsc = event->sample.tsc;
-	if (offset <= tsc)
-		tsc -= offset;
-	else {
-		if (0ll <= (int64_t) offset)
+	if (0ll <= (int64_t) offset) {
+		if (offset <= tsc)
+			tsc -= offset;
+		else
 			tsc = 0ull;
-		else {
-			if (tsc <= offset)
-				tsc -= offset;
-			else
-				tsc = UINT64_MAX;
-		}
+	} else {
+		if (tsc < offset)
+			tsc -= offset;
+		else
+			tsc = UINT64_MAX;
 	}
 
 	/* We update the event record's timestamp, as well, so we will print the
-- 
2.43.0


From b69594f1df8e7e0a84a00016069ce772f9840189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 38/50] fix: ptdump: reset last-ip at PSB, leave PSB+ at OVF

---
 ptdump/src/ptdump.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index a2daba6..77f9c8a 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -1077,6 +1077,9 @@ static int print_packet(struct ptdump_buffer *buffer, uint64_t offset,
 	case ppt_psb:
 		print_field(buffer->opcode, "psb");
 
+		/* The last-ip is reset at PSB. */
+		pt_last_ip_init(&tracking->last_ip);
+
 		if (options->track_time) {
 			int errcode;
 
@@ -1104,6 +1107,9 @@ static int print_packet(struct ptdump_buffer *buffer, uint64_t offset,
 	case ppt_ovf:
 		print_field(buffer->opcode, "ovf");
 
+		/* An overflow inside PSB+ ends PSB+ without a PSBEND. */
+		tracking->in_header = 0;
+
 		if (options->track_time) {
 #if (LIBIPT_VERSION >= 0x201)
 			if (options->keep_tcal_on_ovf) {
-- 
2.43.0


From e4d271bf4061a31c27bf8d95f5f12efb449409bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 39/50] fix: sideband: copy the sample configuration

---
 sideband/src/pt_sb_pevent.c | 41 +++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index 7a4325c..c313ea3 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -245,6 +245,7 @@ static void pt_sb_pevent_fini(struct pt_sb_pevent_priv *priv)
 	free(priv->vdso_x64);
 	free(priv->vdso_x32);
 	free(priv->vdso_ia32);
+	free(priv->pev.sample_config);
 	free(priv->begin);
 }
 
@@ -283,6 +284,36 @@ static int pt_sb_pevent_init_path(char **dst, const char *src)
 	return 0;
 }
 
+#if (LIBIPT_SB_VERSION >= 0x201)
+
+static int pt_sb_pevent_init_sample_config(struct pev_sample_config **dst,
+					   const struct pev_sample_config *src)
+{
+	struct pev_sample_config *copy;
+	size_t size;
+
+	if (!dst)
+		return -pte_internal;
+
+	if (!src) {
+		*dst = NULL;
+		return 0;
+	}
+
+	size = sizeof(*src) + (src->nstypes * sizeof(src->stypes[0]));
+	copy = malloc(size);
+	if (!copy)
+		return -pte_nomem;
+
+	memcpy(copy, src, size);
+
+	*dst = copy;
+
+	return 0;
+}
+
+#endif /* (LIBIPT_SB_VERSION >= 0x201) */
+
 int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 		      const struct pt_sb_pevent_config *config)
 {
@@ -356,8 +387,14 @@ int pt_sb_pevent_init(struct pt_sb_pevent_priv *priv,
 	priv->location = ploc_unknown;
 
 #if (LIBIPT_SB_VERSION >= 0x201)
-	if (pev_config_has(config, sample_config))
-		priv->pev.sample_config = config->sample_config;
+	if (pev_config_has(config, sample_config)) {
+		errcode = pt_sb_pevent_init_sample_config(
+			&priv->pev.sample_config, config->sample_config);
+		if (errcode < 0) {
+			pt_sb_pevent_fini(priv);
+			return errcode;
+		}
+	}
 #endif
 
 	return 0;
-- 
2.43.0


From fa154ff610d30aa6b217e42e00e385c68f01830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 40/50] fix: ptdump: free the sample configuration, limit its
 size

---
 ptdump/src/ptdump.c | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/ptdump/src/ptdump.c b/ptdump/src/ptdump.c
index 77f9c8a..b2be245 100644
--- a/ptdump/src/ptdump.c
+++ b/ptdump/src/ptdump.c
@@ -157,6 +157,11 @@ struct ptdump_tracking {
 #if defined(FEATURE_SIDEBAND)
 	/* The sideband session. */
 	struct pt_sb_session *session;
+
+#if defined(FEATURE_PEVENT)
+	/* The configuration for the next perf event sideband decoder. */
+	struct pt_sb_pevent_config pevent;
+#endif
 #endif
 
 	/* Track last-ip. */
@@ -495,6 +500,12 @@ static void ptdump_tracking_init(struct ptdump_tracking *tracking)
 
 #if defined(FEATURE_SIDEBAND)
 	tracking->session = NULL;
+
+#if defined(FEATURE_PEVENT)
+	memset(&tracking->pevent, 0, sizeof(tracking->pevent));
+	tracking->pevent.size = sizeof(tracking->pevent);
+	tracking->pevent.time_mult = 1;
+#endif
 #endif
 	tracking->tsc = 0ull;
 	tracking->fcr = 0ull;
@@ -522,6 +533,10 @@ static void ptdump_tracking_fini(struct ptdump_tracking *tracking)
 
 #if defined(FEATURE_SIDEBAND)
 	pt_sb_free(tracking->session);
+
+#if defined(FEATURE_PEVENT)
+	free(tracking->pevent.sample_config);
+#endif
 #endif
 }
 
@@ -1698,6 +1713,9 @@ static int pt_parse_sample_config(struct pt_sb_pevent_config *pevent,
 	}
 
 	nstypes = sample_config->nstypes;
+	if (nstypes == UINT8_MAX)
+		return -pte_nomem;
+
 	sample_config = realloc(sample_config,
 				sizeof(*sample_config) +
 				((nstypes + 1) *
@@ -1810,7 +1828,7 @@ static int process_args(int argc, char *argv[],
 			struct pt_config *config, char **ptfile)
 {
 #if defined(FEATURE_SIDEBAND) && defined(FEATURE_PEVENT)
-	struct pt_sb_pevent_config pevent;
+	struct pt_sb_pevent_config *pevent;
 #endif
 	int idx, errcode;
 
@@ -1820,9 +1838,7 @@ static int process_args(int argc, char *argv[],
 	}
 
 #if defined(FEATURE_SIDEBAND) && defined(FEATURE_PEVENT)
-	memset(&pevent, 0, sizeof(pevent));
-	pevent.size = sizeof(pevent);
-	pevent.time_mult = 1;
+	pevent = &tracking->pevent;
 #endif
 	for (idx = 1; idx < argc; ++idx) {
 		if (strncmp(argv[idx], "-", 1) != 0) {
@@ -1918,7 +1934,7 @@ static int process_args(int argc, char *argv[],
 			}
 
 			errcode = ptdump_sb_pevent(tracking->session, arg,
-						   &pevent, argv[0]);
+						   pevent, argv[0]);
 			if (errcode < 0)
 				return -1;
 
@@ -1927,12 +1943,12 @@ static int process_args(int argc, char *argv[],
 			 */
 			options->track_time = 1;
 		} else if (strcmp(argv[idx], "--pevent:sample-type") == 0) {
-			if (!get_arg_uint64(&pevent.sample_type,
+			if (!get_arg_uint64(&pevent->sample_type,
 					    "--pevent:sample-type",
 					    argv[++idx], argv[0]))
 				return -1;
 		} else if (strcmp(argv[idx], "--pevent:sample-config") == 0) {
-			errcode = pt_parse_sample_config(&pevent, argv[++idx]);
+			errcode = pt_parse_sample_config(pevent, argv[++idx]);
 			if (errcode < 0) {
 				fprintf(stderr,
 					"%s: bad sample config %s: %s.\n",
@@ -1941,27 +1957,27 @@ static int process_args(int argc, char *argv[],
 				return -1;
 			}
 		} else if (strcmp(argv[idx], "--pevent:time-zero") == 0) {
-			if (!get_arg_uint64(&pevent.time_zero,
+			if (!get_arg_uint64(&pevent->time_zero,
 					    "--pevent:time-zero",
 					    argv[++idx], argv[0]))
 				return -1;
 		} else if (strcmp(argv[idx], "--pevent:time-shift") == 0) {
-			if (!get_arg_uint16(&pevent.time_shift,
+			if (!get_arg_uint16(&pevent->time_shift,
 					    "--pevent:time-shift",
 					    argv[++idx], argv[0]))
 				return -1;
 		} else if (strcmp(argv[idx], "--pevent:time-mult") == 0) {
-			if (!get_arg_uint32(&pevent.time_mult,
+			if (!get_arg_uint32(&pevent->time_mult,
 					    "--pevent:time-mult",
 					    argv[++idx], argv[0]))
 				return -1;
 		} else if (strcmp(argv[idx], "--pevent:tsc-offset") == 0) {
-			if (!get_arg_uint64(&pevent.tsc_offset,
+			if (!get_arg_uint64(&pevent->tsc_offset,
 					    "--pevent:tsc-offset",
 					    argv[++idx], argv[0]))
 				return -1;
 		} else if (strcmp(argv[idx], "--pevent:kernel-start") == 0) {
-			if (!get_arg_uint64(&pevent.kernel_start,
+			if (!get_arg_uint64(&pevent->kernel_start,
 					    "--pevent:kernel-start",
 					    argv[++idx], argv[0]))
 				return -1;
-- 
2.43.0


From 0a9aab14319264ca1cac7331c2cb47a221719ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:45 +0000
Subject: [PATCH 41/50] fix: pttc: include files, labels on their own line,
 section length

The increment and line arguments were swapped so directives following an include
file or a macro were ignored.  Continuation lines of long opcodes were counted as
source lines and not as part of the section, and leading zero bytes were ignored.
The name of a label on its own line was overwritten when searching for its
address and other labels in between were ignored.
---
 pttc/include/yasm.h |   5 ++
 pttc/src/yasm.c     | 129 ++++++++++++++++++++++++++++++--------------
 2 files changed, 93 insertions(+), 41 deletions(-)

diff --git a/pttc/include/yasm.h b/pttc/include/yasm.h
index bdabb9a..704a25f 100644
--- a/pttc/include/yasm.h
+++ b/pttc/include/yasm.h
@@ -183,6 +183,11 @@ struct yasm {
 	/* Current line number in the lstfile.  */
 	int lst_curr_line;
 
+	/* Non-zero if the current line in the lst file is continued in the next
+	 * line.
+	 */
+	int lst_continued;
+
 	/* The list of labels found in the lstfile.  */
 	struct label *l;
 };
diff --git a/pttc/src/yasm.c b/pttc/src/yasm.c
index 2284b44..88558c0 100644
--- a/pttc/src/yasm.c
+++ b/pttc/src/yasm.c
@@ -157,11 +157,52 @@ static int lookup_section_vstart(struct label *l, char *line,
 static const char key_section[] = "[section";
 static const char key_org[] = "[org";
 
+/* Parse the beginning of a @line in yasm's .lst file.
+ *
+ * Returns a pointer to the opcode and provides its address in @addr if there is
+ * one in this @line; returns NULL otherwise.
+ */
+static const char *parse_lst_line(const char *line, uint64_t *addr)
+{
+	int begin, end;
+
+	begin = 0;
+	end = 0;
+	if (sscanf(line, "%*d %n%" SCNx64 "%n", &begin, addr, &end) != 1)
+		return NULL;
+
+	/* addresses are 8 digits long. */
+	if ((end != begin + 8) || (line[end] != ' '))
+		return NULL;
+
+	return line + end + 1;
+}
+
+/* Parse the @opcode in yasm's .lst file.
+ *
+ * An opcode that does not fit into one line ends with a '-' and is continued in
+ * the next line.
+ *
+ * Adds the number of opcode bytes to @size.
+ *
+ * Returns a non-zero value if @opcode is continued in the next line.
+ */
+static int parse_lst_opcode(const char *opcode, uint64_t *size)
+{
+	while (isxdigit((unsigned char) opcode[0]) &&
+	       isxdigit((unsigned char) opcode[1])) {
+		opcode += 2;
+		*size += 1;
+	}
+
+	return *opcode == '-';
+}
+
 int parse_yasm_labels(struct label *l, const struct text *t)
 {
-	int errcode, no_org_directive;
-	size_t i;
-	uint64_t base_addr;
+	int errcode, no_org_directive, continued;
+	size_t i, j;
+	uint64_t base_addr, size;
 	char line[1024], *end;
 	struct label *length;
 
@@ -170,6 +211,8 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 
 	base_addr = 0;
 	no_org_directive = 1;
+	continued = 0;
+	size = 0;
 	length = NULL;
 	end = line + sizeof(line);
 
@@ -215,46 +258,27 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 			continue;
 		}
 
-		/* update the section_<name>_length label, if we have one.
-		 *
-		 * this must be last; it destroys @line.
-		 */
+		/* update the section_<name>_length label, if we have one. */
 		if (length) {
-			uint64_t value, size;
-
-			tmp = strtok(line, " ");
-			if (!tmp)
-				continue;
+			const char *opcode;
+			uint64_t addr;
 
-			/* we expect a line number. */
-			errcode = str_to_uint64(tmp, &value, 10);
-			if (errcode < 0)
-				continue;
-
-			tmp = strtok(NULL, " ");
-			if (!tmp)
-				continue;
-
-			/* we expect an address. */
-			errcode = str_to_uint64(tmp, &value, 16);
-			if (errcode < 0)
-				continue;
-
-			tmp = strtok(NULL, " ");
-			if (!tmp)
+			opcode = parse_lst_line(line, &addr);
+			if (!opcode)
 				continue;
 
-			/* we expect an opcode. */
-			errcode = str_to_uint64(tmp, &value, 16);
-			if (errcode < 0)
-				continue;
+			/* we got an opcode - let's compute it's size.
+			 *
+			 * continuation lines repeat the address.
+			 */
+			if (!continued)
+				size = 0;
 
-			/* we got an opcode - let's compute it's size. */
-			for (size = 0; value != 0; value >>= 8)
-				size += 1;
+			continued = parse_lst_opcode(opcode, &size);
 
 			/* update the section_<name>_length label. */
-			length->addr += size;
+			if (length->addr < addr + size)
+				length->addr = addr + size;
 		}
 	}
 
@@ -335,18 +359,22 @@ int parse_yasm_labels(struct label *l, const struct text *t)
 
 		/* there was a label so now an address needs to
 		 * be found.
+		 *
+		 * there may be other labels in between so we will process those
+		 * lines, again.
 		 */
 		errcode = -err_label_addr;
-		for (i += 1; i < t->n; i++) {
+		for (j = i + 1; j < t->n; j++) {
+			char next[1024];
 			int errcode_text;
 
-			errcode_text = text_line(t, line, sizeof(line), i);
+			errcode_text = text_line(t, next, sizeof(next), j);
 			if (errcode_text < 0) {
 				errcode = errcode_text;
 				break;
 			}
-			if (sscanf(line, "%*d %" PRIx64 " %*x %*s", &addr)
-			    == 1) {
+
+			if (parse_lst_line(next, &addr)) {
 				uint64_t laddr;
 
 				laddr = addr + base_addr;
@@ -797,6 +825,10 @@ static int yasm_advance_next_line(struct yasm *y)
 
 
 	for (;;) {
+		const char *opcode;
+		uint64_t addr, size;
+		int continued;
+
 		errcode = fl_getline(y->fl, s, sizeof(s), y->lstfile,
 				     (size_t) y->lst_curr_line);
 		/* always advance in lst file.  */
@@ -817,11 +849,26 @@ static int yasm_advance_next_line(struct yasm *y)
 			 * filename, if necessary.
 			 */
 			filename[FILENAME_MAX-1] = 0;
-			st_set_file(y->st_asm, filename, asm_line, asm_inc);
+			st_set_file(y->st_asm, filename, asm_inc, asm_line);
 			continue;
 		}
 #undef asstr
 #undef tostr
+		/* continuation lines do not correspond to a line in the source
+		 * file.
+		 */
+		continued = y->lst_continued;
+		y->lst_continued = 0;
+
+		opcode = parse_lst_line(s, &addr);
+		if (opcode) {
+			size = 0;
+			y->lst_continued = parse_lst_opcode(opcode, &size);
+		}
+
+		if (continued)
+			continue;
+
 		/* if line number or increment in the previous line
 		 * directive is <= 0, the current lst line has no
 		 * corresponding line in the source file.
-- 
2.43.0


From e062dbc6e48bb691a9aed7f7251d7b324dfaf042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:45 +0000
Subject: [PATCH 42/50] fix: pttc: diagnose a missing --cpu argument

---
 pttc/src/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pttc/src/main.c b/pttc/src/main.c
index 09b676b..6b69db9 100644
--- a/pttc/src/main.c
+++ b/pttc/src/main.c
@@ -73,6 +73,12 @@ int main(int argc, char *argv[])
 			return 0;
 		}
 		if (strcmp(arg, "--cpu") == 0) {
+			if (argc <= i) {
+				fprintf(stderr,
+					"%s: --cpu: missing argument.\n",
+					prog);
+				return 1;
+			}
 			arg = argv[i++];
 
 			if (strcmp(arg, "none") == 0) {
-- 
2.43.0


From 64f6492af85e6527058ae46ff4b9f35c9d3c7c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:45 +0000
Subject: [PATCH 43/50] fix: pttc: argument checks, .exp file name, sample_type
 masks

A bad pip modifier was diagnosed but did not fail.  Empty tnt payloads and tnt
payloads of more than 255 bits were accepted.  C-state 15 was rejected.  The
vector of cfe packets of other types was not initialized.  Masking all 8 bytes
of a label used an undefined shift.  The .exp file without a tool was named
file-.exp.  Integer arguments in pevent-sample_type were parsed from the start
of the list.
---
 pttc/src/parse.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pttc/src/parse.c b/pttc/src/parse.c
index c88e041..4d7f4a6 100644
--- a/pttc/src/parse.c
+++ b/pttc/src/parse.c
@@ -268,7 +268,7 @@ static char *expfilename(struct parser *p, const char *extra)
 		len = snprintf(filename, sizeof(filename), "%s-%s%s%s",
 			       p->y->fileroot, extra, cpuext, exp_suffix);
 	else
-		len = snprintf(filename, sizeof(filename), "%s-%s%s",
+		len = snprintf(filename, sizeof(filename), "%s%s%s",
 			       p->y->fileroot, cpuext, exp_suffix);
 
 	if ((len < 0) || (sizeof(filename) <= (size_t) len))
@@ -501,7 +501,8 @@ static int p_gen_expfile(struct parser *p)
 					goto error;
 				}
 
-				addr &= (1ull << (n << 3)) - 1ull;
+				if (n < 8)
+					addr &= (1ull << (n << 3)) - 1ull;
 				line = endptr;
 
 				qmark_size = (int) (8 - n);
@@ -802,7 +803,7 @@ static int parse_c_state(uint8_t *state, uint8_t *sub_state, const char *input)
 		if (!sub_state)
 			return -err_parse_c_state_sub;
 
-		if (0xf <= min)
+		if (0xf < min)
 			return -err_parse_c_state_invalid;
 
 		fallthrough;
@@ -810,7 +811,7 @@ static int parse_c_state(uint8_t *state, uint8_t *sub_state, const char *input)
 		if (!state)
 			return -err_internal;
 
-		if (0xf <= maj)
+		if (0xf < maj)
 			return -err_parse_c_state_invalid;
 
 		break;
@@ -963,6 +964,8 @@ static int parse_cfe(const char **input, const struct parser *p,
 		if (status < 0)
 			return status;
 
+		packet->vector = 0;
+
 		switch (packet->type) {
 		case pt_cfe_intr:
 		case pt_cfe_sipi:
@@ -984,7 +987,6 @@ static int parse_cfe(const char **input, const struct parser *p,
 		case pt_cfe_vmexit:
 		case pt_cfe_shutdown:
 		case pt_cfe_uiret:
-			packet->vector = 0;
 			break;
 		}
 	} else {
@@ -1423,7 +1425,7 @@ static int p_process_pt(struct parser *p, struct pt_encoder *e)
 			else {
 				yasm_print_err(p->y, "pip: parsing failed",
 					       -err_parse_trailing_tokens);
-				return errcode;
+				return -err_parse_trailing_tokens;
 			}
 		}
 	} else if (strcmp(directive, "tsc") == 0) {
@@ -2731,7 +2733,7 @@ static int p_process_sb(struct parser *p)
 				uint64_t value;
 				int errcode;
 
-				errcode = parse_uint64(&value, payload);
+				errcode = str_to_uint64(token, &value, 0);
 				if (errcode < 0) {
 					yasm_print_err(p->y, token, errcode);
 					return errcode;
@@ -3288,13 +3290,16 @@ int parse_tnt(uint64_t *tnt, uint8_t *size, char *payload)
 	*tnt = 0ull;
 
 	if (!payload)
-		return 0;
+		return -err_parse_no_args;
 
 	while (*payload != '\0') {
 		c = *payload;
 		payload++;
 		if (isspace(c) || c == '.')
 			continue;
+		/* the encoder checks the limit for the respective packet. */
+		if (*size == UINT8_MAX)
+			return -err_parse_int_too_big;
 		*size += 1;
 		*tnt <<= 1;
 		switch (c) {
@@ -3308,6 +3313,9 @@ int parse_tnt(uint64_t *tnt, uint8_t *size, char *payload)
 		}
 	}
 
+	if (!*size)
+		return -err_parse_no_args;
+
 	return 0;
 }
 
-- 
2.43.0


From 7acb444f720b03403b6ec5042658549d7d0bcc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:17 +0000
Subject: [PATCH 44/50] fix: ptseg: diagnose an empty offset

---
 ptseg/src/ptseg.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptseg/src/ptseg.c b/ptseg/src/ptseg.c
index e6d7aad..ff668f7 100644
--- a/ptseg/src/ptseg.c
+++ b/ptseg/src/ptseg.c
@@ -315,6 +315,9 @@ static int ptseg_split_ptarg(const char **ptfile, uint64_t *ptoffset,
 	*ptfile = ptarg;
 	*psep++ = 0;
 
+	if (!*psep)
+		return no_offset(ptseg, ptarg);
+
 	errno = 0;
 	*ptoffset = (uint64_t) strtoull(psep, &rest, 0);
 	if (errno || *rest)
-- 
2.43.0


From eca5e8dbfbdf534b374daf0f93be11d9ff7b9f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 45/50] fix: ptseg: end the segment at a PSB at the requested
 offset

If there is no PSB before the offset, the forward search skipped a PSB at
the offset itself and the reported range had that PSB in the middle.
---
 ptseg/src/ptseg.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ptseg/src/ptseg.c b/ptseg/src/ptseg.c
index ff668f7..d181d1c 100644
--- a/ptseg/src/ptseg.c
+++ b/ptseg/src/ptseg.c
@@ -227,6 +227,13 @@ static int ptseg_pkt_find_seg(uint64_t *begin, uint64_t *end,
 	if (errcode < 0) {
 		if (errcode != -pte_eos)
 			return errcode;
+
+		/* There is no PSB before @offset.  Search for the end of the
+		 * segment from the beginning.  There may be a PSB at @offset.
+		 */
+		errcode = pt_pkt_sync_set(decoder, 0ull);
+		if (errcode < 0)
+			return errcode;
 	} else {
 		errcode = pt_pkt_get_offset(decoder, begin);
 		if (errcode < 0)
-- 
2.43.0


From f101f7d437224e34bda6ce38b97c8c761d6ec337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 46/50] fix: libipt: fail the allocation of an image or iscache
 without its name or lock

pt_image_alloc() and pt_iscache_alloc() ignored failures to copy the name
and pt_iscache_alloc() ignored a failure to initialize the lock.
---
 libipt/src/pt_image.c               | 11 +++++++++--
 libipt/src/pt_image_section_cache.c | 16 +++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/libipt/src/pt_image.c b/libipt/src/pt_image.c
index 0297c60..33f4ba1 100644
--- a/libipt/src/pt_image.c
+++ b/libipt/src/pt_image.c
@@ -113,8 +113,15 @@ struct pt_image *pt_image_alloc(const char *name)
 	struct pt_image *image;
 
 	image = malloc(sizeof(*image));
-	if (image)
-		pt_image_init(image, name);
+	if (!image)
+		return NULL;
+
+	pt_image_init(image, name);
+	if (name && !image->name) {
+		pt_image_fini(image);
+		free(image);
+		return NULL;
+	}
 
 	return image;
 }
diff --git a/libipt/src/pt_image_section_cache.c b/libipt/src/pt_image_section_cache.c
index afb97ee..3ca864f 100644
--- a/libipt/src/pt_image_section_cache.c
+++ b/libipt/src/pt_image_section_cache.c
@@ -53,8 +53,11 @@ int pt_iscache_init(struct pt_image_section_cache *iscache, const char *name)
 		int errcode;
 
 		errcode = mtx_init(&iscache->lock, mtx_plain);
-		if (errcode != thrd_success)
+		if (errcode != thrd_success) {
+			free(iscache->name);
+			iscache->name = NULL;
 			return -pte_bad_lock;
+		}
 	}
 #endif /* defined(FEATURE_THREADS) */
 
@@ -850,10 +853,17 @@ int pt_iscache_clear(struct pt_image_section_cache *iscache)
 struct pt_image_section_cache *pt_iscache_alloc(const char *name)
 {
 	struct pt_image_section_cache *iscache;
+	int errcode;
 
 	iscache = malloc(sizeof(*iscache));
-	if (iscache)
-		pt_iscache_init(iscache, name);
+	if (!iscache)
+		return NULL;
+
+	errcode = pt_iscache_init(iscache, name);
+	if (errcode < 0) {
+		free(iscache);
+		return NULL;
+	}
 
 	return iscache;
 }
-- 
2.43.0


From d39d526d43cfb42e70fa592cc4b68bb6c30ab169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 47/50] fix: libipt: report read errors of file sections

A failing read was reported as successful read of zero bytes.
---
 libipt/src/pt_section_file.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libipt/src/pt_section_file.c b/libipt/src/pt_section_file.c
index 1ad445b..4c96019 100644
--- a/libipt/src/pt_section_file.c
+++ b/libipt/src/pt_section_file.c
@@ -235,6 +235,10 @@ int pt_sec_file_read(const struct pt_section *section, uint8_t *buffer,
 	if (errcode < 0)
 		return errcode;
 
+	/* The section covers the requested memory so this is a read error. */
+	if (size && !read)
+		return -pte_nomap;
+
 	return (int) read;
 
 out_unlock:
-- 
2.43.0


From 937bf3289d51b4b74dea464a0266dbb3b9509c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 48/50] fix: sideband: diagnose file read errors and incomplete
 process images

---
 sideband/src/pt_sb_file.c    |  7 ++++++-
 sideband/src/pt_sb_pevent.c  | 12 ++++++++++--
 sideband/src/pt_sb_session.c |  7 +++++--
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/sideband/src/pt_sb_file.c b/sideband/src/pt_sb_file.c
index 5f3a94d..9205c39 100644
--- a/sideband/src/pt_sb_file.c
+++ b/sideband/src/pt_sb_file.c
@@ -93,7 +93,12 @@ int pt_sb_file_load(void **pbuffer, size_t *psize, const char *filename,
 		return -pte_nomem;
 	}
 
-	*psize = fread(content, 1, size, file);
+	if (fread(content, 1, size, file) != size) {
+		free(content);
+		goto out_file;
+	}
+
+	*psize = size;
 	*pbuffer = content;
 
 	fclose(file);
diff --git a/sideband/src/pt_sb_pevent.c b/sideband/src/pt_sb_pevent.c
index c313ea3..81fc3fa 100644
--- a/sideband/src/pt_sb_pevent.c
+++ b/sideband/src/pt_sb_pevent.c
@@ -1139,8 +1139,16 @@ static int pt_sb_pevent_fork(struct pt_sb_session *session,
 	if (!pimage || !image)
 		return -pte_internal;
 
-	/* Initialize the child's image with its parent's. */
-	return pt_image_copy(image, pimage);
+	/* Initialize the child's image with its parent's.
+	 *
+	 * A positive return value gives the number of sections that could not
+	 * be added.
+	 */
+	errcode = pt_image_copy(image, pimage);
+	if (errcode > 0)
+		return -pte_nomem;
+
+	return errcode;
 }
 
 static int pt_sb_pevent_exec(struct pt_sb_session *session,
diff --git a/sideband/src/pt_sb_session.c b/sideband/src/pt_sb_session.c
index 1a8e043..9da271b 100644
--- a/sideband/src/pt_sb_session.c
+++ b/sideband/src/pt_sb_session.c
@@ -154,10 +154,13 @@ static int pt_sb_add_context_by_pid(struct pt_sb_context **pcontext,
 	if (!context)
 		return -pte_nomem;
 
+	/* A positive return value gives the number of sections that could not
+	 * be added.
+	 */
 	errcode = pt_image_copy(context->image, kernel);
-	if (errcode < 0) {
+	if (errcode) {
 		(void) pt_sb_ctx_put(context);
-		return errcode;
+		return (errcode < 0) ? errcode : -pte_nomem;
 	}
 
 	context->next = session->contexts;
-- 
2.43.0


From c5c970cf77c4efe88ce3c180be6e973fba5d5a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:16 +0000
Subject: [PATCH 49/50] fix: pt_blk: with SKL014, do not disable tracing at a
 branch that only ends the block

pt_blk_proceed_skl014() returned the positive filter status when the user asked
to end blocks on calls or jumps.  Its caller took this as having reached the
event location.
---
 libipt/src/pt_block_decoder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 5b3f1c2..97c47d1 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1210,7 +1210,7 @@ static int pt_blk_proceed_skl014(struct pt_block_decoder *decoder,
 		    (insn->iclass == ptic_call)) ||
 		    (decoder->flags.variant.block.end_on_jump &&
 		    (insn->iclass == ptic_jump)))
-			break;
+			return 0;
 	}
 
 	return status;
-- 
2.43.0


From 62ff8fa5947265a67659a68093b290fe1e8689b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:23 +0000
Subject: [PATCH 50/50] fix: pt_blk: with SKD022, end the block at a branch in
 front of the VM entry

When the user asked to end blocks on calls or jumps and such a branch reached
the VM entry to which the modified event binds, the block continued with that
VM entry.
---
 libipt/src/pt_block_decoder.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libipt/src/pt_block_decoder.c b/libipt/src/pt_block_decoder.c
index 97c47d1..a86e060 100644
--- a/libipt/src/pt_block_decoder.c
+++ b/libipt/src/pt_block_decoder.c
@@ -1874,6 +1874,14 @@ static int pt_blk_proceed_event(struct pt_block_decoder *decoder,
 				if (status < 0)
 					return status;
 
+				/* We may have reached the event location with a
+				 * branch after which the user asked us to end
+				 * the block.  We will process the modified
+				 * event in the next block.
+				 */
+				if (pt_blk_end_block(decoder, block, &insn))
+					return 0;
+
 				/* If the erratum hits, we modify the event.
 				 * Try again.
 				 */
-- 
2.43.0

